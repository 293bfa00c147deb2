//! C16: elaboration with an external solver, under every behaviour of a stand-in for it: every way to
//! exit, every verdict, correct proofs of many shapes, and every fault of one position in them.
use crate::core::*;
use crate::elab::pass;
use crate::print;
use crate::rules::{panic_site, Tally};
use crate::sem::T;
use carcara::ast::*;
use carcara::checker::Config;
use carcara::elaborator::{self, Elaborator, HoleOptions, LiaGenericOptions};
use carcara::parser;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// How the external solver behaves.
#[derive(Clone, Debug)]
struct Reply {
    name: String,
    /// The program, if it is not the stand-in.
    program: Option<&'static str>,
    stdout: Vec<u8>,
    stderr: &'static str,
    exit: &'static str,
    reads: bool,
}

impl Reply {
    fn proof(name: impl Into<String>, proof: &str) -> Reply {
        Reply::text(name, format!("unsat\n{proof}"))
    }
    fn text(name: impl Into<String>, stdout: impl Into<Vec<u8>>) -> Reply {
        Reply { name: name.into(), program: None, stdout: stdout.into(), stderr: "", exit: "exit 0", reads: true }
    }
}

/// A step that calls a solver.
#[derive(Clone)]
struct Subject {
    name: &'static str,
    literals: Vec<&'static str>,
    /// The clause is valid.
    valid: bool,
    /// A step the solver can derive, and the literals it has, as indices.
    core: Option<(Vec<usize>, &'static str, &'static str)>,
    place: Place,
    id: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    /// Its conclusion is refuted by the assertions.
    Top,
    /// The last step of a subproof.
    Last,
    /// In a subproof, but not used there.
    Loose,
    /// Twice, with different identifiers.
    Twice,
    /// Under binders whose variables hide constants of the same or another sort.
    Bound,
    BoundOther,
}

const DECLS: &str = "(set-logic ALL)\n(declare-sort U 0)\n(declare-const a U)\n(declare-const b U)\n(declare-fun f (U) U)\n\
(declare-const p Bool)\n(declare-const q Bool)\n(declare-const x Int)\n(declare-const y Int)\n(declare-const |a b| Int)\n(declare-const u Int)\n(declare-const v Int)\n(declare-const w Real)\n";

fn subjects(thorough: bool) -> Vec<Subject> {
    let s = |name, literals: &[&'static str], valid, core: Option<(&[usize], &'static str, &'static str)>| Subject {
        name,
        literals: literals.to_vec(),
        valid,
        core: core.map(|c| (c.0.to_vec(), c.1, c.2)),
        place: Place::Top,
        id: "t",
    };
    let la = "la_generic";
    let mut v = vec![
        s("one literal", &["(<= x x)"], true, Some((&[0], la, "1"))),
        s("two negated literals", &["(not (< x y))", "(not (< y x))"], true, Some((&[0, 1], la, "1 1"))),
        s("literal that is not needed", &["p", "(<= x x)", "(< y x)"], true, Some((&[1], la, "1"))),
        s("repeated literal", &["(<= x x)", "(<= x x)"], true, Some((&[0], la, "1"))),
        s("opposite literals", &["(= x y)", "(not (= x y))"], true, None),
        s("equalities", &["(= a b)", "(not (= b a))"], true, None),
        s("double negation", &["(not (not (<= x x)))"], true, None),
        s("quoted names", &["(<= |a b| |a b|)"], true, Some((&[0], la, "1"))),
        s("let", &["(let ((z x)) (<= z z))"], true, None),
        s("quantifier", &["(forall ((z Int)) (= z z))"], true, None),
        s("not valid", &["(< x y)"], false, None),
        s("not valid, two literals", &["(< x y)", "p"], false, None),
        s("reflexivity", &["(= (f a) (f a))"], true, Some((&[0], "refl", ""))),
        s("the constant true", &["true"], true, Some((&[0], "true", ""))),
        s("the constant false", &["false"], false, None),
        s("empty clause", &[], false, None),
    ];
    let base = [v[0].clone(), v[1].clone(), v[10].clone()];
    for place in [Place::Last, Place::Loose, Place::Twice, Place::Bound, Place::BoundOther] {
        for (i, b) in base.iter().enumerate() {
            if i == 0 || matches!(place, Place::Loose | Place::Twice) || place == Place::Last && i == 2 {
                v.push(Subject { place, ..b.clone() });
            }
        }
    }
    if thorough {
        for id in ["t.t1", "|s t|", "a0", "c"] {
            v.push(Subject { id, ..base[1].clone() });
        }
    }
    v
}

impl Subject {
    fn key(&self) -> String {
        format!("{} {:?} `{}`", self.name, self.place, self.id)
    }

    fn problem(&self) -> String {
        let mut s = DECLS.to_string();
        for l in &self.literals {
            s += &format!("(assert (not {l}))\n");
        }
        if !matches!(self.place, Place::Top | Place::Twice) {
            s += "(assert p)\n(assert (not p))\n";
        }
        s + "(check-sat)\n"
    }

    fn proof(&self, rule: &str) -> String {
        let mut out = String::new();
        let id = self.id;
        let step = |id: &str, l: &[&str]| format!("(step {id} (cl {}) :rule {rule})\n", l.join(" "));
        match self.place {
            Place::Top | Place::Twice => {
                let mut names = vec![];
                for (i, l) in self.literals.iter().enumerate() {
                    out += &format!("(assume n{i} (not {l}))\n");
                    names.push(format!("n{i}"));
                }
                out += &step(id, &self.literals);
                if self.place == Place::Twice {
                    out += &step("t2", &self.literals);
                    out += &format!("(step t3 (cl) :rule resolution :premises (t2 {}))\n", names.join(" "));
                }
                if !self.literals.is_empty() {
                    out += &format!("(step end (cl) :rule resolution :premises ({id} {}))\n", names.join(" "));
                }
                return out;
            }
            Place::Last => {
                out += "(anchor :step s)\n(assume s.h q)\n";
                out += &step("s.t", &self.literals);
                out += &format!("(step s (cl (not q) {}) :rule subproof :discharge (s.h))\n", self.literals[0]);
            }
            Place::Loose => {
                out += "(anchor :step s)\n(assume s.h q)\n";
                out += &step("s.t", &self.literals);
                out += "(step s.e (cl (= a a)) :rule refl)\n(step s (cl (not q) (= a a)) :rule subproof :discharge (s.h))\n";
            }
            Place::Bound | Place::BoundOther => {
                // the same names are constants, of the same sort or not
                let (z, sort) = if self.place == Place::Bound { ("v", "Int") } else { ("w", "Int") };
                out += &format!("(anchor :step s :args (({z} {sort}) (:= (u {sort}) {z})))\n");
                out += &step("s.t", &[&format!("(= (<= u u) (<= {z} {z}))")]);
                out += &format!("(step s (cl (= (forall ((u {sort})) (<= u u)) (forall (({z} {sort})) (<= {z} {z})))) :rule bind)\n");
            }
        }
        out + "(assume h1 p)\n(assume h2 (not p))\n(step end (cl) :rule resolution :premises (h1 h2))\n"
    }

    /// What the solver is asked to refute.
    fn asked(&self) -> Vec<String> {
        match self.place {
            Place::Bound => vec!["(= (<= u u) (<= v v))".into()],
            Place::BoundOther => vec!["(= (<= u u) (<= w w))".into()],
            _ => self.literals.iter().map(|s| s.to_string()).collect(),
        }
    }

    /// Proofs a solver might give, named.
    fn proofs(&self) -> Vec<(&'static str, String)> {
        let asked = self.asked();
        let assume = |i: usize| format!("(assume a{i} (not {}))\n", asked[i]);
        let all: String = (0..asked.len()).map(assume).collect();
        let names = |v: &[usize]| v.iter().map(|i| format!("a{i}")).collect::<Vec<_>>().join(" ");
        let every: Vec<usize> = (0..asked.len()).collect();
        let clause = |v: &[usize]| v.iter().map(|i| asked[*i].clone()).collect::<Vec<_>>().join(" ");
        let mut out = vec![];
        // a proof that is not one
        out.push(("hole", format!("{all}(step e (cl) :rule hole :premises ({}))\n", names(&every))));
        out.push(("hole without assumptions", "(step e (cl) :rule hole)\n".into()));
        out.push(("unknown rule", format!("{all}(step e (cl) :rule magic :premises ({}))\n", names(&every))));
        out.push(("unchecked arithmetic", format!("{all}(step c (cl {}) :rule lia_generic)\n(step e (cl) :rule resolution :premises (c {}))\n", clause(&every), names(&every))));
        out.push(("wrong refutation", format!("{all}(step e (cl) :rule resolution :premises ({}))\n", names(&every))));
        out.push(("foreign assumption", "(assume f (not (= a a)))\n(step r (cl (= a a)) :rule refl)\n(step e (cl) :rule resolution :premises (f r))\n".into()));
        out.push(("foreign assumption false", "(assume f false)\n(step r (cl (not false)) :rule false)\n(step e (cl) :rule resolution :premises (f r))\n".into()));
        out.push(("assumption as is", format!("(assume f {})\n(step e (cl) :rule hole :premises (f))\n", asked.first().map_or("true", |s| s))));
        out.push(("no empty clause", format!("{all}(step c (cl (= a a)) :rule refl)\n")));
        out.push(("only assumptions", all.clone()));
        out.push(("rewrite rule", format!("{all}(step e (cl) :rule rare_rewrite :args (\"none\"))\n")));
        if self.name == "double negation" {
            out.push(("direct", format!("{all}(step c (cl (<= x x)) :rule la_generic :args (1))\n(step e (cl) :rule resolution :premises (a0 c))\n")));
        }
        let Some((core, rule, args)) = &self.core else {
            return out;
        };
        if matches!(self.place, Place::Bound | Place::BoundOther) {
            // the literal is an equality of valid literals
            let z = if self.place == Place::Bound { "v" } else { "w" };
            let (l, r) = ("(<= u u)".to_string(), format!("(<= {z} {z})"));
            out.push((
                "direct",
                format!(
                    "{all}(step c1 (cl {l}) :rule la_generic :args (1))\n(step c2 (cl {r}) :rule la_generic :args (1))\n\
                     (step c3 (cl (= {l} {r}) (not {l}) (not {r})) :rule equiv_neg1)\n(step e (cl) :rule resolution :premises (c3 a0 c1 c2))\n"
                ),
            ));
            return out;
        }
        let needed: String = core.iter().map(|i| assume(*i)).collect();
        let reversed: String = (0..asked.len()).rev().map(assume).collect();
        let args = if args.is_empty() { String::new() } else { format!(" :args ({args})") };
        // the clause of the core under a name, as steps
        let derive = |id: &str, pre: &str| format!("(step {pre}{id} (cl {}) :rule {rule}{args})\n", clause(core));
        let close = |id: &str, premise: &str| format!("(step {id} (cl) :rule resolution :premises ({premise} {}))\n", names(core));
        out.push(("direct", format!("{needed}{}{}", derive("c", ""), close("e", "c"))));
        out.push(("all assumptions", format!("{all}{}{}", derive("c", ""), close("e", "c"))));
        out.push(("reversed assumptions", format!("{reversed}{}{}", derive("c", ""), close("e", "c"))));
        out.push(("repeated assumptions", format!("{all}{}{}{}", all.replace("(assume a", "(assume b"), derive("c", ""), close("e", "c"))));
        out.push(("assumptions last", format!("{}{all}{}", derive("c", ""), close("e", "c"))));
        out.push(("steps after the end", format!("{all}{}{}(step z (cl (= a a)) :rule refl)\n", derive("c", ""), close("e", "c"))));
        out.push(("two ends", format!("{all}{}{}{}", derive("c", ""), close("e", "c"), close("e2", "c"))));
        out.push(("end is used", format!("{all}{}{}(step z (cl (= a a)) :rule weakening :premises (e))\n", derive("c", ""), close("e", "c"))));
        out.push(("end is used to end", format!("{all}{}{}(step z (cl false) :rule weakening :premises (e))\n(step y (cl (not false)) :rule false)\n(step e2 (cl) :rule resolution :premises (z y))\n", derive("c", ""), close("e", "c"))));
        out.push(("clashing names", format!("{all}{}{}", derive("c", ""), close("e", "c")).replace("a0", "t1").replace("(step c ", "(step t2 ").replace("(c ", "(t2 ").replace("step e ", "step t3 ")));
        out.push(("name of the subproof", format!("{all}{}{}", derive("c", ""), close("e", "c")).replace("(step c ", "(step t1 ").replace("(c ", "(t1 ")));
        out.push(("same names", format!("{all}{}{}", derive("c", ""), close("e", "c")).replace("a0", "n0").replace("(step c ", "(step t ").replace("(c ", "(t ").replace("step e ", "step end ")));
        out.push(("quoted names", format!("{all}{}{}", derive("c", ""), close("e", "c")).replace("(step c ", "(step |c d| ").replace("(c ", "(|c d| ")));
        out.push((
            "subproof",
            format!(
                "{all}(anchor :step s)\n(assume s.h q)\n{}{}(step s (cl (not q) false) :rule subproof :discharge (s.h))\n{}{}",
                derive("c", "s.").replace(":premises (c", ":premises (s.c"),
                close("s.e", "s.c"),
                derive("c", ""),
                close("e", "c")
            ),
        ));
        out.push((
            "end in a subproof",
            format!("{all}(anchor :step s)\n(assume s.h q)\n{}{}(step s (cl (not q) false) :rule subproof :discharge (s.h))\n", derive("c", "s.").replace(":premises (c", ":premises (s.c"), close("s.e", "s.c")),
        ));
        out.push((
            "used subproof",
            format!(
                "{all}(anchor :step s)\n(assume s.h (= a a))\n{}{}(step s (cl (not (= a a)) false) :rule subproof :discharge (s.h))\n\
                 (step r (cl (= a a)) :rule refl)\n(step g (cl (not false)) :rule false)\n(step e (cl) :rule resolution :premises (s r g))\n",
                derive("c", "s.").replace(":premises (c", ":premises (s.c"),
                close("s.e", "s.c")
            ),
        ));
        out.push((
            "nested subproofs",
            format!(
                "{all}(anchor :step s)\n(assume s.h (= a a))\n(anchor :step s.s)\n(assume s.s.h (= b b))\n{}{}(step s.s (cl (not (= b b)) false) :rule subproof :discharge (s.s.h))\n\
                 (step s.r (cl (= b b)) :rule refl)\n(step s.g (cl (not false)) :rule false)\n(step s.e (cl) :rule resolution :premises (s.s s.r s.g))\n\
                 (step s (cl (not (= a a)) false) :rule subproof :discharge (s.h))\n(step r (cl (= a a)) :rule refl)\n(step g (cl (not false)) :rule false)\n(step e (cl) :rule resolution :premises (s r g))\n",
                derive("c", "s.s.").replace(":premises (c", ":premises (s.s.c"),
                close("s.s.e", "s.s.c")
            ),
        ));
        out.push((
            "binder",
            format!(
                "{all}{}(anchor :step s :args ((k U) (:= (j U) k)))\n(step s.t (cl (= (= j j) (= k k))) :rule cong :premises ())\n(step s (cl (= (forall ((j U)) (= j j)) (forall ((k U)) (= k k)))) :rule bind)\n{}",
                derive("c", ""),
                close("e", "c")
            )
            .replace(":rule cong :premises ()", ":rule refl"),
        ));
        out.push(("definition", format!("(define-fun d () Bool {})\n{all}{}{}", asked[core[0]], derive("c", "").replacen(&asked[core[0]], "d", 1), close("e", "c"))));
        out.push(("named terms", format!("{all}{}{}", derive("c", ""), close("e", "c")).replacen(&asked[core[0]], &format!("(! {} :named @n)", asked[core[0]]), 1)));
        out.push(("false before the end", format!("{all}{}(step g (cl false) :rule hole)\n(step h (cl (not false)) :rule false)\n(step e (cl) :rule resolution :premises (g h))\n", derive("c", ""))));
        out.push(("hole next to a proof", format!("{all}(step g (cl q) :rule hole)\n{}{}", derive("c", ""), close("e", "c"))));
        out.push(("wrong step next to a proof", format!("{all}(step g (cl (= a b)) :rule refl)\n{}{}", derive("c", ""), close("e", "c"))));
        out.push(("unknown rule next to a proof", format!("{all}(step g (cl q) :rule magic)\n{}{}", derive("c", ""), close("e", "c"))));
        out
    }
}

/// Behaviours other than printing a proof.
fn faults(good: &str) -> Vec<Reply> {
    let mut v = vec![];
    for program in ["/nonexistent/solver", "/", "/etc/hostname", ""] {
        v.push(Reply { program: Some(program), ..Reply::text(format!("program `{program}`"), "") });
    }
    let outputs: Vec<(&str, Vec<u8>)> = vec![
        ("no output", vec![]),
        ("a newline", b"\n".to_vec()),
        ("sat", b"sat\n".to_vec()),
        ("unknown", b"unknown\n".to_vec()),
        ("unsat", b"unsat".to_vec()),
        ("unsat and a newline", b"unsat\n".to_vec()),
        ("unsat without newline", format!("unsat {good}").into_bytes()),
        ("proof", format!("unsat\n{good}").into_bytes()),
        ("proof after sat", format!("sat\n{good}").into_bytes()),
        ("proof after a blank line", format!("\nunsat\n{good}").into_bytes()),
        ("proof with carriage returns", format!("unsat\r\n{}", good.replace('\n', "\r\n")).into_bytes()),
        ("proof in parentheses", format!("unsat\n({good})").into_bytes()),
        ("proof and an error", format!("unsat\n{good}(error \"no\")\n").into_bytes()),
        ("an error", b"(error \"no\")\n".to_vec()),
        ("unsat and an error", b"unsat\n(error \"no\")\n".to_vec()),
        ("not text", vec![0xff, 0xfe, b'\n']),
        ("unsat and then not text", [b"unsat\n".as_slice(), &[0xff, 0xfe, 0]].concat()),
        ("much text", format!("unsat\n{}", "; nothing\n".repeat(100_000)).into_bytes()),
        ("proof after many comments", format!("unsat\n{}{good}", "; nothing\n".repeat(100_000)).into_bytes()),
    ];
    for (name, stdout) in outputs {
        for exit in ["exit 0", "exit 1", "exit 255", "kill -9 $$", "kill -TERM $$"] {
            for stderr in ["", "cvc5 interrupted by timeout.", "\\377\\376"] {
                for reads in [true, false] {
                    if stderr != "" && exit == "kill -TERM $$" {
                        continue;
                    }
                    v.push(Reply { name: format!("{name}, `{exit}`, stderr `{stderr}`, reads {reads}"), program: None, stdout: stdout.clone(), stderr, exit, reads });
                }
            }
        }
    }
    v
}

fn tokens(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = String::new();
    for c in text.chars() {
        if c.is_whitespace() || c == '(' || c == ')' {
            if !word.is_empty() {
                out.push(std::mem::take(&mut word));
            }
            if !c.is_whitespace() {
                out.push(c.to_string());
            }
        } else {
            word.push(c);
        }
    }
    out
}

/// Every fault of one position: cut off, or one token dropped, doubled or replaced.
fn broken(name: &str, proof: &str, thorough: bool) -> Vec<Reply> {
    let mut out = vec![];
    for n in 0..proof.len() {
        out.push(Reply::proof(format!("{name}, cut off after {n} bytes"), &proof[..n]));
    }
    let toks = tokens(proof);
    let mut words: Vec<&str> = vec!["(", ")", "not", "false", "a0", "e", "hole", "cl", "a", "0"];
    if thorough {
        let mut more: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
        more.sort();
        more.dedup();
        words.extend(more);
        words.extend(["resolution", "subproof", "x", "p", ":args", "Int", "1.5", "\"s\"", "@n", "magic"]);
        words.sort();
        words.dedup();
    }
    for i in 0..toks.len() {
        let mut edit = |what: String, new: &[&str]| {
            let t: Vec<&str> = toks[..i].iter().map(|s| s.as_str()).chain(new.iter().copied()).chain(toks[i + 1..].iter().map(|s| s.as_str())).collect();
            out.push(Reply::proof(format!("{name}, token {i} {what}"), &t.join(" ")));
        };
        edit("dropped".into(), &[]);
        edit("doubled".into(), &[&toks[i], &toks[i]]);
        for w in &words {
            if *w != toks[i] {
                edit(format!("`{}` is `{w}`", toks[i]), &[w]);
            }
        }
        if i + 1 < toks.len() {
            let mut t = toks.clone();
            t.swap(i, i + 1);
            out.push(Reply::proof(format!("{name}, tokens {i} and {} swapped", i + 1), &t.join(" ")));
        }
    }
    out
}

pub fn run(rep: &Report, thorough: bool) {
    let root = PathBuf::from(format!("/verif/work/solver.{}", std::process::id()));
    fs::create_dir_all(&root).unwrap();
    let next = AtomicUsize::new(0);
    let mut work: Vec<(Subject, &str, Reply)> = vec![];
    let all = subjects(thorough);
    for (i, s) in all.iter().enumerate() {
        for rule in ["lia_generic", "all_simplify", "rare_rewrite"] {
            if rule == "rare_rewrite" && s.name != "reflexivity" {
                continue;
            }
            let proofs = s.proofs();
            let good = proofs.iter().find(|p| p.0 == "direct").map_or("(step e (cl) :rule hole)\n", |p| p.1.as_str());
            let mut replies: Vec<Reply> = proofs.iter().map(|(n, p)| Reply::proof(*n, p)).collect();
            if i < 2 || thorough {
                replies.extend(faults(good));
            }
            let deep: &[&str] = if thorough {
                &["direct", "all assumptions", "clashing names", "used subproof", "end is used to end", "definition", "hole"]
            } else {
                &["direct", "used subproof"]
            };
            if [0, 1, 2].contains(&i) || thorough && i < 13 || s.place == Place::Last {
                for (n, p) in &proofs {
                    if deep.contains(n) && (i < 2 || *n == "direct" || thorough && i == 2) {
                        replies.extend(broken(n, p, thorough && i < 2));
                    }
                }
            }
            rep.add("solver behaviours", replies.len() as u64);
            work.extend(replies.into_iter().map(|r| (s.clone(), rule, r)));
        }
    }
    rep.add("steps that call a solver", all.len() as u64);
    let chunks: Vec<&[(Subject, &str, Reply)]> = work.chunks(16).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        let file = root.join(format!("reply{}", next.fetch_add(1, Ordering::Relaxed)));
        for (s, rule, reply) in chunk.iter() {
            fs::write(&file, &reply.stdout).unwrap();
            let pipes: &[&str] = if *rule == "lia_generic" { &["i", "pilurh"] } else { &["h", "pilurh"] };
            let pipes = if reply.name.contains("token") || reply.name.contains("cut off") { &pipes[..1] } else { pipes };
            for pipe in pipes {
                one(rep, &mut t, s, rule, reply, pipe, &file);
            }
        }
        let _ = fs::remove_file(&file);
        t.flush(rep);
    });
    fs::remove_dir_all(&root).unwrap();
}

const RARE: &str = "(declare-rare-rule same ((t U))\n :args (t)\n :premises ()\n :conclusion (= t t))\n";

fn one(rep: &Report, t: &mut Tally, s: &Subject, rule: &str, reply: &Reply, pipe: &str, file: &Path) {
    let key = format!("{rule} {} [{pipe}]: {}", s.key(), reply.name);
    let problem_text = s.problem();
    let rare = rule == "rare_rewrite";
    let rule_text = if rare { "rare_rewrite :args (\"same\" (f a))" } else { rule };
    let proof_text = s.proof(rule_text);
    // a binder is closed by any rule the checker knows
    let cfg = parser::Config { allow_int_real_subtyping: true, ..parser::Config::new() };
    let rules_text = if rare { Some(RARE.as_bytes()) } else { None };
    let parsed = guard(|| parser::parse_instance(problem_text.as_bytes(), proof_text.as_bytes(), rules_text, cfg));
    let (problem, proof, rules, pool) = match parsed {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => panic!("subject {} does not parse: {e}\n{proof_text}", s.key()),
        Err(e) => panic!("subject {}: {e}", s.key()),
    };
    let mut env = Env { pool, rules, prelude: problem.prelude.clone(), decls: problem_text.clone() };
    let checker = Config::new().ignore_unknown_rules(true);
    let before = check_proof_raw(&mut env, &problem, &proof, checker.clone());
    let was_valid = match before {
        CheckRes::Valid => true,
        CheckRes::Holey => false,
        CheckRes::Err(e) => panic!("subject {} is rejected: {e}\n{proof_text}", s.key()),
        CheckRes::Panic(e) => panic!("subject {}: {e}", s.key()),
    };
    assert!(was_valid == rare, "subject {}", s.key());
    let (program, arguments): (Box<str>, Vec<Box<str>>) = match reply.program {
        Some(p) => (p.into(), vec!["--proof".into()]),
        None => {
            let reads = if reply.reads { "cat > /dev/null; " } else { "" };
            let err = if reply.stderr.is_empty() { String::new() } else { format!("printf '{}' >&2; ", reply.stderr) };
            ("/bin/sh".into(), vec!["-c".into(), format!("{reads}cat {}; {err}{}", file.display(), reply.exit).into()])
        }
    };
    let config = elaborator::Config {
        lia_options: Some(LiaGenericOptions { solver: program.clone(), arguments: arguments.clone() }),
        hole_options: Some(HoleOptions { solver: program, arguments }),
        uncrowd_rotation: true,
    };
    t.inc("evaluations", 1);
    rep.case(|| key.to_string());
    t.distinct.insert(hash_of(&key));
    let commands = proof.commands.clone();
    let result = guard(|| {
        let forest = ProofNodeForest::from_commands(commands);
        Elaborator::new(&mut env.pool, &problem, config).elaborate(forest, pipe.chars().map(pass).collect()).into_commands()
    });
    let commands = match result {
        Ok(c) => c,
        Err(p) => {
            rep.violation(&format!("{} {key}", panic_site(&p)), &format!("elaboration panics: {p}"));
            return;
        }
    };
    let new = Proof { constant_definitions: proof.constant_definitions.clone(), commands };
    let calls = format!(":rule {rule}");
    let text = match print::print_proof(&mut env.pool, &problem.prelude, &new, false) {
        Ok(x) => x,
        Err(p) => {
            rep.violation(&key, &format!("printing the result panics: {p}"));
            return;
        }
    };
    if text.contains(&calls) {
        t.inc("left as it was", 1);
    } else {
        t.inc("replaced", 1);
    }
    let mut verdicts = vec![];
    let mut again = |who: &str, env: &mut Env, problem: &Problem, proof: &Proof| {
        match check_proof_raw(env, problem, proof, checker.clone()) {
            CheckRes::Valid => {
                if !s.valid {
                    rep.violation(&key, &format!("{who} is valid, but its clause is not:\n{text}"));
                }
                verdicts.push(true);
            }
            CheckRes::Holey => {
                if was_valid {
                    rep.violation(&key, &format!("{who} is holey, but the proof was not:\n{text}"));
                }
                verdicts.push(false);
            }
            CheckRes::Err(e) => rep.violation(&key, &format!("{who} is rejected: {e}\n{text}")),
            CheckRes::Panic(e) => rep.violation(&key, &format!("the checker panics on {who}: {e}\n{text}")),
        }
    };
    again("the result", &mut env, &problem, &new);
    // the conclusion is still derived, at its place
    let depth = if matches!(s.place, Place::Top | Place::Twice) { 0 } else { 1 };
    let target = find(&proof.commands, rule, 0).expect("the step");
    let times = if s.place == Place::Twice { 2 } else { 1 };
    if count(&new.commands, &target, depth, 0) < times {
        rep.violation(&key, &format!("the conclusion is not derived any more:\n{text}"));
    }
    if assumptions(&new.commands) != assumptions(&proof.commands) {
        rep.violation(&key, &format!("the assumptions of the proof changed:\n{text}"));
    }
    // and what is printed is that proof
    if new.commands != proof.commands {
        match print::read(&mut env.pool, cfg, &problem_text, &text) {
            Ok(Ok((problem, proof))) => again("what is printed", &mut env, &problem, &proof),
            Ok(Err(e)) | Err(e) => {
                rep.violation(&key, &format!("what is printed does not parse: {e}\n{text}"));
                return;
            }
        }
        if verdicts.len() == 2 && verdicts[0] != verdicts[1] {
            rep.violation(&key, &format!("the result and what is printed have different verdicts:\n{text}"));
        }
    }
}

fn find(commands: &[ProofCommand], rule: &str, _depth: usize) -> Option<Vec<T>> {
    commands.iter().find_map(|c| match c {
        ProofCommand::Step(s) if s.rule == rule => Some(s.clause.clone()),
        ProofCommand::Subproof(s) => find(&s.commands, rule, 0),
        _ => None,
    })
}

/// How often a clause is concluded at a depth.
fn count(commands: &[ProofCommand], clause: &[T], depth: usize, here: usize) -> usize {
    commands
        .iter()
        .map(|c| match c {
            ProofCommand::Step(s) => (here == depth && s.clause == clause) as usize,
            ProofCommand::Subproof(s) => count(&s.commands, clause, depth, here + 1),
            _ => 0,
        })
        .sum()
}

fn assumptions(commands: &[ProofCommand]) -> Vec<(String, T)> {
    let mut v: Vec<(String, T)> = commands
        .iter()
        .filter_map(|c| match c {
            ProofCommand::Assume { id, term } => Some((id.clone(), term.clone())),
            _ => None,
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
