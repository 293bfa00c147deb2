//! C24: whatever the strict modes accept, the normal modes accept with the same or a weaker
//! reservation. Every case is run through the real parser and checker in both modes.
use crate::core::*;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::T;
use carcara::ast::*;
use carcara::checker::Config;
use carcara::parser;
use std::collections::HashSet;

/// The strict and the normal form of one step.
fn compare(rep: &Report, env: &mut Env, s: &Spec, cfg: &Config, t: &mut Tally) {
    t.inc("evaluations", 1);
    let strict = check_spec(env, s, &cfg.clone().elaborated(true));
    if !strict.ok() {
        return;
    }
    t.inc("strictly_accepted", 1);
    t.distinct.insert(hash_of(&s.key()));
    match check_spec(env, s, &cfg.clone().elaborated(false)) {
        Out::Accept => {}
        Out::Reject(e) => rep.violation(&s.key(), &format!("accepted for elaborated proofs, rejected in the normal mode {e}")),
        Out::Panic(p) => rep.violation(&s.key(), &format!("accepted for elaborated proofs, the normal mode panics: {p}")),
    }
    // `strict_resolution` keeps clauses as lists; where no clause (also between two resolutions)
    // repeats a literal, this only makes it stricter than `resolution`
    let distinct = |c: &[T]| c.iter().enumerate().all(|(i, x)| !c[..i].contains(x));
    if s.rule == "strict_resolution" && s.premises.len() == 2 && distinct(&s.clause) && s.premises.iter().all(|p| distinct(p)) {
        for rule in ["resolution", "th_resolution"] {
            let mut n = s.clone();
            n.rule = rule.into();
            if let Out::Reject(x) = check_spec(env, &n, &cfg.clone().elaborated(false)) {
                rep.violation(&n.key(), &format!("accepted as strict_resolution, but not as {rule}: {x}"));
            }
        }
    }
}

fn families(rep: &Report, thorough: bool) {
    for fam in crate::families(thorough) {
        let items: Vec<usize> = (0..fam.insts.len()).collect();
        par(&items, |&i| {
            let mut env = Env::new(&fam.decls);
            let mut t = Tally::new();
            let s = fam.insts[i].spec(&mut env);
            let alpha = Alphabet::new(&mut env, &fam.fresh);
            let mut seen = HashSet::new();
            compare(rep, &mut env, &s, &fam.cfg, &mut t);
            let mut o = fam.opts;
            if !thorough {
                o.max_repl = 6;
            }
            let n1 = neighbors(&mut env, &s, &alpha, o);
            for n in &n1 {
                if seen.insert(hash_of(n)) {
                    compare(rep, &mut env, n, &fam.cfg, &mut t);
                }
            }
            if thorough && n1.len() <= 400 {
                o.max_repl = 5;
                for n in &n1 {
                    for m in neighbors(&mut env, n, &alpha, o) {
                        if seen.insert(hash_of(&m)) {
                            compare(rep, &mut env, &m, &fam.cfg, &mut t);
                        }
                    }
                }
            }
            t.flush(rep);
        });
    }
}

/// Every resolution step with arguments over a small literal alphabet.
fn resolution(rep: &Report, alpha: &[&'static str], n: usize, len: usize, clen: usize, ordered: bool) {
    use crate::clauses::{lists, subsets};
    let idx: Vec<usize> = (0..alpha.len()).collect();
    let cl = if ordered { lists(&idx, len) } else { subsets(&idx, len) };
    let concls = if ordered { lists(&idx, clen) } else { subsets(&idx, clen) };
    let mut one: Vec<(usize, usize)> = idx.iter().flat_map(|i| [(*i, 1), (*i, 0)]).collect();
    one.push((0, 2)); // not a Boolean constant
    let firsts: Vec<usize> = (0..cl.len()).collect();
    par(&firsts, |&f| {
        let mut env = Env::new("(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)");
        let ls = env.terms(alpha);
        let bs = env.terms(&["false", "true", "q"]);
        let mut t = Tally::new();
        let mut sel = vec![0usize; n - 1];
        loop {
            let mut prem = vec![f];
            prem.extend(&sel);
            let premises: Vec<Vec<T>> = prem.iter().map(|p| cl[*p].iter().map(|l| ls[*l].clone()).collect()).collect();
            let mut piv = vec![0usize; n - 1];
            'p: loop {
                let args: Vec<T> = piv.iter().flat_map(|p| [ls[one[*p].0].clone(), bs[one[*p].1].clone()]).collect();
                for c in &concls {
                    for rule in ["resolution", "strict_resolution"] {
                        let s = Spec {
                            rule: rule.into(),
                            premises: premises.clone(),
                            clause: c.iter().map(|l| ls[*l].clone()).collect(),
                            args: args.clone(),
                        };
                        compare(rep, &mut env, &s, &Config::new(), &mut t);
                    }
                }
                for k in 0..piv.len() {
                    piv[k] += 1;
                    if piv[k] < one.len() {
                        continue 'p;
                    }
                    piv[k] = 0;
                }
                break;
            }
            // arguments of a wrong number
            for args in [vec![], vec![ls[0].clone()], [vec![ls[0].clone(), bs[1].clone()], vec![ls[0].clone(), bs[1].clone()]].concat()] {
                for c in &concls {
                    let s = Spec {
                        rule: "th_resolution".into(),
                        premises: premises.clone(),
                        clause: c.iter().map(|l| ls[*l].clone()).collect(),
                        args: args.clone(),
                    };
                    compare(rep, &mut env, &s, &Config::new(), &mut t);
                }
            }
            let mut k = 0;
            loop {
                if k == sel.len() {
                    t.flush(rep);
                    return;
                }
                sel[k] += 1;
                if sel[k] < cl.len() {
                    break;
                }
                sel[k] = 0;
                k += 1;
            }
        }
    });
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Valid,
    Holey,
    Invalid(String),
}

fn verdict(problem: &str, proof: &str, pcfg: parser::Config, cfg: Config) -> V {
    match guard(|| carcara::check(problem.as_bytes(), proof.as_bytes(), None, pcfg, cfg, false)) {
        Ok(Ok(false)) => V::Valid,
        Ok(Ok(true)) => V::Holey,
        Ok(Err(carcara::Error::DoesNotReachEmptyClause)) => V::Invalid("no empty clause".into()),
        Ok(Err(e)) => V::Invalid(e.to_string()),
        Err(p) => V::Invalid(format!("PANIC {p}")),
    }
}

fn pcfg(strict: bool, lets: bool) -> parser::Config {
    let mut c = parser::Config::new();
    c.strict = strict;
    c.expand_lets = lets;
    c
}

/// A whole proof text, under the four combinations of strict parsing and strict checking.
pub fn proof(rep: &Report, t: &mut Tally, problem: &str, text: &str, cfg: &Config) {
    t.inc("evaluations", 1);
    let v = |ps: bool, cs: bool| verdict(problem, text, pcfg(ps, false), cfg.clone().elaborated(cs));
    let normal = v(false, false);
    for (ps, cs) in [(true, false), (false, true), (true, true)] {
        let s = v(ps, cs);
        let ok = match (&s, &normal) {
            (V::Invalid(_), _) => true,
            (V::Valid, V::Valid) | (V::Holey, V::Valid | V::Holey) => true,
            _ => false,
        };
        if !matches!(s, V::Invalid(_)) {
            t.inc("strictly_accepted", 1);
            t.distinct.insert(hash_of(&text));
        }
        if !ok {
            rep.violation(
                &format!("{} | {}", problem, text.trim().replace('\n', " ")),
                &format!("{}{} gives {s:?}, normal checking {normal:?}", if ps { "strict parsing " } else { "" }, if cs { "strict checking" } else { "" }),
            );
        }
    }
    if normal == V::Valid {
        t.inc("normally_accepted", 1);
    }
}

fn dump(cmds: &[ProofCommand], out: &mut String) {
    use crate::sem::show;
    let l = |ts: &[T]| ts.iter().map(|t| show(t)).collect::<Vec<_>>().join(" ");
    for c in cmds {
        match c {
            ProofCommand::Assume { id, term } => *out += &format!("assume {id} {}\n", show(term)),
            ProofCommand::Step(s) => {
                *out += &format!("step {} [{}] {} {:?} [{}] {:?}\n", s.id, l(&s.clause), s.rule, s.premises, l(&s.args), s.discharge)
            }
            ProofCommand::Subproof(s) => {
                *out += &format!("anchor {:?}\n", s.args.iter().map(|a| match a {
                    AnchorArg::Variable(v) => format!("{} {}", v.0, show(&v.1)),
                    AnchorArg::Assign(v, x) => format!("{} {} := {}", v.0, show(&v.1), show(x)),
                }).collect::<Vec<_>>());
                dump(&s.commands, out);
                *out += "end\n";
            }
        }
    }
}
fn parsed(problem: &str, text: &str, c: parser::Config) -> Result<String, String> {
    match guard(|| {
        parser::parse_instance(problem.as_bytes(), text.as_bytes(), None, c).map(|(problem, proof, ..)| {
            let mut s = format!("{:?}\n", problem.premises.iter().map(|t| crate::sem::show(t)).collect::<Vec<_>>());
            dump(&proof.commands, &mut s);
            s
        })
    }) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("PANIC {p}")),
    }
}

/// What the strict parser accepts, the normal parser reads in the same way.
fn parse_both(rep: &Report, t: &mut Tally, problem: &str, text: &str) {
    for lets in [false, true] {
        t.inc("parsed_in_both_modes", 1);
        let s = parsed(problem, text, pcfg(true, lets));
        let Ok(s) = s else { continue };
        t.inc("strictly_parsed", 1);
        let n = parsed(problem, text, pcfg(false, lets));
        if n.as_ref() != Ok(&s) {
            rep.violation(
                &format!("{} | {}", problem, text.trim().replace('\n', " ")),
                &format!("the strict parser reads\n{s}the normal parser {n:?}"),
            );
        }
    }
}

const DECLS: &str = "(set-logic ALL)(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-const x U)(declare-const y U)\
(declare-const p Bool)(declare-const q Bool)(declare-fun P (U) Bool)(declare-fun R (U U) Bool)";

fn terms() -> Vec<&'static str> {
    vec![
        "p", "(not p)", "(not (not p))", "(= a b)", "(= b a)", "(not (= a b))", "(not (= b a))", "(and p)", "(or p)", "(xor p)",
        "(and p q)", "(and q p)", "(and p p)", "(and p (and q p))", "(and (and p q) p)", "(and p q p)", "(or p (or q p))", "(or p q p)",
        "(and p (or q))", "(=> p q)", "(=> p q p)", "(=> p (=> q p))", "(R a b)", "(R b a)", "(= (R a b) p)", "(= p (R a b))",
        "(forall ((x U)) (P x))", "(forall ((y U)) (P y))", "(exists ((x U)) (= x a))", "(exists ((x U)) (= a x))",
        "(distinct a b)", "(distinct b a)", "(let ((z p)) (and z q))", "(and (let ((z p)) z) q)", "(! p :named foo)", "(ite p q p)",
    ]
}

fn assumes(rep: &Report) {
    let ts = terms();
    par(&ts, |a| {
        let mut t = Tally::new();
        for b in &ts {
            for neg in [false, true] {
                let problem = if neg { format!("{DECLS}(assert (not {a}))(check-sat)") } else { format!("{DECLS}(assert {a})(check-sat)") };
                let b2 = if neg { format!("(not {b})") } else { b.to_string() };
                let text = format!("(assume h {b2})\n(step z (cl) :rule hole)\n");
                proof(rep, &mut t, &problem, &text, &Config::new());
                parse_both(rep, &mut t, &problem, &text);
            }
            // one true assumption among several, and refl over the pair
            let problem = format!("{DECLS}(assert {a})(assert q)(check-sat)");
            proof(rep, &mut t, &problem, &format!("(assume g q)\n(assume h {b})\n(step z (cl) :rule hole)\n"), &Config::new());
            let text = format!("(step s (cl (= {a} {b})) :rule refl)\n(step z (cl) :rule hole)\n");
            proof(rep, &mut t, &problem, &text, &Config::new());
            parse_both(rep, &mut t, &problem, &text);
        }
        t.flush(rep);
    });
}

const ARGS: [&str; 12] = [
    "(x U)", "(y U)", "(:= (x U) a)", "(:= (x U) y)", "(:= (x U) x)", "(:= (y U) x)", "(:= x a)", "(:= x y)", "(:= y x)", "(:= y (f x))", "(:= z a)", "(:= (x U) p)",
];
const BODIES: [&str; 9] = [
    "(P x)", "(P y)", "(P a)", "(R x y)", "(R y x)", "(R a y)", "(= x y)", "(= y x)", "(forall ((x U)) (R x y))",
];

fn contexts(rep: &Report, thorough: bool) {
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    for a in ARGS {
        lists.push(vec![a]);
        for b in ARGS {
            if a != b {
                lists.push(vec![a, b]);
            }
        }
    }
    let problem = format!("{DECLS}(declare-fun f (U) U)(assert (= a b))(check-sat)");
    par(&lists, |args| {
        let mut t = Tally::new();
        let anchor = |id: &str, args: &[&str]| {
            if args.is_empty() { format!("(anchor :step {id})\n") } else { format!("(anchor :step {id} :args ({}))\n", args.join(" ")) }
        };
        for l in BODIES {
            for r in BODIES {
                let head = format!("{}(step e.s (cl (= {l} {r})) :rule refl)\n", anchor("e", args));
                for close in [
                    format!("(step e (cl (= (forall ((x U)) {l}) (forall ((y U)) {r}))) :rule bind)\n"),
                    format!("(step e (cl (= (let ((x a)) {l}) {r})) :rule let)\n"),
                    "(step e (cl) :rule hole)\n".to_string(),
                ] {
                    let text = format!("{head}{close}(step z (cl) :rule hole)\n");
                    proof(rep, &mut t, &problem, &text, &Config::new());
                }
                parse_both(rep, &mut t, &problem, &format!("{head}(step e (cl) :rule hole)\n"));
                // a second context inside
                let inner: &[&str] = if thorough { &ARGS } else { &ARGS[..8] };
                if args.len() == 1 {
                    for i in inner {
                        let text = format!(
                            "{}{}(step e.f.s (cl (= {l} {r})) :rule refl)\n(step e.f (cl) :rule hole)\n(step e.t (cl (= {l} {r})) :rule refl)\n(step e (cl) :rule hole)\n",
                            anchor("e", args),
                            anchor("e.f", &[i])
                        );
                        proof(rep, &mut t, &problem, &text, &Config::new());
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// The canonical steps of every rule as text, also with one operator reduced to a single argument.
fn texts(rep: &Report, thorough: bool) {
    for fam in crate::families(thorough) {
        let problem = format!("(set-logic ALL){}", fam.decls.replace("(set-logic ALL)", ""));
        par(&fam.insts, |i| {
            let mut t = Tally::new();
            let mut s = String::new();
            let mut ids = vec![];
            for (k, p) in i.premises.iter().enumerate() {
                s += &format!("(step h{k} (cl {}) :rule hole)\n", p.join(" "));
                ids.push(format!("h{k}"));
            }
            s += &format!("(step t (cl {}) :rule {}", i.clause.join(" "), i.rule);
            if !ids.is_empty() {
                s += &format!(" :premises ({})", ids.join(" "));
            }
            if !i.args.is_empty() {
                s += &format!(" :args ({})", i.args.join(" "));
            }
            s += ")\n(step z (cl) :rule hole)\n";
            proof(rep, &mut t, &problem, &s, &fam.cfg);
            parse_both(rep, &mut t, &problem, &s);
            for (at, _) in s.match_indices('(') {
                for op in ["(and ", "(or ", "(xor "] {
                    if !s[at..].starts_with(op) {
                        continue;
                    }
                    if let Some(x) = unary(&s, at, op.len()) {
                        proof(rep, &mut t, &problem, &x, &fam.cfg);
                        parse_both(rep, &mut t, &problem, &x);
                    }
                }
            }
            t.flush(rep);
        });
    }
}

/// Drops all arguments but the first of the application that starts at `at`.
fn unary(s: &str, at: usize, op: usize) -> Option<String> {
    let b = s.as_bytes();
    let (mut i, mut depth) = (at + op, 0i32);
    let mut first = None;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' if depth == 0 => {
                return first.map(|f| format!("{}{}", &s[..f], &s[i..]));
            }
            b')' => depth -= 1,
            b' ' if depth == 0 && first.is_none() => first = Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

pub fn run(rep: &Report, thorough: bool) {
    rep.sample("(step s (cl (= (= a b) (= b a))) :rule refl) under strict and normal parsing and checking");
    families(rep, thorough);
    resolution(rep, &["p", "(not p)", "(not (not p))", "q", "(not q)"], 2, 2, 2, true);
    resolution(rep, &["p", "(not p)", "q", "(not q)"], 3, if thorough { 2 } else { 1 }, if thorough { 2 } else { 1 }, !thorough);
    if thorough {
        resolution(rep, &["p", "(not p)", "(not (not p))"], 3, 2, 1, true);
    }
    assumes(rep);
    contexts(rep, thorough);
    texts(rep, thorough);
    crate::structure::both_modes(rep, thorough);
}
