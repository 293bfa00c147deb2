//! C17: printing and parsing are inverse. Every proof of small grammars is parsed, printed with and
//! without sharing, and parsed again; the result must be the same proof.
use crate::core::*;
use crate::parse::{all_terms, literal_words, tuples, ATOMS, INDEXED, NAMES, OPS, SORTED};
use crate::rules::{Inst, Tally};
use carcara::ast::*;
use carcara::parser::{Config, Parser};

pub type Read = (Problem, Proof);

pub fn read(pool: &mut PrimitivePool, cfg: Config, problem: &str, proof: &str) -> Result<Result<Read, String>, String> {
    guard(|| {
        let mut p = Parser::new(pool, cfg, problem.as_bytes()).map_err(|e| e.to_string())?;
        let problem = p.parse_problem().map_err(|e| e.to_string())?;
        p.reset(proof.as_bytes()).map_err(|e| e.to_string())?;
        Ok((problem, p.parse_proof().map_err(|e| e.to_string())?))
    })
}

pub fn print(pool: &mut PrimitivePool, r: &Read, sharing: bool) -> Result<String, String> {
    print_proof(pool, &r.0.prelude, &r.1, sharing)
}

pub fn print_proof(pool: &mut PrimitivePool, prelude: &ProblemPrelude, proof: &Proof, sharing: bool) -> Result<String, String> {
    guard(|| {
        let mut buf = Vec::new();
        write_proof_to_dest(pool, prelude, proof, &mut buf, sharing).unwrap();
        String::from_utf8(buf).expect("printed text is UTF-8")
    })
}

/// No text denotes a variable in the scope of a binder of the same name at another sort, as names
/// are resolved without their sorts. Such terms come only from expanding definitions and lets.
fn has_text(pool: &mut PrimitivePool, commands: &[ProofCommand], bound: &mut Vec<(String, Rc<Term>)>) -> bool {
    fn term(pool: &mut PrimitivePool, t: &Rc<Term>, bound: &mut Vec<(String, Rc<Term>)>) -> bool {
        match t.as_ref() {
            Term::Var(x, s) => bound.iter().rev().find(|b| b.0 == *x).is_none_or(|b| b.1 == *s),
            Term::App(f, args) => term(pool, f, bound) && args.iter().all(|a| term(pool, a, bound)),
            Term::Op(_, args) => args.iter().all(|a| term(pool, a, bound)),
            Term::ParamOp { op_args, args, .. } => op_args.iter().chain(args).all(|a| term(pool, a, bound)),
            Term::Binder(_, b, body) => {
                let n = bound.len();
                bound.extend(b.iter().cloned());
                let r = term(pool, body, bound);
                bound.truncate(n);
                r
            }
            Term::Let(b, body) => {
                if !b.iter().all(|(_, v)| term(pool, v, bound)) {
                    return false;
                }
                let n = bound.len();
                bound.extend(b.iter().map(|(x, v)| (x.clone(), pool.sort(v))));
                let r = term(pool, body, bound);
                bound.truncate(n);
                r
            }
            Term::Const(_) | Term::Sort(_) => true,
        }
    }
    commands.iter().all(|c| match c {
        ProofCommand::Assume { term: t, .. } => term(pool, t, bound),
        ProofCommand::Step(s) => s.clause.iter().chain(&s.args).all(|t| term(pool, t, bound)),
        ProofCommand::Subproof(s) => {
            let n = bound.len();
            let mut ok = true;
            for a in &s.args {
                match a {
                    AnchorArg::Variable(v) => bound.push(v.clone()),
                    AnchorArg::Assign(v, t) => {
                        ok &= term(pool, t, bound);
                        bound.push(v.clone());
                    }
                }
            }
            ok &= has_text(pool, &s.commands, bound);
            bound.truncate(n);
            ok
        }
    })
}

/// Parses, prints and parses again.
pub fn round(rep: &Report, t: &mut Tally, cfg: Config, problem: &str, proof: &str) {
    t.inc("evaluations", 1);
    rep.case(|| format!("{problem} | {proof}"));
    let mut pool = PrimitivePool::new();
    let first = match read(&mut pool, cfg, problem, proof) {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => return t.inc("not_a_proof", 1),
        Err(_) => return t.inc("parser_panics", 1), // C18, C19
    };
    t.distinct.insert(hash_of(&(problem, proof)));
    if !has_text(&mut pool, &first.1.commands, &mut Vec::new()) {
        return t.inc("without_text", 1);
    }
    let key = |s: bool| format!("{} | {}{}", problem, proof.trim(), if s { " [sharing]" } else { "" });
    for sharing in [false, true] {
        let text = match print(&mut pool, &first, sharing) {
            Ok(x) => x,
            Err(p) => {
                rep.violation(&key(sharing), &format!("printing panics: {p}"));
                continue;
            }
        };
        let second = match read(&mut pool, cfg, problem, &text) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => {
                rep.violation(&key(sharing), &format!("is printed as\n{text}which does not parse: {e}"));
                continue;
            }
            Err(p) => {
                rep.violation(&key(sharing), &format!("is printed as\n{text}which makes the parser panic: {p}"));
                continue;
            }
        };
        if second.1.commands != first.1.commands {
            rep.violation(&key(sharing), &format!("is printed as\n{text}which is another proof"));
            continue;
        }
        if second.1.constant_definitions != first.1.constant_definitions {
            rep.violation(&key(sharing), &format!("is printed as\n{text}which has other definitions"));
            continue;
        }
        // in a pool of its own, where nothing is shared yet
        let mut other = PrimitivePool::new();
        match read(&mut other, cfg, problem, &text) {
            Ok(Ok(r)) => match print(&mut other, &r, false) {
                Ok(again) => {
                    if let Ok(plain) = print(&mut pool, &first, false) {
                        if again != plain {
                            rep.violation(&key(sharing), &format!("is printed as\n{text}and then as\n{again}"));
                        }
                    }
                }
                Err(p) => rep.violation(&key(sharing), &format!("is printed as\n{text}and printing that panics: {p}")),
            },
            e => rep.violation(&key(sharing), &format!("is printed as\n{text}which does not parse in another pool: {:?}", e.map(|r| r.err()))),
        }
        t.inc("round_trips", 1);
    }
}

// ------------------------------------------------------------------------------------------------

pub fn symbols(thorough: bool) -> Vec<String> {
    let chars = [
        'a', 'Z', '0', '9', '-', '+', '.', '@', ':', ';', ' ', '"', '(', ')', '#', '\n', '/', '!', '_', 'é', '$', '=', '~', '\'', ',', '{', '\t',
    ];
    let mut out: Vec<String> = vec![String::new()];
    for n in 1..=if thorough { 3 } else { 2 } {
        out.extend(tuples(&chars, n).into_iter().map(|v| v.into_iter().collect::<String>()));
    }
    out.extend(
        [
            "anchor", "assume", "assert", "as", "choice", "cl", "define-fun", "exists", "forall", "lambda", "let", "step", "unsat", "par", "declare-fun",
            "set-logic", "define-sort", "!", "_", "and", "not", "true", "false", "=", "cl", "eo", "eo::define", "eo::", "const", "bv1", "#b1", "#xF", "@p_0", "@p_1",
            "p_0", "-5", "-0", "--1", "-1.5", "-1/2", "1a", "BitVec", "Bool", "Int", "Array", "Type", "extract", "@bbterm", "rare-list", "delete", "hole", "+1", "==>", "ite", "distinct",
            "named", ":named", "pattern", "declare-const", "Real", "String", "RegLan", "Func", "->", "NUMERAL", "t1", "@x'", "x'", "x''",
        ]
        .map(String::from),
    );
    out.sort();
    out.dedup();
    out
}

fn names(rep: &Report, thorough: bool) {
    let all = symbols(thorough);
    rep.sample("(step |a b| (cl (= |-5| c)) :rule |let| :premises (|;|)) for every symbol in every position");
    par(&all, |s| {
        let mut t = Tally::new();
        let q = format!("|{s}|");
        let base = "(declare-sort U 0)(declare-const c U)(declare-const d U)(declare-fun f (U) U)(declare-fun p (U) Bool)(declare-const b Bool)";
        let texts: Vec<(String, String)> = vec![
            (format!("(declare-const {q} U)"), format!("(step t1 (cl (= {q} c)) :rule r :args ({q} (f {q})))")),
            (format!("(declare-fun {q} (U) U)"), format!("(step t1 (cl (= ({q} c) ({q} ({q} d)))) :rule r)")),
            (format!("(declare-fun {q} (U U) Bool)"), format!("(step t1 (cl ({q} c d) (not ({q} c d)) ({q} c d)) :rule r)")),
            (format!("(declare-sort {q} 0)(declare-const e {q})"), format!("(step t1 (cl (forall ((x {q})) (= x e))) :rule r)")),
            (format!("(declare-sort {q} 1)(declare-const e ({q} U))"), format!("(anchor :step t1 :args ((x ({q} U)) (:= (y ({q} U)) e)))(step t1.t1 (cl (= x e)) :rule r)(step t1 (cl) :rule hole)")),
            (String::new(), format!("(step t1 (cl (forall (({q} U)) (p (f {q})))) :rule r)")),
            (String::new(), format!("(step t1 (cl (forall (({q} Bool) (y U)) (or (p y) {q}))) :rule r)")),
            (String::new(), format!("(step t1 (cl (= c (choice (({q} U)) (p {q})))) :rule r)")),
            (String::new(), format!("(step t1 (cl (let (({q} c) (y d)) (p {q}))) :rule r)")),
            (String::new(), format!("(step t1 (cl (let (({q} (f c))) (and (p {q}) (p {q})))) :rule r)")),
            (String::new(), format!("(step {q} (cl b) :rule r)(step t2 (cl) :rule r :premises ({q}))(step t3 (cl) :rule r :premises (t2 {q} t2))")),
            (String::new(), format!("(assume {q} b)(step t2 (cl) :rule r :premises ({q}))")),
            (String::new(), format!("(anchor :step {q} :args ((x U)))(step i (cl b) :rule r)(step {q} (cl) :rule r)(step t2 (cl) :rule r :premises ({q}))")),
            (String::new(), format!("(anchor :step t1)(assume {q} b)(step i (cl b) :rule r)(step t1 (cl (not b)) :rule subproof :discharge ({q}))")),
            (String::new(), format!("(anchor :step t1)(assume h b)(assume {q} b)(step i (cl b) :rule r)(step t1 (cl (not b)) :rule subproof :discharge (h {q}))")),
            (String::new(), format!("(anchor :step t1)(assume t1.{} b)(step i (cl b) :rule r)(step t1 (cl (not b)) :rule subproof :discharge ({q}))", if s.chars().all(|c| c.is_ascii_alphanumeric()) { s.as_str() } else { "x" })),
            (String::new(), format!("(step t1 (cl b) :rule {q} :args (c))")),
            (String::new(), format!("(anchor :step t1 :args (({q} U)))(step i (cl (p {q})) :rule r)(step t1 (cl) :rule r)")),
            (String::new(), format!("(anchor :step t1 :args ((:= ({q} U) (f c))))(step i (cl (p {q})) :rule r)(step t1 (cl) :rule r)")),
            (String::new(), format!("(define-fun {q} () U (f c))(step t1 (cl (= {q} (f {q})) (p (f c))) :rule r)")),
            (String::new(), format!("(define-fun {q} ((x U)) U (f x))(step t1 (cl (= ({q} c) (f c))) :rule r)")),
            (String::new(), format!("(step t1 (cl (! (p c) :named {q}) (not {q})) :rule r :args ((f c) (f c)))")),
        ];
        for (d, x) in texts {
            for cfg in [Config::new(), Config { expand_lets: true, ..Config::new() }] {
                if cfg.expand_lets && !x.contains("(let (") {
                    continue;
                }
                round(rep, &mut t, cfg, &format!("{base}{d}"), &format!("{x}\n"));
            }
        }
        t.flush(rep);
    });
}

/// Applications of every operator, and operators under operators.
fn terms(rep: &Report, thorough: bool) {
    let mut heads: Vec<String> = OPS.iter().map(|s| s.to_string()).collect();
    for (op, n) in INDEXED {
        for ix in tuples(&["0", "1", "2"], *n) {
            heads.push(format!("(_ {op} {})", ix.join(" ")));
        }
    }
    for s in ["(Array Int U)", "(Array U Int)", "(Array Int Bool)"] {
        heads.push(format!("(as const {s})"));
    }
    heads.extend(["cl", "rare-list", "@bbterm", "@pbbterm"].map(String::from));
    // one level
    let mut level: Vec<String> = vec![];
    let mut pool = PrimitivePool::new();
    let cfg = Config::new();
    let mut ps = Parser::new(&mut pool, cfg, SORTED.as_bytes()).unwrap();
    ps.parse_problem().unwrap();
    let extra = ["(- 7)", "0.5", "(- 0.5)", "\"a\"", "#b01", "(_ bv2 3)", "true", "re.none", "re.all", "re.allchar", "-7", "-1/2", "1/3", "\"\"\"\"", "\"\\u{61}\""];
    let atoms: Vec<&str> = ATOMS.iter().copied().chain(extra).collect();
    let mut try_parse = |x: &str| {
        let b: &'static [u8] = Box::leak(x.to_string().into_bytes().into_boxed_slice());
        guard(|| ps.reset(b).is_ok() && ps.parse_term().is_ok()).unwrap_or(false)
    };
    level.extend(atoms.iter().filter(|x| try_parse(x)).map(|x| x.to_string()));
    for h in &heads {
        for n in 0..=3 {
            let mut kept = 0;
            let cands: Vec<Vec<&str>> = if n < 3 {
                tuples(&atoms, n)
            } else {
                tuples(&["b", "i", "u", "s", "ar", "v2"], 3)
            };
            for a in cands {
                let x = if n == 0 { if h.starts_with('(') { h.clone() } else { format!("({h})") } } else { format!("({h} {})", a.join(" ")) };
                if try_parse(&x) {
                    level.push(x);
                    kept += 1;
                    if kept >= if thorough { 200 } else { 30 } {
                        break;
                    }
                }
            }
        }
    }
    // two levels: every term of the first in the first and last position of some application
    let mut deep = vec![];
    for h in &heads {
        for x in level.iter().step_by(if thorough { 1 } else { 7 }) {
            for c in [format!("({h} {x})"), format!("({h} {x} {x})"), format!("({h} {x} i)"), format!("({h} ar {x})"), format!("({h} b {x} {x})")] {
                if try_parse(&c) {
                    deep.push(c);
                }
            }
        }
    }
    rep.add("applications", (level.len() + deep.len()) as u64);
    let lits: Vec<String> = literal_words(if thorough { 5 } else { 4 });
    let all: Vec<String> = level.into_iter().chain(deep).chain(lits).collect();
    let chunks: Vec<&[String]> = all.chunks(all.len().div_ceil(256)).collect();
    par(&chunks, |ch| {
        let mut t = Tally::new();
        for x in ch.iter() {
            round(rep, &mut t, cfg, SORTED, &format!("(step t1 (cl) :rule r :args ({x}))\n"));
            round(rep, &mut t, cfg, SORTED, &format!("(step t1 (cl (= {x} {x})) :rule r :args ({x}))\n(step t2 (cl (not (= {x} {x})) b) :rule r :args ((= {x} {x})))\n"));
        }
        t.flush(rep);
    });
}

/// Binders, lets and definitions, together with definitions in the proof and repeated terms.
fn binders(rep: &Report, thorough: bool) {
    let (us, bs) = all_terms(if thorough { 5 } else { 4 });
    rep.sample(bs[bs.len() / 2].clone());
    let all: Vec<(bool, String)> = us.into_iter().map(|x| (false, x)).chain(bs.into_iter().map(|x| (true, x))).collect();
    let chunks: Vec<&[(bool, String)]> = all.chunks(all.len().div_ceil(256)).collect();
    let defs = ["", "(define-fun d () U (f x))", "(define-fun d () U x)", "(define-fun @p_0 () U (f x))", "(define-fun @p_1 () U (f x))", "(define-fun @p_2 () U (f (f x)))(define-fun @p_0 () Bool (p x))", "(define-fun d () U (f x))(define-fun e () U (f d))", "(define-fun d () Bool (p x))(define-fun x2 () Bool (p x))", "(define-fun x () U (f y))"];
    par(&chunks, |ch| {
        let mut t = Tally::new();
        for (formula, x) in ch.iter() {
            let cl = if *formula { x.clone() } else { format!("(= {x} x)") };
            for cfg in [
                Config::new(),
                Config { apply_function_defs: true, ..Config::new() },
                Config { expand_lets: true, ..Config::new() },
            ] {
                round(rep, &mut t, cfg, NAMES, &format!("(step t1 (cl {cl} (not {cl})) :rule r :args ({x}))\n"));
                round(rep, &mut t, cfg, NAMES, &format!("(anchor :step t1 :args ((x U) (:= (y U) x)))(step t1.t1 (cl {cl} (not {cl})) :rule r :args ({x}))(step t1 (cl {cl}) :rule r)(step t2 (cl {cl}) :rule r :premises (t1))\n"));
            }
            for d in defs {
                round(rep, &mut t, Config::new(), NAMES, &format!("{d}(step t1 (cl {cl} (= (f x) (f (f x))) (p x) (not {cl})) :rule r)\n(step t2 (cl {cl} (forall ((x U)) (p (f x)))) :rule r)\n"));
            }
        }
        t.flush(rep);
    });
}

pub fn inst_text(i: &Inst) -> String {
    let mut s = String::new();
    for (k, p) in i.premises.iter().enumerate() {
        s += &format!("(step p{k} (cl {}) :rule hole)\n", p.join(" "));
    }
    s += &format!("(step t (cl {}) :rule {}", i.clause.join(" "), i.rule);
    if !i.premises.is_empty() {
        s += &format!(" :premises ({})", (0..i.premises.len()).map(|k| format!("p{k}")).collect::<Vec<_>>().join(" "));
    }
    if !i.args.is_empty() {
        s += &format!(" :args ({})", i.args.join(" "));
    }
    s + ")\n"
}

fn families(rep: &Report, thorough: bool) {
    let fams = crate::families(thorough);
    par(&fams, |f| {
        let mut t = Tally::new();
        for i in &f.insts {
            let x = inst_text(i);
            round(rep, &mut t, Config::new(), &f.decls, &x);
let nested = format!("(anchor :step s)\n(assume s.h false)\n{x}(step s (cl true) :rule subproof :discharge (s.h))\n");
            round(rep, &mut t, Config::new(), &f.decls, &nested);
        }
        t.flush(rep);
    });
}

pub fn run(rep: &Report, thorough: bool) {
    names(rep, thorough);
    terms(rep, thorough);
    binders(rep, thorough);
    families(rep, thorough);
    crate::structure::each_text(rep, if thorough { 5 } else { 4 }, |t, problem, text, _| round(rep, t, Config::new(), problem, text));
}
