//! C19: texts. Every edit of one token (or one byte) of a corpus of problems, proofs and rule files
//! that uses every rule and every piece of syntax is parsed and checked; whatever happens, it must end
//! with a verdict or an error, and the error must have a text.
use crate::core::*;
use crate::rules::{panic_site, Tally};
use carcara::checker::{Config, ProofChecker};
use carcara::parser;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
struct Text {
    name: String,
    problem: Vec<u8>,
    proof: Vec<u8>,
    rules: Option<Vec<u8>>,
}

fn run_one(x: &Text, cfg: parser::Config, elaborated: bool) -> Result<String, String> {
    guard(|| {
        let (problem, proof, rules, mut pool) =
            match parser::parse_instance(x.problem.as_slice(), x.proof.as_slice(), x.rules.as_deref(), cfg) {
                Ok(r) => r,
                Err(e) => return format!("{e} {e:?}"),
            };
        let c = Config::new().ignore_unknown_rules(true).elaborated(elaborated);
        match ProofChecker::new(&mut pool, &rules, c).check(&problem, &proof) {
            Ok(holey) => format!("accepted {holey}"),
            Err(e) => format!("{e} {e:?}"),
        }
    })
}

/// The texts that are being run, and since when.
static RUNNING: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(vec![]);

/// Runs `f` while watching that no text takes more than a minute, or all the memory.
fn watched(rep: &Report, f: impl FnOnce()) {
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0);
                let running = RUNNING.lock().unwrap();
                let oldest = running.iter().flatten().min_by_key(|r| r.0);
                if let Some((since, text)) = oldest {
                    let s = since.elapsed().as_secs_f64();
                    if s > 60.0 || pages * 4096 > 12 << 30 {
                        rep.violation(text, &format!("still running after {s:.0} s, {} MB in use", pages >> 8));
                        std::process::exit(rep.finish());
                    }
                }
            }
        });
        f();
        done.store(true, Ordering::Relaxed);
    });
}

fn watch(text: String) -> usize {
    let mut running = RUNNING.lock().unwrap();
    let i = running.iter().position(|r| r.is_none()).unwrap_or(running.len());
    if i == running.len() {
        running.push(None);
    }
    running[i] = Some((Instant::now(), text));
    i
}

fn one(rep: &Report, t: &mut Tally, x: &Text, modes: &[(parser::Config, bool)]) {
    for (cfg, elaborated) in modes {
        t.inc("evaluations", 1);
        let show = || {
            let rules = x.rules.as_ref().map(|r| format!(" | {}", String::from_utf8_lossy(r))).unwrap_or_default();
            format!("{}: {} | {}{rules}", x.name, String::from_utf8_lossy(&x.problem), String::from_utf8_lossy(&x.proof))
        };
        rep.case(show);
        let slot = watch(show());
        let result = run_one(x, *cfg, *elaborated);
        RUNNING.lock().unwrap()[slot] = None;
        match result {
            Ok(r) if r.starts_with("accepted") => t.inc("texts accepted", 1),
            Ok(_) => t.inc("texts rejected", 1),
            Err(p) => rep.violation(&panic_site(&p), &format!("panic ({p}) on {}", show())),
        }
    }
}

/// Splits a text into tokens, with the white space before each.
fn tokens(text: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        let end = match c {
            b'(' | b')' => i + 1,
            b'|' | b'"' => text[i + 1..].iter().position(|d| *d == c).map_or(text.len(), |n| i + n + 2),
            b';' => text[i..].iter().position(|d| *d == b'\n').map_or(text.len(), |n| i + n + 1),
            c if c.is_ascii_whitespace() => {
                i += 1;
                continue;
            }
            _ => text[i..].iter().position(|d| d.is_ascii_whitespace() || b"()|\";".contains(d)).map_or(text.len(), |n| i + n),
        };
        out.push(text[i..end].to_vec());
        i = end;
    }
    out
}

fn join(tokens: &[&[u8]]) -> Vec<u8> {
    tokens.join(&b' ')
}

const ALPHABET: &[&str] = &[
    "(", ")", "()", "cl", "step", "assume", "anchor", ":rule", ":premises", ":args", ":discharge", ":step", "t1", "h1", "||", "0", "1", "-1", "1.5", "1/0", "\"\"", "#b1",
    "#b", "true", "false", "not", "and", "=", "x", "Int", "Bool", "_", "as", "!", "let", "forall", "choice", ":=", ":named", "(_ bv0 1)", "(- 1)", "(/ 1.0 0.0)", "(cl)",
    "(not false)", "99999999999999999999", "(and)", "rare-list", "(rare-list)", "distinct", "refl", "subproof", "(_ extract 0 1)", "x'", "bvadd", "concat",
];
const MORE: &[&str] = &[
    "\"a\"", "#xF", "or", "=>", "xor", "ite", "+", "-", "*", "/", "div", "<", "U", "Real", "String", "RegLan", "(_ BitVec 1)", "(_ BitVec 0)", "exists", "lambda", ":pattern", "resolution",
    "define-fun", "declare-fun", "assert", "set-logic", "hole", "bind", "(x U)", "((x U))", "(:= (x U) x)", "(-> Int Int)", "->", "const", "(as const (Array Int Int))", "@x", "'", "#", ":", "\"", "|",
    "(cl true)", "(let ((x 1)) x)", "(forall ((x Int)) true)", "(choice ((x Int)) true)", "(_ repeat 0)", "(_ bv2 0)", "(- 0.0)", "18446744073709551616", "-9223372036854775808",
    "@p_0", "select", "str.++", "re.++", "bvadd", "concat", "@bbterm", "@pbbterm", "Type", "eo::define", "declare-rare-rule", ":list", ":sequent",
];

/// All edits of one token: removed, repeated, exchanged with the next, replaced, preceded by another;
/// whole lists removed, repeated or unwrapped; and the text cut there.
fn edits(text: &[u8], alphabet: &[&str], mut f: impl FnMut(Vec<u8>)) {
    let ts = tokens(text);
    let ts: Vec<&[u8]> = ts.iter().map(|t| t.as_slice()).collect();
    f(join(&ts));
    for i in 0..ts.len() {
        let (a, b) = (&ts[..i], &ts[i..]);
        f(join(a));
        f(join(&[a, &b[1..]].concat()));
        f(join(&[a, &b[..1], b].concat()));
        if b.len() > 1 {
            f(join(&[a, &[b[1], b[0]], &b[2..]].concat()));
        }
        for x in alphabet {
            f(join(&[a, &[x.as_bytes()], &b[1..]].concat()));
            f(join(&[a, &[x.as_bytes()], b].concat()));
        }
        if b[0] == b"(" {
            let mut depth = 0;
            let end = b.iter().position(|t| {
                depth += (*t == b"(") as i32 - (*t == b")") as i32;
                depth == 0
            });
            if let Some(end) = end {
                f(join(&[a, &b[end + 1..]].concat()));
                f(join(&[a, &b[..end + 1], b].concat()));
                f(join(&[a, &b[1..end], &b[end + 1..]].concat()));
                for x in alphabet {
                    f(join(&[a, &[x.as_bytes()], &b[end + 1..]].concat()));
                }
            }
        }
    }
}

const BYTES: &[&[u8]] = &[b"", b"(", b")", b"|", b"\"", b";", b"\0", b"\xff", "é".as_bytes(), "\u{feff}".as_bytes(), b"#", b":", b"'", b"-", b".", b"/", b"0", b"\n", b"\r", b"\\", b"@", b"x"];

/// Every byte removed, replaced, preceded by another, and the text cut there.
fn bytes(text: &[u8], mut f: impl FnMut(Vec<u8>)) {
    for i in 0..=text.len() {
        f(text[..i].to_vec());
        for x in BYTES {
            f([&text[..i], x, &text[i..]].concat());
            if i < text.len() {
                f([&text[..i], x, &text[i + 1..]].concat());
            }
        }
    }
}

const PROBLEM: &str = "(set-logic ALL)(set-option :produce-proofs true)(declare-sort U 0)(declare-sort L 1)(define-sort M (X) (Array Int X))\
(declare-const a U)(declare-fun b () U)(declare-fun P (U) Bool)(declare-fun f (Int Real) Int)(declare-const l (L Int))(declare-const m (M Bool))\
(declare-const v (_ BitVec 4))(declare-const s String)(declare-const i Int)(declare-const p Bool)\
(define-fun g ((x Int) (y Bool)) Int (ite y x 0))(define-fun c () Bool (P a))(define-fun-rec h ((x Int)) Int (h x))\
(assert (! (= a b) :named n1))(assert (forall ((x U) (y Int)) (! (=> (P x) (< y (g y c))) :pattern ((P x)))))(assert (let ((x (P a)) (y 2)) (and x (> y 1))))\
(assert (not (P a)))(assert (P a))(check-sat-assuming (p (not p)))(check-sat)(get-proof)(exit)";

const PROOFS: &[&str] = &[
    "(assume h1 (! (= a b) :named @n))(assume h2 (not (P a)))(assume h3 (P a))(step t1 (cl @n) :rule reordering :premises (h1))(step t2 (cl) :rule resolution :premises (h3 h2) :args ((P a) true))",
    "unsat ((assume h1 (not (P a)))(assume h2 (P a))(step t (cl) :rule th_resolution :premises (h1 h2)))",
    "(define-fun d ((x U)) Bool (P x))(anchor :step t1)(assume t1.h (d a))(step t1.t (cl (= i i)) :rule refl)(step t1 (cl (not (P a)) (= i i)) :rule subproof :discharge (t1.h))",
    "(anchor :step t1 :args ((y U) (:= (x U) y)))(step t1.t (cl (= (P x) (P y))) :rule refl)(step t1 (cl (= (forall ((x U)) (P x)) (forall ((y U)) (P y)))) :rule bind)",
    "(anchor :step t1 :args ((:= x a)))(anchor :step t1.s :args ((y Int)))(step t1.s.t (cl (= y y)) :rule refl)(step t1.s (cl (= (forall ((y Int)) (= y 1)) (forall ((y Int)) (= y 1)))) :rule bind)\
(step t1 (cl (= (let ((x a)) (P x)) (P a))) :rule let)",
    "(anchor :step t1 :args ((:= (x U) (choice ((x U)) (P x)))))(step t1.t (cl (= (P x) (P (choice ((x U)) (P x))))) :rule refl)(step t1 (cl (= (exists ((x U)) (P x)) (P (choice ((x U)) (P x))))) :rule sko_ex)",
    "(step t1 (cl (or (not (forall ((x U)) (P x))) (P a))) :rule forall_inst :args (a))(step t2 (cl (or (not (forall ((x U)) (P x))) (P a))) :rule forall_inst :args (a))",
    "(step t1 (cl (< i 1) (>= i 1)) :rule la_generic :args (1 (- 1.0)))(step t2 (cl (= (+ i 1) 2)) :rule lia_generic)(step t3 (cl (= (- 1.5) (/ 3.0 (- 2.0)))) :rule evaluate)",
    "(step t1 (cl (= ((_ extract 1 0) #b1010) (_ bv2 2))) :rule evaluate)(step t2 (cl (= v (@bbterm ((_ @bit_of 0) v) ((_ @bit_of 1) v) ((_ @bit_of 2) v) ((_ @bit_of 3) v)))) :rule bitblast_var)",
    "(step t1 (cl (= (str.++ s \"a\"\"b\" \"\\u{61}\") s)) :rule hole :args (\"x\" 1 s))(step t2 (cl (str.in_re s (re.* (str.to_re \"a\")))) :rule hole)(step t3 (cl (= (select m 1) (select ((as const (Array Int Bool)) true) 1))) :rule hole)",
    "(step t1 (cl (= (and p p) p)) :rule rare_rewrite :args (\"dup\" p))(step t2 (cl (= (or p p true) true)) :rule rare_rewrite :args (\"lst\" (rare-list p p) rare-list))",
    "(step t1 (cl (not (! (! p :named @q) :named @r)) @q) :rule hole)(step t2 (cl @r) :rule contraction :premises (t1))(step t3 (cl (|P| |a|)) :rule |hole|) ; a comment\n(step |t 4| (cl) :rule unknown :premises (t1 t2) :args (a (cl p) 1) :discharge (t1))",
];

const RULES: &str = "(declare-rare-rule dup ((x Bool)) :args (x) :conclusion (= (and x x) x))\
(declare-rare-rule lst ((x Bool :list) (y Bool :list)) :args (x y) :conclusion (= (or x true y) true))\
(declare-rare-rule prm ((@T Type) (x @T) (y @T)) :premises ((= x y)) :args (x y) :conclusion (= y x))\
(declare-rare-rule imp ((T Type) (n Int)) :args (T n) :conclusion (= (f n 1.5) n))";

fn corpus() -> Vec<Text> {
    let text = |name: String, proof: &str| Text { name, problem: PROBLEM.into(), proof: proof.into(), rules: Some(RULES.into()) };
    PROOFS.iter().enumerate().map(|(i, p)| text(format!("proof {i}"), p)).collect()
}

fn modes(all: bool) -> Vec<(parser::Config, bool)> {
    let n = parser::Config::new();
    let full = parser::Config { apply_function_defs: true, expand_lets: true, allow_int_real_subtyping: true, parse_hole_args: true, ..n };
    let mut v = vec![(n, false), (full, false)];
    if all {
        v.push((parser::Config { strict: true, ..n }, true));
        v.push((parser::Config { parse_hole_args: true, ..n }, true));
    }
    v
}

pub fn run(rep: &Report, thorough: bool) {
    watched(rep, || texts(rep, thorough));
}

fn texts(rep: &Report, thorough: bool) {
    let more: Vec<&str> = ALPHABET.iter().chain(MORE).copied().collect();
    let all_modes = modes(true);

    // the corpus itself must be well-formed
    let corpus = corpus();
    for x in &corpus {
        for (c, e) in &all_modes[..2] {
            let r = run_one(x, *c, *e);
            let fine = r.as_ref().is_ok_and(|r| !r.starts_with("parser error"));
            if !fine {
                panic!("corpus {}: {r:?}", x.name);
            }
        }
    }

    // edits of the proofs, the problem and the rules of the corpus
    let mut jobs: Vec<(Text, usize)> = corpus.iter().map(|x| (x.clone(), 0)).collect();
    jobs.extend(corpus.iter().filter(|x| ["proof 0", "proof 2", "proof 10"].contains(&x.name.as_str())).map(|x| (x.clone(), 1)));
    jobs.push((corpus[10].clone(), 2));
    let mut work: Vec<Text> = vec![];
    for (x, part) in &jobs {
        let mut put = |e: Vec<u8>| {
            let mut y = x.clone();
            match part {
                0 => y.proof = e,
                1 => y.problem = e,
                _ => y.rules = Some(e),
            }
            work.push(y);
        };
        let text = match part {
            0 => &x.proof,
            1 => &x.problem,
            _ => x.rules.as_ref().unwrap(),
        };
        edits(text, &more, &mut put);
        bytes(text, &mut put);
    }
    rep.add("edited texts", work.len() as u64);
    let chunks: Vec<&[Text]> = work.chunks(512).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for x in chunk.iter() {
            t.distinct.insert(hash_of(&(&x.problem, &x.proof, &x.rules)));
            one(rep, &mut t, x, if thorough { &all_modes } else { &all_modes[..2] });
        }
        t.flush(rep);
    });
    drop(work);

    // edits of a step of every rule
    let fams = crate::families(false);
    let mut insts = vec![];
    for f in &fams {
        for i in &f.insts {
            insts.push((f.decls.clone(), crate::print::inst_text(i), i.rule.clone()));
        }
    }
    par(&insts, |(decls, text, rule)| {
        let mut t = Tally::new();
        let mut seen = std::collections::HashSet::new();
        edits(text.as_bytes(), if thorough { &more } else { ALPHABET }, |e| {
            if seen.insert(hash_of(&e)) {
                t.distinct.insert(hash_of(&(decls, &e)));
                let x = Text { name: rule.to_string(), problem: decls.clone().into(), proof: e, rules: None };
                one(rep, &mut t, &x, if thorough { &all_modes[..3] } else { &all_modes[..1] });
            }
        });
        t.flush(rep);
    });
    deep(rep);
}

/// Every construct nested in itself, on a stack of the size a main thread has.
fn deep(rep: &Report) {
    const DEPTH: usize = 500;
    let nest = |open: &str, inner: &str, close: &str| format!("{}{inner}{}", open.repeat(DEPTH), close.repeat(DEPTH));
    let mut texts: Vec<(&str, String, String)> = vec![];
    let bools = [
        nest("(not ", "p", ")"),
        nest("(and p ", "p", ")"),
        nest("(or ", "p", " p)"),
        nest("(ite p ", "p", " p)"),
        nest("(forall ((x U)) ", "(P x)", ")"),
        nest("(let ((x a)) ", "(P x)", ")"),
        nest("(let ((p ", "p", ")) p)"),
        nest("(! ", "p", " :pattern (p))"),
        format!("(= l ((as const {}) l))", nest("(Array Int ", "Int", ")")),
        format!("(P (choice ((x U)) {}))", nest("(P (choice ((x U)) ", "(P x)", "))")),
        format!("(= i {})", nest("(+ i ", "i", ")")),
        format!("(= i {})", nest("(- ", "i", ")")),
        format!("(= i {})", nest("(g ", "i", " c)")),
        format!("(= s {})", nest("(str.++ s ", "s", ")")),
        format!("(= v {})", nest("(bvnot ", "v", ")")),
    ];
    let rules = ["hole", "refl", "not_not", "and_simplify", "aci_simp", "ac_simp", "evaluate", "cong", "bool_simplify", "qnt_simplify", "poly_simp", "la_generic", "qnt_cnf", "connective_def", "sum_simplify"];
    for b in &bools {
        for r in rules {
            texts.push(("nested term", PROBLEM.into(), format!("(step t1 (cl (= {b} {b})) :rule {r})")));
            texts.push(("nested term", PROBLEM.into(), format!("(step t1 (cl (not {b}) p) :rule {r})")));
        }
        texts.push(("nested assertion", PROBLEM.replace("(check-sat)", &format!("(assert {b})(check-sat)")), format!("(assume h {b})")));
    }
    let mut anchors = String::new();
    let mut ends = String::new();
    for i in 0..DEPTH {
        anchors += &format!("(anchor :step t{i} :args ((x{i} U)))(assume h{i} p)");
        ends = format!("(step t{i} (cl (not p) (= a a)) :rule subproof :discharge (h{i})){ends}");
    }
    texts.push(("nested subproofs", PROBLEM.into(), format!("{anchors}(step z (cl (= a a)) :rule refl){ends}")));
    texts.push(("parentheses", PROBLEM.into(), "(".repeat(DEPTH)));
    texts.push(("numeral", PROBLEM.into(), format!("(step t (cl (= i {})) :rule evaluate)", "9".repeat(20_000))));
    texts.push(("decimal", PROBLEM.into(), format!("(step t (cl (= 1.0 0.{})) :rule evaluate)", "9".repeat(20_000))));
    texts.push(("bits", PROBLEM.into(), format!("(step t (cl (= v #b{})) :rule evaluate)", "1".repeat(20_000))));
    texts.push(("symbol", PROBLEM.into(), format!("(step {} (cl) :rule hole)", "x".repeat(100_000))));
    rep.add("deep texts", texts.len() as u64);
    let modes = modes(true);
    for (name, problem, proof) in texts {
        let x = Text { name: name.into(), problem: problem.into(), proof: proof.into(), rules: None };
        std::thread::scope(|s| {
            let w = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
                let mut t = Tally::new();
                t.distinct.insert(hash_of(&(&x.problem, &x.proof)));
                one(rep, &mut t, &x, &modes);
                t.flush(rep);
            });
            w.unwrap().join().expect("deep text");
        });
    }
}
