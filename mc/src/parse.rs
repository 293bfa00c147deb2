//! C18: the parser against reference readings of the input. Every text of small grammars is parsed
//! by the real parser and by a reference, and the results are compared.
use crate::core::*;
use crate::names::{nameless, Scope, D};
use crate::rules::Tally;
use crate::sem::*;
use carcara::ast::*;
use carcara::parser::{self, Config, Parser};
use rug::{Integer, Rational};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc as SRc;

// ------------------------------------------------------------------------------------------------
// A. Names: binders, let, definitions

#[derive(Clone, Debug)]
enum S {
    N(&'static str),
    F(&'static str, Vec<S>),
    Q(&'static str, &'static str, &'static str, Box<S>),
    L(&'static str, Vec<(&'static str, S)>, Box<S>),
}

impl S {
    fn text(&self) -> String {
        match self {
            S::N(n) => n.to_string(),
            S::F(f, a) => format!("({f} {})", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")),
            S::Q(q, n, s, b) => format!("({q} (({n} {s})) {})", b.text()),
            S::L(k, b, i) => {
                let b: Vec<_> = b.iter().map(|(n, v)| format!("({n} {})", v.text())).collect();
                format!("({k} ({}) {})", b.join(" "), i.text())
            }
        }
    }
}

pub const NAMES: &str = "(declare-sort U 0)(declare-sort V 0)(declare-const x U)(declare-const y U)(declare-const b U)\
(declare-fun f (U) U)(declare-fun h (U U) U)(declare-fun p (U) Bool)\
(define-fun a () U (f x))(define-fun g ((y U)) U (h y x))(define-fun q ((x U)) Bool (p x))";

#[derive(Clone, PartialEq, Debug)]
enum Ty {
    S(&'static str),
    F(Vec<&'static str>),
}

struct RefEnv {
    apply: bool,
    expand: bool,
}

/// Whether the meaning depends on a definition whose free names are shadowed where it is used.
struct Shadowed(bool);

impl RefEnv {
    fn global(&self, n: &str) -> Option<Ty> {
        Some(match n {
            "x" | "y" | "b" => Ty::S("U"),
            "f" => Ty::F(vec!["U", "U"]),
            "h" => Ty::F(vec!["U", "U", "U"]),
            "p" => Ty::F(vec!["U", "Bool"]),
            "a" => Ty::S("U"),
            "g" => Ty::F(vec!["U", "U"]),
            "q" => Ty::F(vec!["U", "Bool"]),
            _ => return None,
        })
    }
    fn eval(&self, s: &S, sc: &Scope, tys: &[(&'static str, Ty)], sh: &mut Shadowed) -> Result<(SRc<D>, Ty), ()> {
        let local = |n: &str| tys.iter().rev().find(|t| t.0 == n).map(|t| t.1.clone());
        match s {
            S::N(n) => {
                if let Some(t) = local(n) {
                    return Ok((sc.find(n, None).ok_or(())?, t));
                }
                let ty = self.global(n).ok_or(())?;
                if self.apply && *n == "a" {
                    if tys.iter().any(|t| t.0 == "x" && t.1 == Ty::S("U")) {
                        sh.0 = true;
                    }
                    return Ok((SRc::new(D::App("f".into(), vec![SRc::new(D::Free("x:U".into()))])), ty));
                }
                let Ty::S(t) = &ty else { return Err(()) };
                Ok((SRc::new(D::Free(format!("{n}:{t}"))), ty))
            }
            S::F(n, args) => {
                let mut ds = vec![];
                let mut ts = vec![];
                for a in args {
                    let (d, t) = self.eval(a, sc, tys, sh)?;
                    ds.push(d);
                    ts.push(t);
                }
                let lt = local(n);
                let Some(Ty::F(sig)) = lt.clone().or_else(|| self.global(n)) else { return Err(()) };
                if sig.len() != args.len() + 1 || ts.iter().zip(&sig).any(|(t, s)| *t != Ty::S(s)) {
                    return Err(());
                }
                let ty = Ty::S(sig[args.len()]);
                if lt.is_some() {
                    return Ok((SRc::new(D::Ho(sc.find(n, None).ok_or(())?, ds)), ty));
                }
                if self.apply && *n == "g" {
                    if tys.iter().any(|t| t.0 == "x" && t.1 == Ty::S("U")) {
                        sh.0 = true;
                    }
                    return Ok((SRc::new(D::App("h".into(), vec![ds[0].clone(), SRc::new(D::Free("x:U".into()))])), ty));
                }
                if self.apply && *n == "q" {
                    return Ok((SRc::new(D::App("p".into(), ds)), ty));
                }
                Ok((SRc::new(D::App(n.to_string(), ds)), ty))
            }
            S::Q(q, n, srt, b) => {
                let inner = sc.bind(&[(n.to_string(), Some(srt.to_string()))]);
                let mut t2 = tys.to_vec();
                t2.push((n, Ty::S(srt)));
                let (d, t) = self.eval(b, &inner, &t2, sh)?;
                if t != Ty::S("Bool") {
                    return Err(());
                }
                let ty = if *q == "choice" { Ty::S(srt) } else { t };
                Ok((SRc::new(D::Bind(q.to_string(), vec![srt.to_string()], d)), ty))
            }
            S::L(k, b, i) => {
                let mut vals = vec![];
                for (n, v) in b {
                    vals.push((*n, self.eval(v, sc, tys, sh)?));
                }
                let mut t2 = tys.to_vec();
                for (n, (_, t)) in &vals {
                    t2.push((n, t.clone()));
                }
                if *k == "let" && !self.expand {
                    let names: Vec<_> = vals
                        .iter()
                        .map(|(n, (_, t))| (n.to_string(), if let Ty::S(s) = t { Some(s.to_string()) } else { None }))
                        .collect();
                    let (d, t) = self.eval(i, &sc.bind(&names), &t2, sh)?;
                    Ok((SRc::new(D::Let(vals.into_iter().map(|v| v.1 .0).collect(), d)), t))
                } else {
                    let mut inner = sc.clone();
                    for (n, (d, _)) in &vals {
                        let at = inner.depth;
                        inner.alias(n, None, d.clone(), at);
                    }
                    self.eval(i, &inner, &t2, sh)
                }
            }
        }
    }
}

/// All terms of each size, as (terms of sort U, formulas).
fn gen_terms(max: usize) -> Vec<(Vec<S>, Vec<S>)> {
    let mut out: Vec<(Vec<S>, Vec<S>)> = vec![(vec![], vec![])];
    out.push((["x", "y", "a", "b"].map(S::N).to_vec(), vec![]));
    let binders: [(&str, &str); 6] = [("x", "U"), ("x", "V"), ("y", "U"), ("a", "U"), ("g", "U"), ("f", "U")];
    let lets = ["x", "y", "a", "g", "f"];
    for n in 2..=max {
        let (mut u, mut b) = (vec![], vec![]);
        for t in &out[n - 1].0 {
            for f in ["f", "g"] {
                u.push(S::F(f, vec![t.clone()]));
            }
            for f in ["p", "q"] {
                b.push(S::F(f, vec![t.clone()]));
            }
        }
        for t in &out[n - 1].1 {
            for (v, s) in binders {
                u.push(S::Q("choice", v, s, Box::new(t.clone())));
                b.push(S::Q("forall", v, s, Box::new(t.clone())));
            }
        }
        for k in 1..n - 1 {
            let m = n - 1 - k;
            for v in &out[k].0 {
                for name in lets {
                    for kw in ["let", "eo::define"] {
                        for t in &out[m].0 {
                            u.push(S::L(kw, vec![(name, v.clone())], Box::new(t.clone())));
                        }
                        for t in &out[m].1 {
                            b.push(S::L(kw, vec![(name, v.clone())], Box::new(t.clone())));
                        }
                    }
                }
            }
        }
        // simultaneous bindings
        if n >= 4 {
            for k1 in 1..n - 2 {
                for k2 in 1..n - 1 - k1 {
                    let m = n - 1 - k1 - k2;
                    if m == 0 || n > 5 {
                        continue;
                    }
                    for v1 in &out[k1].0 {
                        for v2 in &out[k2].0 {
                            for (n1, n2) in [("x", "y"), ("a", "x"), ("y", "a")] {
                                for t in &out[m].0 {
                                    u.push(S::L("let", vec![(n1, v1.clone()), (n2, v2.clone())], Box::new(t.clone())));
                                }
                            }
                        }
                    }
                }
            }
        }
        out.push((u, b));
    }
    out
}

/// The texts of all terms up to a size: those of sort U, and the formulas.
pub fn all_terms(max: usize) -> (Vec<String>, Vec<String>) {
    let (mut us, mut bs) = (vec![], vec![]);
    for (u, b) in gen_terms(max) {
        us.extend(u.iter().map(|x| x.text()));
        bs.extend(b.iter().map(|x| x.text()));
    }
    (us, bs)
}

/// Texts of literals over small alphabets.
pub fn literal_words(n: usize) -> Vec<String> {
    let mut out = words(&['0', '1', '2', '.', '/', '-'], n);
    out.extend(words(&['0', '1', 'F', 'b', 'x'], n).into_iter().map(|w| format!("#{w}")));
    out.extend(words(&['\\', 'u', '{', '}', '6', '1', '"', 'é', '\n', ';', '|'], n - 1).into_iter().map(|w| format!("\"{w}\"")));
    out.extend(words(&['2', '0', 'A'], 4).into_iter().flat_map(|w| [format!("\"\\u{{{w}}}\""), format!("\"a\\u{w}b\"")]));
    out
}

fn names(rep: &Report, thorough: bool) {
    let all: Vec<S> = gen_terms(if thorough { 6 } else { 5 }).into_iter().flat_map(|(u, b)| u.into_iter().chain(b)).collect();
    rep.sample(all[all.len() / 3].text());
    let chunks: Vec<&[S]> = all.chunks(all.len().div_ceil(64)).collect();
    for apply in [true, false] {
        for expand in [true, false] {
            par(&chunks, |ch| {
                let mut t = Tally::new();
                let cfg = Config { apply_function_defs: apply, expand_lets: expand, ..Config::new() };
                let r = RefEnv { apply, expand };
                let mut pool = PrimitivePool::new();
                for s in ch.iter() {
                    let txt = s.text();
                    t.inc("name_texts", 1);
                    t.inc("evaluations", 1);
                    let key = || format!("{txt} (function definitions {}, lets {})", if apply { "applied" } else { "kept" }, if expand { "expanded" } else { "kept" });
                    let mut sh = Shadowed(false);
                    let want = r.eval(s, &Scope::default(), &[], &mut sh);
                    let got = guard(|| {
                        let mut ps = Parser::new(&mut pool, cfg, NAMES.as_bytes()).expect("decls");
                        ps.parse_problem().expect("decls");
                        ps.reset(txt.as_bytes())?;
                        ps.parse_term()
                    });
                    match (got, want) {
                        (Err(p), _) => {
                            rep.violation(&key(), &format!("panics: {p}"));
                        }
                        (Ok(Ok(g)), Ok((w, _))) => {
                            let d = nameless(&g, &Scope::default());
                            if d != w {
                                rep.violation(&key(), &format!("is read as {}, which means {d:?}; the reference meaning is {w:?}", show(&g)));
                            }
                            t.distinct.insert(hash_of(&(apply, expand, &txt)));
                        }
                        (Ok(Ok(g)), Err(())) => {
                            rep.violation(&key(), &format!("is ill-sorted, but is accepted as {}", show(&g)));
                        }
                        (Ok(Err(e)), Ok(_)) => {
                            if sh.0 {
                                t.inc("rejected_shadowed_definition", 1);
                            } else {
                                rep.violation(&key(), &format!("is well-sorted, but is rejected: {e}"));
                            }
                        }
                        (Ok(Err(_)), Err(())) => {
                            t.inc("ill_sorted", 1);
                        }
                    }
                }
                t.flush(rep);
            });
        }
    }
}


// ------------------------------------------------------------------------------------------------
// B. Sorts

pub const SORTED: &str = "(declare-sort U 0)(declare-const b Bool)(declare-const i Int)(declare-const r Real)(declare-const u U)\
(declare-const v2 (_ BitVec 2))(declare-const v3 (_ BitVec 3))(declare-const s String)(declare-const e RegLan)\
(declare-const ar (Array Int U))(declare-fun fn (Int U) Bool)";
pub const ATOMS: [&str; 12] = ["b", "i", "r", "u", "v2", "v3", "s", "e", "ar", "fn", "7", "1.5"];
pub const OPS: &[&str] = &[
    "not", "=>", "and", "or", "xor", "=", "distinct", "ite", "+", "-", "*", "div", "/", "mod", "abs", "<", ">", "<=", ">=", "to_real", "to_int",
    "is_int", "select", "store", "str.++", "str.len", "str.<", "str.<=", "str.at", "str.substr", "str.prefixof", "str.suffixof", "str.contains",
    "str.indexof", "str.replace", "str.replace_all", "str.replace_re", "str.replace_re_all", "str.is_digit", "str.to_code", "str.from_code",
    "str.to_int", "str.from_int", "str.to_re", "str.in_re", "re.++", "re.union", "re.inter", "re.*", "re.comp", "re.diff", "re.+", "re.opt",
    "re.range", "bvnot", "bvneg", "bvand", "bvor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvult", "concat", "bvnand", "bvnor",
    "bvxor", "bvxnor", "bvcomp", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge",
    "ubv_to_int", "sbv_to_int", "@pbbterm", "@bbterm", "@bvsize", "int.pow2", "int.ispow2", "int.log2", "fn", "u",
];
pub const INDEXED: &[(&str, usize)] = &[
    ("extract", 2), ("@bit_of", 1), ("@int_of", 1), ("zero_extend", 1), ("sign_extend", 1), ("rotate_left", 1), ("rotate_right", 1), ("repeat", 1),
    ("int_to_bv", 1), ("re.^", 1), ("re.loop", 2),
];

/// The sort of a term that may be too unusual for the reference, as text.
fn parse_term(pool: &mut PrimitivePool, decls: &str, cfg: Config, txt: &str) -> Result<Result<T, String>, String> {
    guard(|| {
        let mut ps = Parser::new(pool, cfg, decls.as_bytes()).map_err(|e| e.to_string())?;
        ps.parse_problem().map_err(|e| e.to_string())?;
        ps.reset(txt.as_bytes()).map_err(|e| e.to_string())?;
        ps.parse_term().map_err(|e| e.to_string())
    })
}

/// A bit-vector bit with a non-negative index, which may be out of range.
fn bit_index(t: &T) -> bool {
    matches!(t.as_ref(), Term::ParamOp { op: ParamOperator::BvBitOf | ParamOperator::BvIntOf, op_args, .. }
        if op_args.len() == 1 && op_args[0].as_integer().is_some_and(|k| k >= 0))
}

pub fn tuples<X: Clone>(xs: &[X], n: usize) -> Vec<Vec<X>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.iter().flat_map(|v: &Vec<X>| xs.iter().map(move |x| [v.clone(), vec![x.clone()]].concat())).collect();
    }
    out
}

fn sorts(rep: &Report, thorough: bool) {
    let mut heads: Vec<String> = OPS.iter().map(|s| s.to_string()).collect();
    let idx = ["(- 1)", "0", "1", "2", "3", "4", "4294967295", "18446744073709551615", "i", "1.5"];
    for (op, n) in INDEXED {
        for k in 1..=2 {
            for t in tuples(&idx, k) {
                if k != *n && t.iter().any(|x| *x != "1") {
                    continue;
                }
                heads.push(format!("(_ {op} {})", t.join(" ")));
            }
        }
    }
    for s in ["(Array Int U)", "(Array U Int)", "(Array Int Bool)", "Int", "(_ BitVec 2)", "(_ BitVec 0)", "(Array Int)", "Q"] {
        heads.push(format!("(as const {s})"));
    }
    let configs = [
        ("default", Config::new()),
        ("subtyping", Config { allow_int_real_subtyping: true, ..Config::new() }),
        ("strict", Config { strict: true, ..Config::new() }),
    ];
    for (cname, cfg) in configs {
        par(&heads, |h| {
            let mut t = Tally::new();
            let mut pool = PrimitivePool::new();
            let atoms: HashMap<&str, T> =
                ATOMS.iter().map(|a| (*a, parse_term(&mut pool, SORTED, cfg, a).expect("atom").expect("atom"))).collect();
            // the parser keeps its declarations between terms
            let mut ps = Parser::new(&mut pool, cfg, SORTED.as_bytes()).expect("decls");
            ps.parse_problem().expect("decls");
            let mut accepted: Vec<(String, T)> = vec![];
            let mut rejected: Vec<(String, Vec<T>, String)> = vec![];
            let max = if thorough && !h.starts_with('(') { 4 } else { 3 };
            for n in 1..=max {
                let xs = if n >= 4 { &ATOMS[..10] } else { &ATOMS[..] };
                for tup in tuples(xs, n) {
                    let txt = format!("({h} {})", tup.join(" "));
                    t.inc("applications", 1);
                    t.inc("evaluations", 1);
                    match guard(|| {
                        ps.reset(unsafe_static(&txt))?;
                        ps.parse_term()
                    }) {
                        Ok(Ok(g)) => accepted.push((txt, g)),
                        Ok(Err(e)) => rejected.push((txt, tup.iter().map(|a| atoms[a].clone()).collect(), e.to_string())),
                        Err(p) => {
                            rep.violation(&format!("{txt} ({cname})"), &format!("panics: {p}"));
                        }
                    }
                }
            }
            drop(ps);
            let sub = cfg.allow_int_real_subtyping;
            for (txt, g) in accepted {
                let key = format!("{txt} ({cname})");
                match sort_of(&g, sub) {
                    // the index of a bit is checked by the rules, and not by the parser
                    Err(_) if bit_index(&g) => t.inc("out_of_range_bits", 1),
                    Err(e) => {
                        rep.violation(&key, &format!("is accepted as {}, but it is {e}", show(&g)));
                    }
                    Ok(s) => {
                        t.distinct.insert(hash_of(&(cname, &txt)));
                        let real = match guard(|| pool.sort(&g)) {
                            Ok(r) => srt(&r),
                            Err(p) => {
                                rep.violation(&key, &format!("computing the sort panics: {p}"));
                                continue;
                            }
                        };
                        if real != s {
                            rep.violation(&key, &format!("is given the sort {real:?}; its sort is {s:?}"));
                        }
                        if cfg.strict {
                            if let Term::Op(Operator::And | Operator::Or | Operator::Xor, a) = g.as_ref() {
                                if a.len() < 2 {
                                    rep.violation(&key, "a unary connective is accepted in strict mode");
                                }
                            }
                        }
                    }
                }
            }
            for (txt, args, e) in rejected {
                let key = format!("{txt} ({cname})");
                let op = h.parse::<Operator>();
                let term = if let Ok(op) = op {
                    if cfg.strict && args.len() < 2 && matches!(op, Operator::And | Operator::Or | Operator::Xor) {
                        continue;
                    }
                    Term::Op(op, args)
                } else if h == "fn" {
                    Term::App(atoms["fn"].clone(), args)
                } else if let Some((op, ix)) = indexed(h) {
                    let ix = ix.into_iter().map(|i| pool.add(Term::new_int(i))).collect();
                    Term::ParamOp { op, op_args: ix, args }
                } else {
                    continue;
                };
                t.inc("ill_sorted", 1);
                if sort_of(&term, sub).is_ok() {
                    rep.violation(&key, &format!("is well-sorted, but is rejected: {e}"));
                }
            }
            t.flush(rep);
        });
    }
}

/// The operator and indices of a head with small literal indices.
fn indexed(h: &str) -> Option<(ParamOperator, Vec<i64>)> {
    let mut w = h.strip_prefix("(_ ")?.strip_suffix(')')?.split(' ');
    let op = w.next()?.parse::<ParamOperator>().ok()?;
    let ix: Result<Vec<i64>, _> = w.map(|x| x.parse::<i64>()).collect();
    let ix = ix.ok()?;
    ix.iter().all(|i| *i < 100).then_some((op, ix))
}

fn unsafe_static(s: &str) -> &'static [u8] {
    // SAFETY: the parser is done with its input before the text is dropped
    unsafe { std::mem::transmute::<&[u8], &'static [u8]>(s.as_bytes()) }
}

/// Arithmetic literals under every logic name: integer literals are real exactly in logics with
/// reals and without integers.
fn logics(rep: &Report) {
    let mut t = Tally::new();
    for qf in ["", "QF_"] {
        for a in ["", "A", "AX"] {
            for uf in ["", "UF"] {
                for bv in ["", "BV", "DT", "S"] {
                    for arith in ["", "LRA", "NRA", "RDL", "LIA", "NIA", "IDL", "LIRA", "NIRA"] {
                        let logic = format!("{qf}{a}{uf}{bv}{arith}");
                        if logic.is_empty() {
                            continue;
                        }
                        let real = matches!(arith, "LRA" | "NRA" | "RDL");
                        for (lit, body) in [("7", "(= 7 c)"), ("(- 7)", "(= (- 7) c)"), ("(+ 1 2)", "(< (+ 1 2) c)")] {
                            for sort in ["Int", "Real"] {
                                let txt = format!("(set-logic {logic})(declare-const c {sort})(assert {body})");
                                let key = format!("{txt} [{lit}]");
                                t.inc("logic_texts", 1);
                    t.inc("evaluations", 1);
                                let r = guard(|| {
                                    let mut pool = PrimitivePool::new();
                                    let mut ps = Parser::new(&mut pool, Config::new(), txt.as_bytes()).map_err(|e| e.to_string())?;
                                    let p = ps.parse_problem().map_err(|e| e.to_string())?;
                                    Ok::<_, String>(p.premises.iter().map(|x| sort_of(x, false)).all(|s| s == Ok(Srt::Bool)))
                                });
                                // comparisons may mix the two sorts
                                let want = body.starts_with("(<") || real == (sort == "Real");
                                match r {
                                    Err(p) => {
                                        rep.violation(&key, &format!("panics: {p}"));
                                    }
                                    Ok(Ok(well)) if want => {
                                        if !well {
                                            rep.violation(&key, "is read as an ill-sorted term");
                                        }
                                        t.distinct.insert(hash_of(&key));
                                    }
                                    Ok(Ok(_)) => {
                                        rep.violation(&key, "is ill-sorted, but accepted");
                                    }
                                    Ok(Err(e)) if want => {
                                        rep.violation(&key, &format!("is well-sorted, but rejected: {e}"));
                                    }
                                    Ok(Err(_)) => t.inc("ill_sorted", 1),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    t.flush(rep);
}

// ------------------------------------------------------------------------------------------------
// C. Literals

#[derive(PartialEq, Debug, Clone)]
enum Lit {
    Int(Integer),
    Real(Rational),
    Str(Vec<u32>),
    Bv(Integer, usize),
    /// the standard leaves it open
    Open,
    Bad,
}

fn ref_number(s: &str) -> Lit {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    let lead = |x: &str| x.len() > 1 && x.starts_with('0');
    let sign = |r: Rational| if neg { -r } else { r };
    if digits(s) {
        if lead(s) {
            return Lit::Bad;
        }
        let i: Integer = s.parse().unwrap();
        return Lit::Int(if neg { -i } else { i });
    }
    if let Some((a, b)) = s.split_once('.') {
        if digits(a) && !lead(a) && b.is_empty() {
            return Lit::Open;
        }
        if !digits(a) || !digits(b) || lead(a) {
            return Lit::Bad;
        }
        let n: Integer = format!("{a}{b}").parse().unwrap();
        let mut d = Integer::from(1);
        for _ in 0..b.len() {
            d *= 10;
        }
        return Lit::Real(sign(Rational::from((n, d))));
    }
    if let Some((a, b)) = s.split_once('/') {
        if !digits(a) || !digits(b) || lead(a) {
            return Lit::Bad;
        }
        if lead(b) {
            return Lit::Open;
        }
        let d: Integer = b.parse().unwrap();
        if d == 0 {
            return Lit::Bad;
        }
        return Lit::Real(sign(Rational::from((a.parse::<Integer>().unwrap(), d))));
    }
    Lit::Bad
}

fn ref_bv(s: &str) -> Lit {
    let (radix, bits) = match s.get(..2) {
        Some("#b") => (2, 1),
        Some("#x") => (16, 4),
        _ => return Lit::Bad,
    };
    let d = &s[2..];
    if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) {
        return Lit::Bad;
    }
    Lit::Bv(Integer::from_str_radix(d, radix as i32).unwrap(), d.len() * bits)
}

/// The value of `"` + content + `"`, per the Unicode strings theory.
fn ref_string(content: &[char]) -> Lit {
    let mut raw = vec![];
    let mut i = 0;
    while i < content.len() {
        if content[i] == '"' {
            if content.get(i + 1) != Some(&'"') {
                return Lit::Bad;
            }
            i += 1;
        }
        raw.push(content[i]);
        i += 1;
    }
    // escapes never contain quotes
    let hex = |c: &char| c.is_ascii_hexdigit();
    let mut out = vec![];
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == '\\' && raw.get(i + 1) == Some(&'u') {
            let rest = &raw[i + 2..];
            if rest.first() == Some(&'{') {
                let n = rest[1..].iter().take_while(|c| hex(c)).count();
                if (1..=5).contains(&n) && rest.get(1 + n) == Some(&'}') {
                    let v = u32::from_str_radix(&rest[1..1 + n].iter().collect::<String>(), 16).unwrap();
                    if n < 5 || v <= 0x2FFFF {
                        if (0xD800..0xE000).contains(&v) {
                            return Lit::Open;
                        }
                        out.push(v);
                        i += 4 + n;
                        continue;
                    }
                }
            } else if rest.len() >= 4 && rest[..4].iter().all(hex) {
                let v = u32::from_str_radix(&rest[..4].iter().collect::<String>(), 16).unwrap();
                if (0xD800..0xE000).contains(&v) {
                    return Lit::Open;
                }
                out.push(v);
                i += 6;
                continue;
            }
        }
        out.push(raw[i] as u32);
        i += 1;
    }
    Lit::Str(out)
}

pub fn words(alpha: &[char], max: usize) -> Vec<String> {
    (0..=max).flat_map(|n| tuples(alpha, n)).map(|v| v.into_iter().collect()).collect()
}

fn literal(rep: &Report, t: &mut Tally, pool: &mut PrimitivePool, text: &str, want: Lit) {
    t.inc("literal_texts", 1);
                    t.inc("evaluations", 1);
    if want == Lit::Open {
        return;
    }
    let wrapped = format!("(! {text} :k)");
    let got = match parse_term(pool, "", Config::new(), &wrapped) {
        Err(p) => {
            rep.violation(text, &format!("panics: {p}"));
            return;
        }
        Ok(Err(_)) => Lit::Bad,
        Ok(Ok(g)) => match g.as_ref() {
            Term::Const(Constant::Integer(i)) => Lit::Int(i.clone()),
            Term::Const(Constant::Real(r)) => Lit::Real(r.clone()),
            Term::Const(Constant::String(s)) => Lit::Str(s.chars().map(|c| c as u32).collect()),
            Term::Const(Constant::BitVec(v, w)) => Lit::Bv(v.clone(), *w),
            _ => Lit::Bad,
        },
    };
    if got != want {
        rep.violation(text, &format!("is read as {got:?}, its value is {want:?}"));
    }
    if want != Lit::Bad {
        t.distinct.insert(hash_of(&text));
    }
}

fn literals(rep: &Report, thorough: bool) {
    let run = |ws: Vec<String>, f: &(dyn Fn(&str) -> (String, Lit) + Sync)| {
        let chunks: Vec<&[String]> = ws.chunks(ws.len().div_ceil(64)).collect();
        par(&chunks, |ch| {
            let mut t = Tally::new();
            let mut pool = PrimitivePool::new();
            for w in ch.iter() {
                let (txt, want) = f(w);
                literal(rep, &mut t, &mut pool, &txt, want);
            }
            t.flush(rep);
        });
    };
    let k = thorough as usize;
    run(words(&['0', '1', '2', '9', '.', '/', '-'], 5 + k), &|w| (w.to_string(), ref_number(w)));
    run(words(&['0', '1', '2', 'a', 'F', 'g', 'b', 'x', '#'], 5 + k), &|w| (format!("#{w}"), ref_bv(&format!("#{w}"))));
    run(words(&['\\', 'u', '{', '}', '6', '1', '"', 'x'], 5 + k), &|w| {
        (format!("\"{w}\""), ref_string(&w.chars().collect::<Vec<_>>()))
    });
    // longer escapes
    let mut esc = vec![];
    for pre in ["", "a", "\\", "\\u", "\\u{", "\"\""] {
        for digits in words(&['0', '2', '3', 'F'], 6) {
            for (o, c) in [("\\u{", "}"), ("\\u", ""), ("\\u{", "")] {
                esc.push(format!("{pre}{o}{digits}{c}z"));
            }
        }
    }
    run(esc, &|w| (format!("\"{w}\""), ref_string(&w.chars().collect::<Vec<_>>())));
    // long numbers keep every digit
    let mut long = vec![];
    for d in ["1", "9", "10", "37"] {
        for n in [10, 19, 20, 21, 40, 100] {
            let s = d.repeat(n);
            long.extend([s.clone(), format!("-{s}"), format!("{s}.{s}"), format!("0.{s}"), format!("{s}/{s}7"), format!("-{s}.{s}")]);
        }
    }
    run(long, &|w| (w.to_string(), ref_number(w)));
    let long: Vec<String> = [1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000]
        .iter()
        .flat_map(|n| [format!("#b{}", "1".repeat(*n)), format!("#b0{}1", "10".repeat(*n)), format!("#x{}", "fA".repeat(*n))])
        .collect();
    run(long, &|w| (w.to_string(), ref_bv(w)));
}

/// Symbols, comments and white space.
fn symbols(rep: &Report, thorough: bool) {
    let decls = "(declare-const a Int)(declare-const | | Int)(declare-const || Int)(declare-const |a a| Int)(declare-const aa Int)\
(declare-const |;| Int)(declare-const |(| Int)(declare-const |a;a| Int)(declare-const |\n| Int)(declare-const |)| Int)(declare-const a-a Int)(declare-const - Int)";
    let declared = ["a", " ", "", "a a", "aa", ";", "(", "a;a", "\n", ")", "a-a"];
    /// The tokens of a text: quoted and simple symbols, parentheses.
    fn lex(s: &str) -> Option<Vec<(bool, String)>> {
        let c: Vec<char> = s.chars().collect();
        let mut out = vec![];
        let mut i = 0;
        while i < c.len() {
            match c[i] {
                ' ' | '\n' => i += 1,
                ';' => {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                }
                '(' | ')' => {
                    out.push((false, c[i].to_string()));
                    i += 1;
                }
                '|' => {
                    let j = (i + 1..c.len()).find(|j| c[*j] == '|')?;
                    out.push((true, c[i + 1..j].iter().collect()));
                    i = j + 1;
                }
                _ => {
                    let j = (i..c.len()).find(|j| !matches!(c[*j], 'a' | '-')).unwrap_or(c.len());
                    out.push((true, c[i..j].iter().collect()));
                    i = j;
                }
            }
        }
        Some(out)
    }
    let ws = words(&['a', '|', ' ', ';', '\n', '(', ')', '-'], 5 + thorough as usize);
    let chunks: Vec<&[String]> = ws.chunks(ws.len().div_ceil(64)).collect();
    par(&chunks, |ch| {
        let mut t = Tally::new();
        let mut pool = PrimitivePool::new();
        for w in ch.iter() {
            t.inc("symbol_texts", 1);
                    t.inc("evaluations", 1);
            let want = match lex(w).as_deref() {
                Some([(true, s)]) if declared.contains(&s.as_str()) => Some(s.clone()),
                Some([(true, s)]) if s == "-" => continue, // an operator, and a name that shadows it
                _ => None,
            };
            let txt = format!("(! {w}\n :k)");
            let got = match parse_term(&mut pool, decls, Config::new(), &txt) {
                Err(p) => {
                    rep.violation(&format!("{w:?}"), &format!("panics: {p}"));
                    continue;
                }
                Ok(Err(_)) => None,
                Ok(Ok(g)) => match g.as_ref() {
                    Term::Var(n, _) => Some(n.clone()),
                    _ => Some(format!("term {}", show(&g))),
                },
            };
            // `-` may also be applied; those texts are not symbols
            if want.is_none() && got.as_ref().is_some_and(|g| g.starts_with("term (- ")) {
                continue;
            }
            if got != want {
                rep.violation(&format!("{w:?}"), &format!("is read as {got:?}, it is {want:?}"));
            }
            if want.is_some() {
                t.distinct.insert(hash_of(w));
            }
        }
        t.flush(rep);
    });
}

// ------------------------------------------------------------------------------------------------
// D. Sort definitions and declarations

#[derive(Clone, Debug)]
struct SX(&'static str, Vec<SX>);
impl SX {
    fn text(&self) -> String {
        if self.1.is_empty() {
            self.0.into()
        } else {
            format!("({} {})", self.0, self.1.iter().map(|x| x.text()).collect::<Vec<_>>().join(" "))
        }
    }
}

fn sort_defs(rep: &Report, thorough: bool) {
    // definitions use all earlier names, and parameters that are also the names of sorts
    let defs: &[(&str, &[&str], &str)] = &[
        ("A", &[], "U"),
        ("B", &["X"], "(L X)"),
        ("C", &["X", "Y"], "(Array Y (L X))"),
        ("D", &["A"], "(L A)"),
        ("E", &["U"], "(B U)"),
        ("F", &["Y", "X"], "(C X Y)"),
        ("G", &["B"], "(Array B (D B))"),
    ];
    let decls: String = "(declare-sort U 0)(declare-sort L 1)(declare-sort M 2)".to_string()
        + &defs.iter().map(|(n, p, b)| format!("(define-sort {n} ({}) {b})", p.join(" "))).collect::<String>();
    fn parse(s: &str) -> SX {
        fn go(w: &mut std::iter::Peekable<std::vec::IntoIter<&'static str>>) -> SX {
            let t = w.next().unwrap();
            if t != "(" {
                return SX(t, vec![]);
            }
            let h = w.next().unwrap();
            let mut a = vec![];
            while *w.peek().unwrap() != ")" {
                a.push(go(w));
            }
            w.next();
            SX(h, a)
        }
        let s: &'static str = Box::leak(s.replace('(', " ( ").replace(')', " ) ").into_boxed_str());
        go(&mut s.split_whitespace().collect::<Vec<_>>().into_iter().peekable())
    }
    let defs: Vec<(&str, &[&str], SX)> = defs.iter().map(|(n, p, b)| (*n, *p, parse(b))).collect();
    fn expand(s: &SX, env: &BTreeMap<&str, SX>, defs: &[(&'static str, &[&'static str], SX)]) -> Option<SX> {
        let args: Vec<SX> = s.1.iter().map(|x| expand(x, env, defs)).collect::<Option<_>>()?;
        if let Some(v) = env.get(s.0) {
            return args.is_empty().then(|| v.clone());
        }
        let arity = match s.0 {
            "U" | "Int" | "Bool" => 0,
            "L" => 1,
            "M" | "Array" => 2,
            _ => {
                let (i, d) = defs.iter().enumerate().find(|d| d.1 .0 == s.0)?;
                if d.1.len() != args.len() {
                    return None;
                }
                let env: BTreeMap<&str, SX> = d.1.iter().copied().zip(args).collect();
                return expand(&d.2, &env, &defs[..i]);
            }
        };
        (args.len() == arity).then_some(SX(s.0, args))
    }
    let heads = ["U", "Int", "L", "M", "Array", "A", "B", "C", "D", "E", "F", "G", "Q"];
    let mut all: Vec<SX> = heads.iter().map(|h| SX(h, vec![])).collect();
    let mut last = all.clone();
    for _ in 0..if thorough { 2 } else { 1 } {
        let small: Vec<SX> = last.iter().take(if thorough { 60 } else { 1000 }).cloned().collect();
        let mut next = vec![];
        for h in heads {
            for a in &small {
                next.push(SX(h, vec![a.clone()]));
                for b in &small {
                    next.push(SX(h, vec![a.clone(), b.clone()]));
                }
            }
        }
        // one more level of a few shapes
        let deep: Vec<SX> = next.iter().step_by(7).cloned().collect();
        for h in ["L", "B", "D", "E", "G"] {
            next.extend(deep.iter().map(|d| SX(h, vec![d.clone()])));
        }
        all.extend(next.iter().cloned());
        last = next.into_iter().step_by(11).collect();
    }
    let defs: Vec<(&'static str, &[&'static str], SX)> = defs;
    par(&all, |s| {
        let mut t = Tally::new();
        t.inc("sort_texts", 1);
                    t.inc("evaluations", 1);
        let txt = format!("{decls}(declare-const c {})(assert (= c c))", s.text());
        let want = expand(s, &BTreeMap::new(), &defs).map(|x| x.text());
        let got = guard(|| {
            let mut pool = PrimitivePool::new();
            let mut ps = Parser::new(&mut pool, Config::new(), txt.as_bytes()).ok()?;
            let p = ps.parse_problem().ok()?;
            match p.premises.first()?.as_ref() {
                Term::Op(_, a) => match a[0].as_ref() {
                    Term::Var(_, s) => Some(show(s)),
                    _ => None,
                },
                _ => None,
            }
        });
        match got {
            Err(p) => {
                rep.violation(&s.text(), &format!("panics: {p}"));
            }
            Ok(got) => {
                if got != want {
                    rep.violation(&s.text(), &format!("as a sort is {got:?}; its definition is {want:?}\n      {decls}"));
                }
                if want.is_some() {
                    t.distinct.insert(hash_of(&s.text()));
                }
            }
        }
        t.flush(rep);
    });
}

// ------------------------------------------------------------------------------------------------
// E. Commands

fn commands(rep: &Report) {
    let mut t = Tally::new();
    let bodies: Vec<(&str, &str)> = vec![("b", "Bool"), ("i", "Int"), ("r", "Real"), ("u", "U"), ("v2", "(_ BitVec 2)"), ("s", "String"), ("(= i 1)", "Bool"), ("(+ i 1)", "Int"), ("ar", "(Array Int U)")];
    let run = |txt: &str| {
        guard(|| {
            let mut pool = PrimitivePool::new();
            let mut ps = Parser::new(&mut pool, Config::new(), txt.as_bytes()).map_err(|e| e.to_string())?;
            let p = ps.parse_problem().map_err(|e| e.to_string())?;
            Ok::<_, String>(p.premises.iter().map(|x| show(x)).collect::<Vec<_>>())
        })
    };
    let mut case = |txt: String, want: Option<Vec<String>>| {
        t.inc("command_texts", 1);
                    t.inc("evaluations", 1);
        let key = txt.strip_prefix(SORTED).unwrap_or(&txt).to_string();
        match run(&txt) {
            Err(p) => {
                rep.violation(&key, &format!("panics: {p}"));
            }
            Ok(r) => {
                let got = r.ok();
                if got != want {
                    rep.violation(&key, &format!("gives the assertions {got:?}; it means {want:?}"));
                }
                if want.is_some() {
                    t.distinct.insert(hash_of(&key));
                }
            }
        }
    };
    for (b, s) in &bodies {
        let bool = *s == "Bool";
        case(format!("{SORTED}(assert {b})"), bool.then(|| vec![b.to_string()]));
        case(format!("{SORTED}(check-sat-assuming ({b}))"), bool.then(|| vec![b.to_string()]));
        case(format!("{SORTED}(check-sat-assuming (b {b}))"), bool.then(|| if *b == "b" { vec!["b".into()] } else { vec!["b".into(), b.to_string()] }));
        for (_, s2) in &bodies {
            case(format!("{SORTED}(define-fun d () {s2} {b})"), (s == s2).then(|| vec![format!("(= d {b})")]));
            case(format!("{SORTED}(define-fun d ((k Int)) {s2} {b})"), (s == s2).then(|| vec![format!("(= d (lambda ((k Int)) {b}))")]));
            case(format!("{SORTED}(define-fun-rec d () {s2} {b})"), (s == s2).then(|| vec![format!("(= d {b})")]));
            case(format!("{SORTED}(define-fun-rec d ((k Int)) {s2} {b})"), (s == s2).then(|| vec![format!("(forall ((k Int)) (= (d k) {b}))")]));
            case(
                format!("{SORTED}(define-funs-rec ((d ((k Int)) {s2}) (d2 () {s2})) (d2 {b}))"),
                (s == s2).then(|| vec![format!("(forall ((k Int)) (= (d k) d2))"), format!("(= d2 {b})")]),
            );
        }
        // recursive definitions see themselves, and their parameters
        case(
            format!("{SORTED}(define-fun-rec d ((i {s})) {s} (ite b i (d i)))"),
            Some(vec![format!("(forall ((i {s})) (= (d i) (ite b i (d i))))")]),
        );
    }
    // a name means its latest declaration in scope; later text cannot see parameters
    case(format!("{SORTED}(define-fun d ((k Int)) Int k)(assert (= k 1))"), None);
    case(format!("{SORTED}(define-fun-rec d ((k Int)) Int k)(assert (= k 1))"), None);
    case(format!("{SORTED}(assert (forall ((k Int)) (= k 1)))(assert (= k 1))"), None);
    case(format!("{SORTED}(assert (let ((k 1)) (= k 1)))(assert (= k 1))"), None);
    case(format!("{SORTED}(define-fun d () Int d)"), None);
    case(format!("{SORTED}(assert (let ((k 1) (l k)) b))"), None);
    case(format!("{SORTED}(assert (! (= i 1) :named n))(assert (not n))"), Some(vec!["(= i 1)".into(), "(not (= i 1))".into()]));
    t.flush(rep);
}

/// Step names: every sequence of commands over two names.
#[derive(Clone, Copy, Debug)]
enum Cmd {
    Assume(char),
    Step(char, Option<char>),
    Anchor(char),
}

fn steps(rep: &Report, thorough: bool) {
    let alphabet = {
        let mut v = vec![];
        for n in ['a', 'b'] {
            v.push(Cmd::Assume(n));
            v.push(Cmd::Anchor(n));
            for p in [None, Some('a'), Some('b')] {
                v.push(Cmd::Step(n, p));
            }
        }
        v.push(Cmd::Step('c', Some('a')));
        v.push(Cmd::Step('c', Some('b')));
        v.push(Cmd::Step('c', None));
        v
    };
    let mut seqs: Vec<Vec<Cmd>> = (1..=if thorough { 6 } else { 5 }).flat_map(|n| tuples(&alphabet, n)).collect();
    seqs.retain(|s| s.iter().filter(|c| matches!(c, Cmd::Anchor(_))).count() <= 2);
    let decls = "(declare-const p Bool)";
    let chunks: Vec<&[Vec<Cmd>]> = seqs.chunks(seqs.len().div_ceil(64)).collect();
    par(&chunks, |ch| {
        let mut t = Tally::new();
        for s in ch.iter() {
            t.inc("step_name_texts", 1);
                    t.inc("evaluations", 1);
            let txt: String = s
                .iter()
                .enumerate()
                .map(|(i, c)| match c {
                    Cmd::Assume(n) => format!("(assume {n} (= {i} {i}))\n"),
                    Cmd::Step(n, None) => format!("(step {n} (cl (= {i} {i})) :rule r)\n"),
                    Cmd::Step(n, Some(p)) => format!("(step {n} (cl (= {i} {i})) :rule r :premises ({p}))\n"),
                    Cmd::Anchor(n) => format!("(anchor :step {n})\n"),
                })
                .collect();
            // reference: the expected (command, premise) pairs by number, or None if rejected
            #[derive(PartialEq)]
            enum W {
                Ok,
                Bad,
                Open,
            }
            let mut want = W::Ok;
            let mut scopes: Vec<(Vec<(char, usize)>, char, bool)> = vec![(vec![], ' ', false)];
            let mut closed: Vec<char> = vec![];
            let mut links: Vec<(usize, usize)> = vec![];
            for (i, c) in s.iter().enumerate() {
                let visible = |scopes: &[(Vec<(char, usize)>, char, bool)], n: char| {
                    scopes.iter().rev().flat_map(|s| s.0.iter().rev()).find(|x| x.0 == n).map(|x| x.1)
                };
                match *c {
                    Cmd::Anchor(n) => {
                        // the name of a subproof that is already in use can never be given to its end
                        scopes.push((vec![], n, false));
                        continue;
                    }
                    Cmd::Assume(n) | Cmd::Step(n, _) => {
                        if let Cmd::Step(_, Some(p)) = c {
                            match visible(&scopes, *p) {
                                Some(k) => links.push((i, k)),
                                None => want = W::Bad,
                            }
                        }
                        let top = scopes.last_mut().unwrap();
                        if matches!(c, Cmd::Assume(_)) && top.2 && scopes.len() > 1 {
                            want = W::Bad;
                        }
                        if matches!(c, Cmd::Step(..)) {
                            scopes.last_mut().unwrap().2 = true;
                        }
                        if visible(&scopes, n).is_some() {
                            want = W::Bad;
                        }
                        if want == W::Ok && closed.contains(&n) {
                            // a name from a closed subproof is used again
                            want = W::Open;
                        }
                        if scopes.len() > 1 && scopes.last().unwrap().1 == n {
                            let (inner, _, _) = scopes.pop().unwrap();
                            if inner.is_empty() || matches!(c, Cmd::Assume(_)) {
                                want = W::Bad;
                            }
                            closed.extend(inner.iter().map(|x| x.0));
                            scopes.last_mut().unwrap().0.push((n, i));
                        } else {
                            scopes.last_mut().unwrap().0.push((n, i));
                        }
                    }
                }
                if want == W::Bad {
                    break;
                }
            }
            if scopes.len() > 1 && want == W::Ok {
                want = W::Bad;
            }
            if want == W::Open {
                continue;
            }
            let got = guard(|| {
                let mut pool = PrimitivePool::new();
                let mut ps = Parser::new(&mut pool, Config::new(), decls.as_bytes()).map_err(|e| e.to_string())?;
                ps.parse_problem().map_err(|e| e.to_string())?;
                ps.reset(unsafe_static(&txt)).map_err(|e| e.to_string())?;
                ps.parse_proof().map_err(|e| e.to_string())
            });
            match got {
                Err(p) => {
                    rep.violation(&txt, &format!("panics: {p}"));
                }
                Ok(Err(e)) => {
                    if want == W::Ok {
                        rep.violation(&txt, &format!("is well-formed, but rejected: {e}"));
                    }
                }
                Ok(Ok(p)) => {
                    if want == W::Bad {
                        rep.violation(&txt, "is accepted, although a name is repeated, invisible or misplaced");
                        continue;
                    }
                    t.distinct.insert(hash_of(&txt));
                    let mut found = vec![];
                    resolve(&mut vec![&p.commands], &mut found);
                    found.sort();
                    if found != links {
                        rep.violation(&txt, &format!("the premises are read as {found:?} (command, premise), they are {links:?}"));
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// The number of a command, which its conclusion carries.
fn number(c: &ProofCommand) -> usize {
    let t = match c {
        ProofCommand::Assume { term, .. } => term,
        ProofCommand::Step(s) => &s.clause[0],
        ProofCommand::Subproof(s) => return number(s.commands.last().unwrap()),
    };
    match t.as_ref() {
        Term::Op(_, a) => a[0].as_integer().unwrap().to_usize().unwrap(),
        _ => unreachable!(),
    }
}

fn resolve<'a>(stack: &mut Vec<&'a [ProofCommand]>, out: &mut Vec<(usize, usize)>) {
    for c in *stack.last().unwrap() {
        match c {
            ProofCommand::Step(s) => {
                for (d, i) in &s.premises {
                    out.push((number(c), number(&stack[*d][*i])));
                }
            }
            ProofCommand::Subproof(s) => {
                stack.push(&s.commands);
                resolve(stack, out);
                stack.pop();
            }
            _ => {}
        }
    }
}

/// The variables of anchors are visible in their subproof only.
fn anchors(rep: &Report) {
    let mut t = Tally::new();
    let decls = "(declare-sort U 0)(declare-sort V 0)(declare-const x U)(declare-fun c () V)";
    // each anchor binds nothing, x or z; each step mentions a name, whose expected sort is known
    let args = [("", None), (":args ((x V))", Some(("x", "V"))), (":args ((z U))", Some(("z", "U"))), (":args ((:= (x V) c))", Some(("x", "V"))), (":args ((:= x c))", Some(("x", "V")))];
    for (a1, b1) in args {
        for (a2, b2) in args {
            for nested in [false, true] {
                for at in 0..5 {
                    for name in ["x", "z"] {
                        let st = |i: usize| {
                            let n = if i == at { name } else { "c" };
                            format!("(step s{i} (cl (= {n} {n})) :rule r)\n")
                        };
                        let txt = if nested {
                            format!("{}(anchor :step t1 {a1})\n{}(anchor :step t2 {a2})\n{}(step t2 (cl (= c c)) :rule r)\n{}(step t1 (cl (= c c)) :rule r)\n{}", st(0), st(1), st(2), st(3), st(4))
                        } else {
                            format!("{}(anchor :step t1 {a1})\n{}(step t1 (cl (= c c)) :rule r)\n{}(anchor :step t2 {a2})\n{}(step t2 (cl (= c c)) :rule r)\n{}", st(0), st(1), st(2), st(3), st(4))
                        };
                        let mut env: Vec<(&str, &str)> = vec![("x", "U")];
                        let open: &[Option<(&str, &str)>] = match (nested, at) {
                            (_, 0) | (_, 4) => &[],
                            (true, 1 | 3) | (false, 1) => &[b1],
                            (true, _) => &[b1, b2],
                            (false, 2) => &[],
                            (false, _) => &[b2],
                        };
                        env.extend(open.iter().flatten());
                        let want = env.iter().rev().find(|x| x.0 == name).map(|x| x.1.to_string());
                        t.inc("anchor_texts", 1);
                    t.inc("evaluations", 1);
                        let got = guard(|| {
                            let mut pool = PrimitivePool::new();
                            let mut ps = Parser::new(&mut pool, Config::new(), decls.as_bytes()).ok()?;
                            ps.parse_problem().ok()?;
                            ps.reset(unsafe_static(&txt)).ok()?;
                            let p = ps.parse_proof().ok()?;
                            fn find(c: &[ProofCommand], id: &str) -> Option<String> {
                                c.iter().find_map(|c| match c {
                                    ProofCommand::Step(s) if s.id == id => match s.clause[0].as_ref() {
                                        Term::Op(_, a) => match a[0].as_ref() {
                                            Term::Var(_, s) => Some(show(s)),
                                            _ => None,
                                        },
                                        _ => None,
                                    },
                                    ProofCommand::Subproof(s) => find(&s.commands, id),
                                    _ => None,
                                })
                            }
                            find(&p.commands, &format!("s{at}"))
                        });
                        match got {
                            Err(p) => {
                                rep.violation(&txt, &format!("panics: {p}"));
                            }
                            Ok(got) => {
                                if got != want {
                                    rep.violation(&txt, &format!("{name} has the sort {got:?} in s{at}; it is {want:?}"));
                                }
                                if want.is_some() {
                                    t.distinct.insert(hash_of(&txt));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    t.flush(rep);
}

/// Unknown attributes of terms, assumptions, steps and anchors have no meaning: every sequence of
/// them, with every kind of value, gives the same problem and proof as no attribute.
fn attributes(rep: &Report, thorough: bool) {
    let values = ["", " x", " |a b|", " 1", " 1.5", " #b0", " \"s\"", " let", " (a)", " ()", " (a (b :c) \")\" |)|)", " ((_ a 1))"];
    let mut attrs: Vec<String> = vec![];
    for n in [":foo", ":premises-of"] {
        for v in values {
            attrs.push(format!("{n}{v}"));
        }
    }
    attrs.push(":pattern ((= i 1))".into());
    let seqs: Vec<Vec<String>> = (0..=if thorough { 3 } else { 2 }).flat_map(|n| tuples(&attrs, n)).collect();
    let want = |p: &str, q: &str| {
        let mut pool = PrimitivePool::new();
        let r = crate::print::read(&mut pool, Config::new(), p, q).unwrap().unwrap();
        (r.0.premises.iter().map(|x| show(x)).collect::<Vec<_>>(), crate::print::print(&mut pool, &r, false).unwrap())
    };
    const PROOF: &str = "(assume h1 b@)(step t1 (cl b (= i 1)) :rule hole :premises (h1) :args (1)@)(anchor :step t2 :args ((k Int))@)(assume h2 (= k 1)@)(step t2.t1 (cl (= k 1)) :rule hole@)\
        (step t2 (cl (not (= k 1)) b) :rule subproof :discharge (h2)@)(step t3 (cl) :rule hole :premises (t1 t2)@)";
    let base = want(&format!("{SORTED}(assert b)(assert (or b (= i 1)))"), &PROOF.replace('@', ""));
    par(&seqs, |seq| {
        let mut t = Tally::new();
        let mut case = |problem: &str, proof: &str| {
            t.inc("attribute_texts", 1);
            t.inc("evaluations", 1);
            let key = format!("{} | {proof}", problem.strip_prefix(SORTED).unwrap_or(problem));
            rep.case(|| key.clone());
            let mut pool = PrimitivePool::new();
            match crate::print::read(&mut pool, Config::new(), problem, proof) {
                Err(p) => rep.violation(&key, &format!("panics: {p}")),
                Ok(Err(e)) => rep.violation(&key, &format!("is rejected: {e}")),
                Ok(Ok(r)) => {
                    t.distinct.insert(hash_of(&key));
                    let got = (r.0.premises.iter().map(|x| show(x)).collect::<Vec<_>>(), crate::print::print(&mut pool, &r, false).unwrap_or_default());
                    if got != base {
                        rep.violation(&key, &format!("gives {got:?}; without the attributes it is {base:?}"));
                    }
                }
            }
        };
        let suffix: String = seq.iter().map(|a| format!(" {a}")).collect();
        let plain = format!("{SORTED}(assert b)(assert (or b (= i 1)))");
        let places = PROOF.matches('@').count();
        for at in 0..places {
            let mut n = 0;
            let proof: String = PROOF.split('@').map(|x| { n += 1; if n - 1 == at { format!("{x}{suffix}") } else { x.to_string() } }).collect();
            case(&plain, &proof);
        }
        if !seq.is_empty() {
            let none = PROOF.replace('@', "");
            case(&format!("{SORTED}(assert (! b{suffix}))(assert (or b (! (= i 1){suffix})))"), &none);
            case(&format!("{SORTED}(assert b)(assert (or b (= (! i{suffix}) 1)))"), &none);
            // a name among them names the term
            case(&format!("{SORTED}(assert (! b{suffix} :named nm))(assert (or nm (= i 1)))"), &none);
            case(&format!("{SORTED}(assert (! b :named nm{suffix}))(assert (or nm (= i 1)))"), &none);
            case(&plain, &none.replacen("(= k 1)", &format!("(! (= k 1){suffix})"), 1));
        }
        t.flush(rep);
    });
}

pub fn run(rep: &Report, thorough: bool) {
    attributes(rep, thorough);
    names(rep, thorough);
    sorts(rep, thorough);
    logics(rep);
    literals(rep, thorough);
    symbols(rep, thorough);
    sort_defs(rep, thorough);
    commands(rep);
    steps(rep, thorough);
    anchors(rep);
}
