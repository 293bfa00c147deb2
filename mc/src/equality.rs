//! Term equality (C20): every pair of terms of small universes under every comparison mode, and
//! every order of building terms in every mixture of pools.
use crate::core::*;
use crate::names::{nameless, Scope};
use crate::rules::Tally;
use crate::sem::*;
use carcara::ast::pool::advanced::{ContextPool, LocalPool};
use carcara::ast::*;
use std::collections::HashMap;
use std::sync::Arc;

pub struct Group {
    pub name: &'static str,
    pub decls: &'static str,
    pub texts: Vec<String>,
    pub direct: fn(&mut Env) -> Vec<T>,
    pub doms: Vec<Doms>,
}

fn none(_: &mut Env) -> Vec<T> {
    vec![]
}

/// Every application of `op` to 1 to 3 leaves, and every nesting of two binary (or unary)
/// applications.
fn trees(ops: &[&str], leaves: &[&str]) -> Vec<String> {
    let mut out: Vec<String> = leaves.iter().map(|s| s.to_string()).collect();
    for op in ops {
        for a in leaves {
            out.push(format!("({op} {a})"));
            for b in leaves {
                out.push(format!("({op} {a} {b})"));
                out.push(format!("({op} ({op} {a}) {b})"));
                out.push(format!("({op} {a} ({op} {b}))"));
                out.push(format!("({op} ({op} {a} {b}))"));
                for c in leaves {
                    out.push(format!("({op} {a} {b} {c})"));
                    out.push(format!("({op} ({op} {a} {b}) {c})"));
                    out.push(format!("({op} {a} ({op} {b} {c}))"));
                }
            }
        }
        // four operands, in the order of the leaves and reversed
        let l = |i: usize| leaves[i % leaves.len()];
        for (a, b, c, d) in [(0, 1, 2, 0), (0, 0, 1, 1), (2, 1, 0, 0)] {
            let (a, b, c, d) = (l(a), l(b), l(c), l(d));
            out.push(format!("({op} {a} {b} {c} {d})"));
            out.push(format!("({op} ({op} ({op} {a} {b}) {c}) {d})"));
            out.push(format!("({op} {a} ({op} {b} ({op} {c} {d})))"));
            out.push(format!("({op} ({op} {a} {b} {c}) {d})"));
            out.push(format!("({op} {a} ({op} {b} {c} {d}))"));
            out.push(format!("({op} ({op} {a} {b}) ({op} {c} {d}))"));
            out.push(format!("({op} ({op} {a} {b}) {c} {d})"));
        }
    }
    out
}

fn numbers(env: &mut Env) -> Vec<T> {
    use rug::{Integer, Rational};
    let mut out = Vec::new();
    for i in [-2i64, -1, 0, 1, 2] {
        out.push(env.pool.add(Term::new_int(Integer::from(i))));
        for d in [1i64, 2] {
            out.push(env.pool.add(Term::new_real(Rational::from((i, d)))));
        }
    }
    let base = out.clone();
    for a in &base {
        out.push(env.op(Operator::Sub, vec![a.clone()]));
    }
    for a in &base {
        for b in &base {
            let same = env.pool.sort(a) == env.pool.sort(b);
            if same {
                let q = env.op(Operator::RealDiv, vec![a.clone(), b.clone()]);
                out.push(q.clone());
                out.push(env.op(Operator::Sub, vec![q]));
                let n = env.op(Operator::Sub, vec![a.clone()]);
                out.push(env.op(Operator::RealDiv, vec![n, b.clone()]));
            }
        }
    }
    out
}

pub fn groups(thorough: bool) -> Vec<Group> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut small = Doms::std();
    small.int = vec![0, 1, -1, 2, 5];
    let mut out = vec![
        Group {
            name: "numbers",
            decls: "(declare-const i Int)(declare-const a Real)",
            texts: s(&["i", "a", "(- i)", "(- a)", "(/ a a)", "(/ a 1.0)", "(to_real 1)", "(to_real (- 1))", "(to_int 1.5)", "(/ 1.0 2.0 2.0)", "(/ 1.0 (/ 1.0 2.0))", "(- 2 1)", "(- 1 2)", "(+ 1)", "(+ 1 0)", "(* 1 1)", "(- (- 1))", "(abs (- 1))", "(div 2 1)", "(mod 1 2)"]),
            direct: numbers,
            doms: vec![small.clone()],
        },
        Group { name: "int", decls: "(declare-const i Int)(declare-const j Int)", texts: trees(&["+", "-", "*", "div"], &["i", "j", "2"]), direct: none, doms: vec![small.clone()] },
        Group { name: "bool", decls: "(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)", texts: trees(&["and", "or", "xor", "=>"], &["p", "q", "r"]), direct: none, doms: vec![small.clone()] },
        Group {
            name: "equalities",
            decls: "(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)",
            texts: {
                let mut v = trees(&["=", "distinct"], &["p", "q", "r"]);
                for a in ["p", "q", "r"] {
                    for b in ["p", "q", "r"] {
                        for o in ["=", "distinct"] {
                            v.push(format!("(not ({o} {a} {b}))"));
                            for c in ["p", "q", "r"] {
                                for d in ["p", "q", "r"] {
                                    if thorough || b == c || a == c {
                                        v.push(format!("(and ({o} {a} {b}) ({o} {c} {d}))"));
                                    }
                                }
                                v.push(format!("(and ({o} {a} {b}))"));
                                v.push(format!("(and ({o} {a} {b}) ({o} {a} {c}) ({o} {b} {c}))"));
                                v.push(format!("(or ({o} {a} {b}) ({o} {b} {c}))"));
                            }
                        }
                    }
                }
                v
            },
            direct: none,
            doms: vec![small.clone()],
        },
        Group {
            name: "comparisons",
            decls: "(declare-const i Int)(declare-const j Int)(declare-const k Int)",
            texts: {
                let mut v = Vec::new();
                let l = ["i", "j", "k"];
                for o in ["<", "<=", ">", ">=", "=", "distinct"] {
                    for a in l {
                        for b in l {
                            v.push(format!("({o} {a} {b})"));
                            for c in l {
                                v.push(format!("({o} {a} {b} {c})"));
                                v.push(format!("(and ({o} {a} {b}) ({o} {b} {c}))"));
                                v.push(format!("(and ({o} {a} {b}) ({o} {a} {c}))"));
                                if o != "=" {
                                    v.push(format!("(and ({o} {a} {b}) (= {b} {c}))"));
                                }
                            }
                        }
                    }
                }
                v
            },
            direct: none,
            doms: vec![small.clone()],
        },
        Group {
            name: "strings",
            decls: "(declare-const s String)(declare-const t String)",
            texts: {
                let mut v = trees(&["str.++"], if thorough { &["s", "t", "\"\"", "\"a\"", "\"ab\"", "\"b\"", "\"\\u{e9}\""] } else { &["s", "t", "\"\"", "\"a\"", "\"ab\""] });
                for o in ["str.prefixof", "str.<", "=", "str.<=", "str.contains"] {
                    for a in ["s", "\"a\"", "(str.++ s \"a\")", "(str.++ \"a\" \"b\")", "\"ab\""] {
                        for b in ["s", "t", "\"b\"", "(str.++ \"b\" s)"] {
                            v.push(format!("({o} {a} {b})"));
                        }
                    }
                }
                v.extend(s(&["(str.++ \"\\u{e9}\" s)", "(str.++ \"\\u{e9}a\" s)", "(str.++ \"\\u{e9}\" \"a\" s)", "(str.++ \"a\" \"\\u{e9}\" s)", "\"\\u{e9}a\"", "(str.replace s \"a\" t)", "(str.replace s \"\" \"at\")", "(str.substr s 0 1)", "(str.len (str.++ s \"a\"))", "(str.len s)", "(str.len \"a\")"]));
                v
            },
            direct: none,
            doms: vec![Doms::std()],
        },
        Group { name: "bit vectors", decls: "(declare-const v (_ BitVec 2))(declare-const w (_ BitVec 2))(declare-const b1 (_ BitVec 1))", texts: {
            let mut v = trees(&["bvadd", "bvsub", "bvmul", "bvand", "bvxnor", "bvor"], &["v", "w"]);
            v.extend(trees(&["concat"], &["v", "b1"]));
            v.extend(s(&["#b01", "#b10", "(_ bv1 2)", "((_ extract 1 0) v)", "((_ extract 1 1) v)", "((_ extract 0 0) v)", "((_ zero_extend 1) v)", "((_ sign_extend 1) v)", "((_ rotate_left 1) v)", "((_ rotate_right 1) v)", "((_ @bit_of 0) v)", "((_ @bit_of 1) v)", "(= v w)", "(= w v)", "(bvult v w)", "(bvult w v)", "(bvcomp v w)", "(bvcomp w v)"]));
            v
        }, direct: none, doms: vec![Doms::std()] },
        Group {
            name: "sorts",
            decls: "(declare-sort U 0)(declare-sort V 0)(declare-const p Bool)(declare-const x U)(declare-const arr (Array Int Bool))(declare-fun PU (U) Bool)(declare-fun PV (V) Bool)",
            texts: s(&["(forall ((x U)) p)", "(forall ((x V)) p)", "(forall ((y U)) p)", "(exists ((x U)) p)", "(forall ((x U) (y V)) p)", "(forall ((x V) (y U)) p)", "(forall ((x U)) (forall ((y V)) p))", "(forall ((x U)) (PU x))", "(forall ((y U)) (PU y))", "(forall ((y V)) (PV y))", "(forall ((y V)) (PU x))", "(exists ((x U) (y V)) (PV y))", "(exists ((y V) (x U)) (PV y))", "(= ((as const (Array Int Bool)) true) arr)", "(= ((as const (Array Int Bool)) false) arr)", "(select arr 0)", "(select arr 1)", "(let ((x p)) x)", "(let ((y p)) y)", "(let ((x p)) p)", "p"]),
            direct: none,
            doms: vec![Doms::std(), Doms::std().with_u(1)],
        },
    ];
    // binders
    let ts = crate::names::terms(false);
    for (i, l) in ts.iter().enumerate().skip(1) {
        let n = if thorough { 900 } else { 350 };
        let step = (l.len() / n).max(1);
        let mut texts: Vec<String> = l.iter().step_by(step).cloned().collect();
        if i == 1 {
            for q in ["forall", "exists"] {
                for (v, w) in [("x", "y"), ("y", "x"), ("z", "x"), ("x", "z")] {
                    texts.push(format!("({q} (({v} U) ({w} U)) (= {v} {w}))"));
                    texts.push(format!("({q} (({v} U) ({w} U)) (= {w} {v}))"));
                    texts.push(format!("({q} (({v} U)) ({q} (({w} U)) (= {w} {v})))"));
                    texts.push(format!("({q} (({v} U)) (= {v} {w}))"));
                    texts.push(format!("({q} (({v} U)) (= {w} {v}))"));
                    texts.push(format!("(and ({q} (({v} U)) (R {v} {w})) ({q} (({w} U)) (R {v} {w})))"));
                    texts.push(format!("(and ({q} (({v} U) ({w} U)) (R {v} {w})) ({q} (({v} U) ({w} U)) (R {v} {w})))"));
                    texts.push(format!("(and ({q} (({v} U) ({w} U)) (R {v} {w})) ({q} (({w} U) ({v} U)) (R {v} {w})))"));
                    texts.push(format!("({q} (({v} U)) (and (P {v}) ({q} (({v} U)) (P {v}))))"));
                    texts.push(format!("({q} (({v} U)) (and (P {v}) ({q} (({w} U)) (P {v}))))"));
                    texts.push(format!("({q} (({v} U)) (and (P {v}) ({q} (({w} U)) (P {w}))))"));
                    texts.push(format!("(= ({q} (({v} U)) (P {v})) (P {w}))"));
                    texts.push(format!("(= (P {w}) ({q} (({v} U)) (P {v})))"));
                    texts.push(format!("({q} (({v} U)) (P (choice (({w} U)) (R {v} {w}))))"));
                }
            }
        }
        out.push(Group { name: ["", "binders", "sorted binders", "nested binders", "nested choice"][i], decls: crate::names::DECLS, texts, direct: none, doms: vec![Doms::std(), Doms::std().with_u(1)] });
    }
    out
}

fn modes() -> Vec<(String, [bool; 4])> {
    (0..16u32)
        .map(|m| {
            let b = [m & 1 != 0, m & 2 != 0, m & 4 != 0, m & 8 != 0];
            let n = ["reordering", "alpha", "nary", "concat"];
            let v: Vec<&str> = (0..4).filter(|&i| b[i]).map(|i| n[i]).collect();
            (if v.is_empty() { "plain".into() } else { v.join("+") }, b)
        })
        .collect()
}

pub fn compare(m: [bool; 4], a: &T, b: &T) -> bool {
    Polyeq::new().mod_reordering(m[0]).alpha_equiv(m[1]).mod_nary(m[2]).mod_string_concat(m[3]).eq(a, b)
}

/// Whether `a` and `b` are identical except for the order of the arguments of binary equalities.
fn reordered(a: &D2, b: &D2) -> bool {
    a == b
}
type D2 = String;

pub fn run_pairs(rep: &Report, thorough: bool) {
    let gs = groups(thorough);
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for i in 0..gs.len() {
        for k in 0..8 {
            jobs.push((i, k));
        }
    }
    par(&jobs, |&(gi, part)| {
        let g = &gs[gi];
        let mut t = Tally::new();
        let mut env = Env::new(g.decls);
        let mut terms: Vec<T> = Vec::new();
        for x in &g.texts {
            match env.try_terms(&[x]) {
                Ok(v) => {
                    for y in v {
                        if !terms.contains(&y) {
                            terms.push(y)
                        }
                    }
                }
                Err(_) => t.inc("texts_rejected", 1),
            }
        }
        for y in (g.direct)(&mut env) {
            if !terms.contains(&y) {
                terms.push(y);
            }
        }
        if part == 0 {
            t.inc("terms", terms.len() as u64);
        }
        let names: Vec<_> = terms.iter().map(|x| nameless(x, &Scope::default())).collect();
        let modes = modes();
        for i in 0..terms.len() {
            if i % 8 != part {
                continue;
            }
            for j in 0..terms.len() {
                let (a, b) = (&terms[i], &terms[j]);
                let mut verdict: Option<Option<String>> = None;
                rep.case(|| format!("{} and {}", show(a), show(b)));
                for (mn, m) in &modes {
                    t.inc("evaluations", 1);
                    let same = match guard(|| compare(*m, a, b)) {
                        Ok(s) => s,
                        Err(p) => {
                            rep.violation(&format!("{mn}: {} / {}", show(a), show(b)), &format!("panics: {p}"));
                            continue;
                        }
                    };
                    if same && i != j {
                        t.distinct.insert(hash_of(&(show(a), show(b))));
                        t.inc(&format!("equal_{mn}"), 1);
                        if names[i] == names[j] {
                            t.inc("alpha_equal_pairs", 1);
                            if !m[1] {
                                // different names, but compared without alpha-equivalence
                                rep.violation(&format!("{mn}: {} / {}", show(a), show(b)), "bound names are ignored");
                            }
                            continue;
                        }
                        if !m[0] && !m[2] && !m[3] && is_pure(a) && is_pure(b) {
                            rep.violation(&format!("{mn}: {} / {}", show(a), show(b)), "not alpha-equivalent");
                            continue;
                        }
                        let v = verdict.get_or_insert_with(|| {
                            let e = env.eq(a, b);
                            let r = falsify(&[], &[e], &g.doms, 40000);
                            t.inc("interpretations_evaluated", r.interps);
                            if r.decided == 0 {
                                t.inc("undecided", 1);
                                if std::env::var("MC_UNDEC").is_ok() {
                                    eprintln!("undecided {} {}", show(a), show(b));
                                }
                            }
                            r.counter
                        });
                        if let Some(c) = v {
                            rep.violation(&format!("{mn}: {} / {}", show(a), show(b)), &format!("they differ in {c}"));
                        }
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// Whether a term has no numbers (which are compared modulo their notation).
fn is_pure(t: &T) -> bool {
    let s = show(t);
    !s.chars().any(|c| c.is_ascii_digit())
}

/// Completeness of alpha-equivalence: alpha-equivalent terms are recognized.
pub fn run_alpha(rep: &Report, thorough: bool) {
    let gs: Vec<Group> = groups(thorough).into_iter().filter(|g| g.decls == crate::names::DECLS || g.name == "sorts").collect();
    par(&gs, |g| {
        let mut t = Tally::new();
        let mut env = Env::new(g.decls);
        let mut classes: HashMap<_, Vec<T>> = HashMap::new();
        for x in &g.texts {
            if let Ok(v) = env.try_terms(&[x]) {
                for y in v {
                    classes.entry(nameless(&y, &Scope::default())).or_default().push(y);
                }
            }
        }
        for c in classes.values() {
            for a in c {
                for b in c {
                    t.inc("evaluations", 1);
                    t.inc("alpha_pairs", 1);
                    let e = env.eq(a, b);
                    let s = Spec { rule: "refl".into(), premises: vec![], clause: vec![e], args: vec![] };
                    let boolean = true;
                    if boolean && !check_spec(&mut env, &s, &carcara::checker::Config::new()).ok() {
                        rep.violation(&s.key(), "the two sides only differ in the names of bound variables");
                    }
                }
            }
        }
        t.flush(rep);
    });
}

// ------------------------------------------------------------------------------------------------
// Pools

/// A small universe of terms, as (constructor, children).
fn universe() -> Vec<(&'static str, Vec<usize>)> {
    vec![
        ("Int", vec![]),          // 0
        ("Bool", vec![]),         // 1
        ("var x", vec![0]),       // 2
        ("var p", vec![1]),       // 3
        ("int 1", vec![]),        // 4
        ("+", vec![2, 4]),        // 5
        ("<", vec![5, 2]),        // 6
        ("forall x", vec![0, 6]), // 7
        ("and", vec![3, 7]),      // 8
        ("fsort", vec![0, 1]),    // 9
        ("var f", vec![9]),       // 10
        ("app", vec![10, 2]),     // 11
        ("let x", vec![4, 11]),   // 12
        ("choice x", vec![0, 11]),// 13
        ("bvsort", vec![]),       // 14
        ("var v", vec![14]),      // 15
        ("concat", vec![15, 15]), // 16
        ("lambda x", vec![0, 11]),// 17
    ]
}

fn make(c: &str, ch: &[T]) -> Term {
    match c {
        "Int" => Term::Sort(Sort::Int),
        "Bool" => Term::Sort(Sort::Bool),
        "bvsort" => Term::Sort(Sort::BitVec(3)),
        "fsort" => Term::Sort(Sort::Function(ch.to_vec())),
        "int 1" => Term::new_int(1),
        "+" => Term::Op(Operator::Add, ch.to_vec()),
        "<" => Term::Op(Operator::LessThan, ch.to_vec()),
        "and" => Term::Op(Operator::And, ch.to_vec()),
        "concat" => Term::Op(Operator::BvConcat, ch.to_vec()),
        "app" => Term::App(ch[0].clone(), ch[1..].to_vec()),
        "forall x" => Term::Binder(Binder::Forall, BindingList(vec![("x".into(), ch[0].clone())]), ch[1].clone()),
        "choice x" => Term::Binder(Binder::Choice, BindingList(vec![("x".into(), ch[0].clone())]), ch[1].clone()),
        "lambda x" => Term::Binder(Binder::Lambda, BindingList(vec![("x".into(), ch[0].clone())]), ch[1].clone()),
        "let x" => Term::Let(BindingList(vec![("x".into(), ch[0].clone())]), ch[1].clone()),
        v => Term::new_var(v.strip_prefix("var ").unwrap(), ch[0].clone()),
    }
}

fn show_ops(ops: &[(usize, usize)]) -> String {
    let u = universe();
    ops.iter().map(|(p, t)| format!("{} in {}", u[*t].0, ["the shared pool", "thread 1's pool", "thread 2's pool"][*p])).collect::<Vec<_>>().join("; ")
}

fn build(i: usize, pool: &mut dyn TermPool, u: &[(&str, Vec<usize>)], table: &mut HashMap<usize, T>, fresh: bool, bad: &mut Vec<String>) -> T {
    if !fresh {
        if let Some(t) = table.get(&i) {
            return t.clone();
        }
    }
    let ch: Vec<T> = u[i].1.iter().map(|&c| build(c, pool, u, table, fresh, bad)).collect();
    let t = pool.add(make(u[i].0, &ch));
    match table.get(&i) {
        Some(o) if *o != t => bad.push(format!("{} has two representations", u[i].0)),
        Some(_) => {}
        None => {
            table.insert(i, t.clone());
        }
    }
    t
}

pub fn run_pools(rep: &Report, thorough: bool) {
    let u = universe();
    // what the main pool holds when the threads start: nothing, or the parts of the problem
    let preloads: Vec<Vec<usize>> = vec![vec![], vec![0, 1], vec![2, 3, 4], vec![6], vec![10, 14], vec![12, 8]];
    let targets: Vec<usize> = if thorough { (2..u.len()).collect() } else { vec![2, 5, 7, 8, 11, 12, 13, 16, 17] };
    let mut firsts: Vec<(usize, (usize, usize))> = Vec::new();
    for pl in 0..preloads.len() {
        for p in 0..3 {
            for &t in &targets {
                firsts.push((pl, (p, t)));
            }
        }
    }
    par(&firsts, |&(pl, first)| {
        let mut t = Tally::new();
        let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![first]];
        for depth in 1..3 {
            let mut next = Vec::new();
            for s in &seqs {
                if s.len() == depth {
                    for p in 0..3 {
                        for &x in &targets {
                            let mut s2 = s.clone();
                            s2.push((p, x));
                            next.push(s2);
                        }
                    }
                }
            }
            seqs.extend(next);
        }
        for s in &seqs {
            for fresh in [true, false] {
                t.inc("evaluations", 1);
                t.inc("pool_histories", 1);
                let mut table: HashMap<usize, T> = HashMap::new();
                let mut bad: Vec<String> = Vec::new();
                let r = guard(|| {
                    let mut global = PrimitivePool::new();
                    for &x in &preloads[pl] {
                        build(x, &mut global, &u, &mut table, false, &mut bad);
                    }
                    let global = Arc::new(global);
                    let ctx = ContextPool::from_global(&global);
                    let mut l1 = LocalPool::from_previous(&ctx);
                    let mut l2 = LocalPool::from_previous(&ctx);
                    let mut shared = ContextPool::from_previous(&ctx);
                    for &(p, x) in s {
                        let pool: &mut dyn TermPool = match p {
                            0 => &mut shared,
                            1 => &mut l1,
                            _ => &mut l2,
                        };
                        build(x, pool, &u, &mut table, fresh, &mut bad);
                    }
                    // sorts and free variables, as seen from every pool
                    for (i, term) in &table {
                        let mut seen: Vec<(T, Vec<T>)> = Vec::new();
                        for p in 0..3 {
                            let pool: &mut dyn TermPool = match p {
                                0 => &mut shared,
                                1 => &mut l1,
                                _ => &mut l2,
                            };
                            let sort = pool.sort(term);
                            let fv: Vec<T> = pool.free_vars(term).into_iter().collect();
                            if !matches!(term.as_ref(), Term::Sort(_)) {
                                let want = match u[*i].0 {
                                    "+" | "int 1" | "var x" | "choice x" => "Int",
                                    "var v" => "(_ BitVec 3)",
                                    "concat" => "(_ BitVec 6)",
                                    "var f" | "lambda x" => "",
                                    _ => "Bool",
                                };
                                if !want.is_empty() && show(&sort) != want {
                                    bad.push(format!("the sort of {} is {}", u[*i].0, show(&sort)));
                                }
                            }
                            let names: Vec<String> = fv.iter().map(|v| v.as_var().unwrap_or("?").to_string()).collect();
                            let mut want: Vec<&str> = match u[*i].0 {
                                "var x" | "+" | "<" => vec!["x"],
                                "var p" | "and" => vec!["p"],
                                "var f" | "let x" | "choice x" | "lambda x" => vec!["f"],
                                "app" => vec!["f", "x"],
                                "var v" | "concat" => vec!["v"],
                                _ => vec![],
                            };
                            want.sort();
                            let mut names2 = names.clone();
                            names2.sort();
                            if names2 != want {
                                bad.push(format!("the free variables of {} are {names:?}", u[*i].0));
                            }
                            seen.push((sort, fv));
                        }
                        if seen.iter().any(|x| x.0 != seen[0].0) {
                            bad.push(format!("the sort of {} has two representations", u[*i].0));
                        }
                        if seen.iter().any(|x| x.1.iter().any(|v| !seen[0].1.contains(v))) {
                            bad.push(format!("a free variable of {} has two representations", u[*i].0));
                        }
                        // the sort is the same object as the sort term built directly
                        for (j, n) in [(0, "Int"), (1, "Bool")] {
                            if let Some(st) = table.get(&j) {
                                if show(&seen[0].0) == n && seen[0].0 != *st {
                                    bad.push(format!("the sort of {} is another {n}", u[*i].0));
                                }
                            }
                        }
                    }
                });
                if let Err(p) = r {
                    bad.push(format!("panics: {p}"));
                }
                t.distinct.insert(hash_of(&(pl, s.clone(), fresh)));
                if !bad.is_empty() {
                    let pre: Vec<&str> = preloads[pl].iter().map(|&i| u[i].0).collect();
                    rep.violation(&format!("main pool {pre:?}; {}{}", show_ops(s), if fresh { "" } else { " (sharing subterms)" }), &bad.join("; "));
                }
            }
        }
        t.flush(rep);
    });
}
