//! Arithmetic rules (C04, C11, C19): canonical instances, and an exhaustive la_generic space.
use crate::cat_bool::Cat;
use crate::core::*;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::*;
use carcara::ast::*;
use carcara::checker::Config;
use rug::{Integer, Rational};
use std::collections::HashMap;

pub const DECLS: &str = "(declare-const i Int)(declare-const j Int)(declare-const k Int)\
(declare-const u Real)(declare-const v Real)(declare-const w Real)(declare-const p Bool)\
(declare-fun f (Int) Int)(declare-fun h (Real) Real)\
(declare-const b1 (_ BitVec 2))(declare-const b2 (_ BitVec 2))(declare-const b3 (_ BitVec 2))";

pub fn instances() -> Vec<Inst> {
    let mut c = Cat::new();
    for (x, y) in [("i", "j"), ("u", "v"), ("(+ i 1)", "(* 2 j)"), ("u", "0.5")] {
        c.e("la_rw_eq", &format!("(= {x} {y})"), &format!("(and (<= {x} {y}) (<= {y} {x}))"));
        c.t("la_disequality", &[&format!("(or (= {x} {y}) (not (<= {x} {y})) (not (<= {y} {x})))")]);
        c.t("la_totality", &[&format!("(or (<= {x} {y}) (<= {y} {x}))")]);
    }
    // la_tautology
    for (s, d1, d2) in [("i", "1", "2"), ("u", "0.5", "1.5"), ("(+ i j)", "(- 1)", "0"), ("u", "(- 1.5)", "(- 0.5)")] {
        c.t("la_tautology", &[&format!("(or (not (<= {s} {d1})) (<= {s} {d2}))")]);
        c.t("la_tautology", &[&format!("(or (not (<= {s} {d1})) (<= {s} {d1}))")]);
        c.t("la_tautology", &[&format!("(or (<= {s} {d1}) (not (<= {s} {d1})))")]);
        c.t("la_tautology", &[&format!("(or (not (>= {s} {d2})) (>= {s} {d1}))")]);
        c.t("la_tautology", &[&format!("(or (>= {s} {d1}) (not (>= {s} {d1})))")]);
        c.t("la_tautology", &[&format!("(or (not (<= {s} {d1})) (not (>= {s} {d2})))")]);
    }
    for t in ["(<= i i)", "(< i (+ i 1))", "(not (< i i))", "(>= (+ i 1) i)", "(<= 0 1)", "(not (= 0 1))", "(<= u u)",
        "(< (+ u 0.5) (+ u 1.0))", "(not (>= u (+ u 0.5)))", "(<= (* 2 i) (+ i i))", "(not (= (+ i 1) i))"] {
        if !t.contains("(not (=") { c.t("la_tautology", &[t]); }
    }
    // la_generic
    c.a("la_generic", &["(<= i 0)", "(>= i 1)"], &["1", "1"]);
    c.a("la_generic", &["(not (<= i 0))", "(<= i 1)"], &["1", "1"]);
    c.a("la_generic", &["(not (= i 1))", "(<= i 1)"], &["(- 1)", "1"]);
    c.a("la_generic", &["(not (= i 1))", "(>= i 1)"], &["1", "1"]);
    c.a("la_generic", &["(not (<= u 0.0))", "(not (>= u 0.5))"], &["1.0", "1.0"]);
    c.a("la_generic", &["(< u 1.0)", "(> u 0.5)"], &["1.0", "1.0"]);
    c.a("la_generic", &["(<= u v)", "(< v u)"], &["1.0", "1.0"]);
    c.a("la_generic", &["(< u v)", "(<= v u)"], &["1.0", "1.0"]);
    c.a("la_generic", &["(not (< u v))", "(not (< v u))"], &["1.0", "1.0"]);
    c.a("la_generic", &["(not (< u v))", "(not (<= v u))"], &["1.0", "1.0"]);
    c.a("la_generic", &["(not (<= u v))", "(not (<= v w))", "(<= u w)"], &["1.0", "1.0", "1.0"]);
    c.a("la_generic", &["(not (<= (* 2 i) 1))", "(<= i 0)"], &["(/ 1.0 2.0)", "1"]);
    c.a("la_generic", &["(not (<= (+ i j) 1))", "(not (>= i 1))", "(<= j 0)"], &["1", "1", "1"]);
    c.a("la_generic", &["(not (<= (- 1) i))", "(not (<= (- 1) (+ i j)))", "(<= (- 2) (* 2 i))", "(not (<= j 1))"], &["1", "1", "1", "1"]);
    c.a("la_generic", &["(not (< (+ u v) 2.0))", "(not (> u 1.0))", "(< v 1.0)"], &["1.0", "1.0", "1.0"]);
    c.a("la_generic", &["(not (<= (* 2.0 u) 1.0))", "(<= u 0.5)"], &["0.5", "1.0"]);
    c.a("la_generic", &["(not (= u v))", "(<= u v)"], &["(- 1.0)", "1.0"]);
    c.a("la_generic", &["(not (= (f i) j))", "(not (<= j 3))", "(< (f i) 4)"], &["(- 1)", "1", "1"]);
    c.a("la_generic", &["(not (<= (* 3 i) 2))", "(<= i 0)"], &["(/ 1.0 3.0)", "1"]);
    c.a("la_generic", &["(not (<= (to_real i) 0.5))", "(<= (to_real i) 1.0)"], &["1.0", "1.0"]);
    // multiplication
    for (m, l, r) in [("i", "j", "k"), ("u", "v", "0.5"), ("2", "i", "j"), ("u", "(+ v 1.0)", "w")] {
        let z = if m == "u" { "0.0" } else { "0" };
        for (op, fl) in [("<", ">"), ("<=", ">="), (">", "<"), (">=", "<="), ("=", "=")] {
            c.t("la_mult_pos", &[&format!("(=> (and (> {m} {z}) ({op} {l} {r})) ({op} (* {m} {l}) (* {m} {r})))")]);
            if m != "2" {
                c.t("la_mult_neg", &[&format!("(=> (and (< {m} {z}) ({op} {l} {r})) ({fl} (* {m} {l}) (* {m} {r})))")]);
            }
        }
    }
    c.t("la_mult_neg", &["(=> (and (< (- 2) 0) (< i j)) (> (* (- 2) i) (* (- 2) j)))"]);
    for (a, b, m) in [("7", "3", "1"), ("(- 7)", "3", "2"), ("7", "(- 3)", "1"), ("(- 7)", "(- 3)", "2"), ("6", "3", "0"), ("0", "5", "0"), ("(- 6)", "(- 3)", "0")] {
        c.e("mod_simplify", &format!("(mod {a} {b})"), m);
    }
    // simplification
    for (l, r) in [("(< 1 2)", "true"), ("(< 2 1)", "false"), ("(< i i)", "false"), ("(<= 1 1)", "true"), ("(<= 2 1)", "false"),
        ("(<= i i)", "true"), ("(>= i j)", "(<= j i)"), ("(< i j)", "(not (<= j i))"), ("(> i j)", "(not (<= i j))"),
        ("(< u 0.5)", "(not (<= 0.5 u))"), ("(<= (- 1.5) (- 0.5))", "true"), ("(<= (- 0.5) (- 1.5))", "false"),
        ("(>= u u)", "true")] {
        c.e("comp_simplify", l, r);
    }
    for (l, r) in [("(+ 1 2 3)", "6"), ("(+ i 0)", "i"), ("(+ 1 i 2 j)", "(+ 3 i j)"), ("(+ i 1 (- 1))", "i"), ("(+ i j 0)", "(+ i j)"),
        ("(+ 0.5 u 0.5)", "(+ 1.0 u)"), ("(+ u 1.5 v (- 0.5))", "(+ 1.0 u v)"), ("(+ 1 (- 1))", "0"), ("(+ 0 (+ 1 i))", "(+ 1 i)")] {
        c.e("sum_simplify", l, r);
    }
    c.e("sum_simplify", "(+ 3 i j)", "(+ 1 i 2 j)");
    for (l, r) in [("(* 2 3)", "6"), ("(* i 1)", "i"), ("(* 2 i 2)", "(* 4 i)"), ("(* i 0 j)", "0"), ("(* i 1 j)", "(* i j)"),
        ("(* 0.5 u 2.0)", "u"), ("(* 1.5 u 2.0 v)", "(* 3.0 u v)"), ("(* 1 (* 2 i))", "(* 2 i)"), ("(* i (- 2))", "(* (- 2) i)")] {
        c.e("prod_simplify", l, r);
    }
    for (l, r) in [("(- i i)", "0"), ("(- 3 1)", "2"), ("(- 1 3)", "(- 2)"), ("(- i 0)", "i"), ("(- 0 i)", "(- i)"), ("(- (- i))", "i"),
        ("(- u u)", "0.0"), ("(- 0.5 1.5)", "(- 1.0)"), ("(- u 0.0)", "u"), ("(- 0.0 u)", "(- u)")] {
        c.e("minus_simplify", l, r);
        c.e("unary_minus_simplify", l, r);
    }
    for (l, r) in [("(div 6 3)", "2"), ("(div 7 2)", "3"), ("(div (- 7) 2)", "(- 4)"), ("(div 7 (- 2))", "(- 3)"), ("(div (- 7) (- 2))", "4"),
        ("(div i 1)", "i"), ("(/ u 1.0)", "u"), ("(div 2 2)", "1"), ("(/ 1.0 2.0)", "0.5"), ("(div 0 3)", "0")] {
        c.e("div_simplify", l, r);
    }
    // polynomials
    for (l, r) in [("(* (+ i 1) (+ i 1))", "(+ (* i i) (* 2 i) 1)"), ("(- (+ i j) j)", "i"), ("(* 2 (+ i j))", "(+ (* 2 i) (* 2 j))"),
        ("(- i)", "(* (- 1) i)"), ("(* i j)", "(* j i)"), ("(/ (+ u v) 2.0)", "(+ (* 0.5 u) (* 0.5 v))"), ("(* (- u v) (+ u v))", "(- (* u u) (* v v))"),
        ("(+ i i i)", "(* 3 i)"), ("(* 0 i)", "0"), ("(to_real (+ i 1))", "(+ (to_real i) 1.0)"), ("(+ (div i 2) (div i 2))", "(* 2 (div i 2))"),
        ("(- 1 2 3)", "(- 4)"), ("(+ (/ u 2.0) (/ u 2.0))", "u"), ("(* (h u) 2.0)", "(+ (h u) (h u))"),
        ("(bvadd b1 b1)", "(bvmul #b10 b1)"), ("(bvmul b1 (bvadd b2 #b01))", "(bvadd (bvmul b1 b2) b1)"), ("(bvsub b1 b2)", "(bvadd b1 (bvneg b2))"),
        ("(bvneg (bvsub b1 b2))", "(bvsub b2 b1)"), ("(bvadd #b11 #b10)", "#b01"), ("(bvmul #b11 b1)", "(bvneg b1)"), ("(bvadd b1 b1 b1 b1 b2)", "b2")] {
        c.e("poly_simp", l, r);
        if l.contains("bv") {
            c.e("bv_poly_simp", l, r);
        }
    }
    for op in ["<", "<=", "=", ">=", ">"] {
        c.p("poly_simp_rel", &["(= (* 2 (- i j)) (* 4 (- j k)))"], &[&format!("(= ({op} i j) ({op} j k))")]);
        c.p("poly_simp_rel", &["(= (* 2.0 (- u v)) (* 0.5 (- v w)))"], &[&format!("(= ({op} u v) ({op} v w))")]);
        c.p("poly_simp_rel", &["(= (* (- 2) (- i j)) (* (- 4) (- j k)))"], &[&format!("(= ({op} i j) ({op} j k))")]);
        c.p("poly_simp_rel", &["(= (* 2.0 (to_real (- i j))) (* 0.5 (to_real (- j k))))"], &[&format!("(= ({op} i j) ({op} j k))")]);
    }
    c.p("poly_simp_rel", &["(= (* (- 2) (- i j)) (* 4 (- j k)))"], &["(= (= i j) (= j k))"]);
    c.p("poly_simp_rel", &["(= (bvmul #b01 (bvsub b1 b2)) (bvmul #b11 (bvsub b2 b3)))"], &["(= (= b1 b2) (= b2 b3))"]);
    c.p("bv_poly_simp_eq", &["(= (bvmul #b11 (bvsub b1 b2)) (bvmul #b11 (bvsub b2 b3)))"], &["(= (= b1 b2) (= b2 b3))"]);
    c.v
}

pub fn doms() -> Vec<Doms> {
    let mut d = Doms::std();
    d.int = vec![0, 1, -1, 2, -2, 3, -3];
    d.real = vec![Q(0, 1), Q(1, 1), Q(-1, 1), Q(1, 2), Q(-3, 2), Q(1, 4), Q(-1, 4), Q(3, 4), Q(5, 4), Q(2, 1)];
    d.fun_cap = 60;
    let mut e = d.clone();
    e.div0 = Some(1);
    vec![d, e]
}

pub fn family(thorough: bool) -> Family {
    Family {
        name: "arithmetic",
        decls: DECLS.into(),
        fresh: vec!["i", "j", "0", "1", "2", "(- 1)", "(- 2)", "u", "v", "0.0", "1.0", "0.5", "(- 1.5)", "2.0", "(/ 1.0 2.0)", "(div 1 2)", "(div i 2)", "(/ u 2.0)", "(/ u 0.0)", "(to_real i)", "b1", "#b01", "#b10", "true", "false"],
        insts: instances(),
        doms: doms(),
        cap: if thorough { 20_000 } else { 2_000 },
        opts: EditOpts { max_repl: 14, subtyping: false, ..Default::default() },
        cfg: Config::new(),
        depth2: if thorough { 700 } else { 260 },
    }
}

// ------------------------------------------------------------------------------------------------
// Exhaustive la_generic

/// An inequality sum c_k x_k (op) d, as written (not negated): op 0 '<' 1 '<=' 2 '>' 3 '>=' 4 '='
#[derive(Clone)]
struct Lit {
    t: T,
    pos: bool,
    op: usize,
    co: Vec<Rational>,
    d: Rational,
}

struct Space {
    name: &'static str,
    int: bool,
    vars: Vec<&'static str>,
    /// (text, coefficients, constant)
    lhs: Vec<(String, Vec<i64>)>,
    rhs: Vec<(String, Rational)>,
    ops: Vec<usize>,
    len: usize,
    args: Vec<(String, Rational)>,
}

const OPS: [&str; 5] = ["<", "<=", ">", ">=", "="];

fn lits(env: &mut Env, s: &Space) -> Vec<Lit> {
    let mut out = vec![];
    for (lt, co) in &s.lhs {
        for (rt, d) in &s.rhs {
            for &op in &s.ops {
                for flip in [false, true] {
                    for pos in [true, false] {
                        if op == 4 && (pos || flip) {
                            continue;
                        }
                        if flip && s.len > 2 {
                            continue;
                        }
                        let text = if flip { format!("({} {rt} {lt})", OPS[op]) } else { format!("({} {lt} {rt})", OPS[op]) };
                        let text = if pos { text } else { format!("(not {text})") };
                        let t = env.term(&text);
                        let real_op = if flip { [2, 3, 0, 1, 4][op] } else { op };
                        out.push(Lit { t, pos, op: real_op, co: co.iter().map(|&c| Rational::from(c)).collect(), d: d.clone() });
                    }
                }
            }
        }
    }
    out
}

/// The negation of the literal as (coefficients, constant, strict, equality), in the form c.x >= d
fn negated(l: &Lit) -> (Vec<Rational>, Rational, bool, bool) {
    let neg = |v: &Vec<Rational>| v.iter().map(|x| Rational::from(-x)).collect::<Vec<_>>();
    if l.op == 4 {
        assert!(!l.pos);
        return (l.co.clone(), l.d.clone(), false, true);
    }
    let op = if l.pos { [3, 2, 1, 0][l.op] } else { l.op };
    match op {
        0 => (neg(&l.co), -l.d.clone(), true, false),
        1 => (neg(&l.co), -l.d.clone(), false, false),
        2 => (l.co.clone(), l.d.clone(), true, false),
        _ => (l.co.clone(), l.d.clone(), false, false),
    }
}

/// Whether the step is a correct la_generic step: the weighted sum of the (strengthened, for
/// integers) negated literals is a contradiction.
fn reference(int: bool, ls: &[&Lit], args: &[Rational]) -> bool {
    let n = ls[0].co.len();
    let mut sum = vec![Rational::new(); n];
    let mut d = Rational::new();
    let mut strict = false;
    for (l, a) in ls.iter().zip(args) {
        let (co, mut dd, mut st, eq) = negated(l);
        let a = if eq { a.clone() } else { a.clone().abs() };
        if a == 0 {
            continue;
        }
        if int && !eq {
            // c.x > d  <=>  c.x >= floor(d)+1 ;  c.x >= d <=> c.x >= ceil(d)
            dd = if st { Rational::from(dd.floor() + 1) } else { dd.ceil() };
            st = false;
        }
        for (s, c) in sum.iter_mut().zip(&co) {
            *s += Rational::from(c * &a);
        }
        d += dd * &a;
        if st {
            strict = true;
        }
        if eq {
            // equalities contribute exactly
        }
    }
    let all_eq = ls.iter().zip(args).all(|(l, a)| l.op == 4 || *a == 0);
    sum.iter().all(|c| *c == 0) && if all_eq { d != 0 } else if strict { d >= 0 } else { d > 0 }
}

/// Whether the clause is valid, by evaluating it on a grid that contains a point of every cell.
fn clause_valid(s: &Space, ls: &[&Lit]) -> Option<Vec<Rational>> {
    let grid: Vec<Rational> = if s.int {
        (-6..=6).map(Rational::from).collect()
    } else {
        (-24..=24).map(|x| Rational::from((x, 8))).collect()
    };
    let n = s.vars.len();
    let mut idx = vec![0usize; n];
    let mut sc: Vec<i64> = vec![0; n];
    // scaled integers (times 8) for speed
    let lits: Vec<(Vec<i64>, i64, usize, bool)> = ls
        .iter()
        .map(|l| {
            let co = l.co.iter().map(|c| c.numer().to_i64().unwrap()).collect();
            let d = Rational::from(&l.d * 48);
            assert!(d.is_integer());
            (co, d.numer().to_i64().unwrap(), l.op, l.pos)
        })
        .collect();
    let gs: Vec<i64> = grid.iter().map(|g| Rational::from(g * 48).numer().to_i64().unwrap()).collect();
    loop {
        for k in 0..n {
            sc[k] = gs[idx[k]];
        }
        let holds = lits.iter().any(|(co, d, op, pos)| {
            let v: i64 = co.iter().zip(&sc).map(|(c, x)| c * x).sum();
            let r = match op {
                0 => v < *d,
                1 => v <= *d,
                2 => v > *d,
                3 => v >= *d,
                _ => v == *d,
            };
            r == *pos
        });
        if !holds {
            return Some(idx.iter().map(|&i| grid[i].clone()).collect());
        }
        let mut k = 0;
        loop {
            if k == n {
                return None;
            }
            idx[k] += 1;
            if idx[k] < gs.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
}

fn spaces(thorough: bool) -> Vec<Space> {
    let r = |n: i64, d: i64| Rational::from((n, d));
    let st = |s: &str| s.to_string();
    let iargs = vec![(st("1"), r(1, 1)), (st("2"), r(2, 1)), (st("(- 1)"), r(-1, 1)), (st("0"), r(0, 1)), (st("(/ 1.0 2.0)"), r(1, 2))];
    let rargs = vec![(st("1.0"), r(1, 1)), (st("2.0"), r(2, 1)), (st("(- 1.0)"), r(-1, 1)), (st("0.0"), r(0, 1)), (st("0.5"), r(1, 2))];
    let mut v = vec![
        Space {
            name: "int-2",
            int: true,
            vars: vec!["i", "j"],
            lhs: vec![(st("i"), vec![1, 0]), (st("(* 2 i)"), vec![2, 0]), (st("(- i)"), vec![-1, 0]), (st("(+ i j)"), vec![1, 1]), (st("(- (* 2 i) (* j 2))"), vec![2, -2]), (st("(- i i)"), vec![0, 0])],
            rhs: vec![(st("0"), r(0, 1)), (st("1"), r(1, 1)), (st("(- 1)"), r(-1, 1)), (st("2"), r(2, 1)), (st("3"), r(3, 1))],
            ops: vec![0, 1, 2, 3, 4],
            len: 2,
            args: iargs.clone(),
        },
        Space {
            name: "real-2",
            int: false,
            vars: vec!["u", "v"],
            lhs: vec![(st("u"), vec![1, 0]), (st("(* 2.0 u)"), vec![2, 0]), (st("(- u)"), vec![-1, 0]), (st("(+ u v)"), vec![1, 1]), (st("(- v u u)"), vec![-2, 1])],
            rhs: vec![(st("0.0"), r(0, 1)), (st("1.0"), r(1, 1)), (st("(- 1.0)"), r(-1, 1)), (st("0.5"), r(1, 2)), (st("(/ 1.0 3.0)"), r(1, 3)), (st("1.5"), r(3, 2))],
            ops: vec![0, 1, 2, 3, 4],
            len: 2,
            args: rargs.clone(),
        },
        Space {
            name: "int-3",
            int: true,
            vars: vec!["i", "j"],
            lhs: vec![(st("i"), vec![1, 0]), (st("j"), vec![0, 1]), (st("(+ i j)"), vec![1, 1])],
            rhs: vec![(st("0"), r(0, 1)), (st("1"), r(1, 1))],
            ops: if thorough { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 4] },
            len: 3,
            args: vec![iargs[0].clone(), iargs[2].clone()],
        },
        Space {
            name: "real-3",
            int: false,
            vars: vec!["u", "v"],
            lhs: vec![(st("u"), vec![1, 0]), (st("v"), vec![0, 1]), (st("(+ u v)"), vec![1, 1])],
            rhs: vec![(st("0.0"), r(0, 1)), (st("0.5"), r(1, 2))],
            ops: if thorough { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 4] },
            len: 3,
            args: vec![rargs[0].clone(), rargs[2].clone()],
        },
    ];
    if thorough {
        v.push(Space {
            name: "int-3b",
            int: true,
            vars: vec!["i", "j"],
            lhs: vec![(st("(* 2 i)"), vec![2, 0]), (st("(* 3 j)"), vec![0, 3]), (st("(- (* 2 i) j)"), vec![2, -1])],
            rhs: vec![(st("1"), r(1, 1)), (st("(- 1)"), r(-1, 1)), (st("2"), r(2, 1))],
            ops: vec![0, 1, 2, 3, 4],
            len: 3,
            args: vec![iargs[0].clone(), iargs[1].clone(), iargs[4].clone()],
        });
    }
    v
}

/// Explores the la_generic spaces. With `complete`, correct steps that are rejected are reported;
/// otherwise accepted steps whose clause is not valid.
pub fn la_generic(rep: &Report, complete: bool, thorough: bool) {
    for sp in spaces(thorough) {
        let n = lits(&mut Env::new(DECLS), &sp).len();
        let firsts: Vec<usize> = (0..n).collect();
        par(&firsts, |&f| {
            let mut env = Env::new(DECLS);
            let ls = lits(&mut env, &sp);
            let args: Vec<(T, Rational)> = sp.args.iter().map(|(t, r)| (env.term(t), r.clone())).collect();
            let mut t = Tally::new();
            let cfg = Config::new();
            let mut idx = vec![0usize; sp.len - 1];
            loop {
                let mut pick = vec![&ls[f]];
                pick.extend(idx.iter().map(|&i| &ls[i]));
                let mut validity: Option<Option<Vec<Rational>>> = None;
                let mut ai = vec![0usize; sp.len];
                loop {
                    let avals: Vec<Rational> = ai.iter().map(|&a| args[a].1.clone()).collect();
                    let good = complete && reference(sp.int, &pick, &avals);
                    if !complete || good {
                        let s = Spec {
                            rule: "la_generic".into(),
                            premises: vec![],
                            clause: pick.iter().map(|l| l.t.clone()).collect(),
                            args: ai.iter().map(|&a| args[a].0.clone()).collect(),
                        };
                        t.inc("evaluations", 1);
                        let o = check_spec(&mut env, &s, &cfg);
                        if o.ok() {
                            t.inc("steps_accepted", 1);
                            if t.distinct.insert(hash_of(&s.key())) && !complete {
                                let v = validity.get_or_insert_with(|| clause_valid(&sp, &pick));
                                if let Some(p) = v {
                                    rep.violation(&s.key(), &format!("accepted, but the clause is false when {:?} = {:?}", sp.vars, p));
                                }
                            }
                        } else if complete {
                            rep.violation(&s.key(), &format!("a correct linear arithmetic certificate is rejected: {o:?}"));
                        }
                    }
                    let mut k = 0;
                    while k < sp.len {
                        ai[k] += 1;
                        if ai[k] < args.len() {
                            break;
                        }
                        ai[k] = 0;
                        k += 1;
                    }
                    if k == sp.len {
                        break;
                    }
                }
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < ls.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
            t.inc(&format!("la_generic_clauses_{}", sp.name), (ls.len() as u64).pow(sp.len as u32 - 1));
            t.flush(rep);
        });
    }
    let _ = Integer::new();
}
