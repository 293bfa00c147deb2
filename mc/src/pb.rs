//! C06: pseudo-Boolean blasting and cutting planes.
use crate::core::*;
use crate::rules::*;
use crate::sem::*;
use carcara::ast::*;
use carcara::checker::Config;

fn doms() -> Vec<Doms> {
    let mut d = Doms::std();
    d.u = 1;
    d.int = vec![0, 1]; // pseudo-Boolean values
    d.quant_infinite = true; // the choice terms of the blasting rules range over them
    d.bv_full = 6;
    vec![d]
}

pub const DECLS: &str = "(declare-const x1 (_ BitVec 1))(declare-const y1 (_ BitVec 1))\
(declare-const x2 (_ BitVec 2))(declare-const y2 (_ BitVec 2))(declare-const x3 (_ BitVec 3))(declare-const y3 (_ BitVec 3))\
(declare-const a Int)(declare-const b Int)(declare-const c Int)(declare-const d Int)(declare-const z Int)(declare-const ~a Int)";

fn bits(x: &str, w: usize) -> Vec<String> {
    (0..w).map(|i| format!("((_ @int_of {i}) {x})")).collect()
}

fn sum(bs: &[String], omit: bool) -> String {
    let s: Vec<String> = bs
        .iter()
        .enumerate()
        .map(|(i, b)| if i == 0 && omit { b.clone() } else { format!("(* {} {b})", 1u128 << i) })
        .collect();
    if s.len() == 1 { s[0].clone() } else { format!("(+ {})", s.join(" ")) }
}

/// An operand: its text and its bits.
fn var(x: &str, w: usize) -> (String, Vec<String>) {
    (format!("{x}{w}"), bits(&format!("{x}{w}"), w))
}
fn pbb(vs: &[&str]) -> (String, Vec<String>) {
    (format!("(@pbbterm {})", vs.join(" ")), vs.iter().map(|s| s.to_string()).collect())
}

fn pred(rule: &str, x: &(String, Vec<String>), y: &(String, Vec<String>), omit: bool) -> String {
    let (sx, sy) = (sum(&x.1, omit), sum(&y.1, omit));
    let n = x.1.len();
    match rule {
        "bveq" => format!("(= (= {} {}) (= (- {sx} {sy}) 0))", x.0, y.0),
        "bvult" => format!("(= (bvult {} {}) (>= (- {sy} {sx}) 1))", x.0, y.0),
        "bvugt" => format!("(= (bvugt {} {}) (>= (- {sx} {sy}) 1))", x.0, y.0),
        "bvuge" => format!("(= (bvuge {} {}) (>= (- {sx} {sy}) 0))", x.0, y.0),
        "bvule" => format!("(= (bvule {} {}) (>= (- {sy} {sx}) 0))", x.0, y.0),
        _ => {
            let (px, py) = (sum(&x.1[..n - 1], omit), sum(&y.1[..n - 1], omit));
            let g = |b: &[String]| format!("(* {} {})", 1u128 << (n - 1), b[n - 1]);
            let (gx, gy) = (g(&x.1), g(&y.1));
            match rule {
                "bvslt" => format!("(= (bvslt {} {}) (>= (+ (- {py} {gy}) (- {gx} {px})) 1))", x.0, y.0),
                "bvsgt" => format!("(= (bvsgt {} {}) (>= (+ (- {px} {gx}) (- {gy} {py})) 1))", x.0, y.0),
                "bvsge" => format!("(= (bvsge {} {}) (>= (+ (- {px} {gx}) (- {gy} {py})) 0))", x.0, y.0),
                "bvsle" => format!("(= (bvsle {} {}) (>= (+ (- {py} {gy}) (- {gx} {px})) 0))", x.0, y.0),
                _ => panic!("{rule}"),
            }
        }
    }
}

fn choice_xor(x: &str, y: &str) -> String {
    format!("(choice ((z Int)) (and (>= (+ {x} {y}) z) (>= (+ z {x}) {y}) (>= (+ z {y}) {x}) (>= 2 (+ z {x} {y}))))")
}
fn choice_and(x: &str, y: &str) -> String {
    format!("(choice ((z Int)) (and (>= {x} z) (>= {y} z) (>= (+ z 1) (+ {x} {y}))))")
}

pub fn family(thorough: bool) -> Family {
    let mut v = Vec::new();
    for r in ["bveq", "bvult", "bvugt", "bvuge", "bvule", "bvslt", "bvsgt", "bvsge", "bvsle"] {
        for w in 1..=3usize {
            if w == 1 && r.starts_with("bvs") {
                continue;
            }
            let rule = format!("pbblast_{r}");
            let names = [["a", "b", "c"], ["c", "d", "b"]];
            v.push(inst(&rule, &[], &[&pred(r, &var("x", w), &var("y", w), false)], &[]));
            v.push(inst(&rule, &[], &[&pred(r, &var("x", w), &var("y", w), true)], &[]));
            v.push(inst(&rule, &[], &[&pred(r, &pbb(&names[0][..w]), &pbb(&names[1][..w]), false)], &[]));
            v.push(inst(&rule, &[], &[&pred(r, &pbb(&names[0][..w]), &pbb(&names[1][..w]), true)], &[]));
        }
    }
    let one = |r: &str, s: &str| inst(r, &[], &[s], &[]);
    for w in 1..=3 {
        v.push(one("pbblast_pbbvar", &format!("(= x{w} (@pbbterm {}))", bits(&format!("x{w}"), w).join(" "))));
    }
    for (c, b) in [("#b0", "0"), ("#b1", "1"), ("#b01", "1 0"), ("#b110", "0 1 1"), ("#b1011", "1 1 0 1")] {
        v.push(one("pbblast_pbbconst", &format!("(= {c} (@pbbterm {b}))")));
    }
    for w in 1..=2 {
        for (x, y) in [(var("x", w), var("y", w)), (pbb(&["a", "b"][..w]), pbb(&["c", "d"][..w])), (pbb(&["a", "b"][..w]), var("y", w)), (var("x", w), var("x", w))] {
            let cx: Vec<String> = x.1.iter().zip(&y.1).map(|(p, q)| choice_xor(p, q)).collect();
            let ca: Vec<String> = x.1.iter().zip(&y.1).map(|(p, q)| choice_and(p, q)).collect();
            v.push(one("pbblast_bvxor", &format!("(= (bvxor {} {}) (@pbbterm {}))", x.0, y.0, cx.join(" "))));
            v.push(one("pbblast_bvand", &format!("(= (bvand {} {}) (@pbbterm {}))", x.0, y.0, ca.join(" "))));
        }
    }
    for (x, y) in [("a", "b"), ("((_ @int_of 0) x2)", "((_ @int_of 1) y2)"), ("a", "a")] {
        let r = choice_xor(x, y);
        v.push(inst("pbblast_bvxor_ith_bit", &[], &[&format!("(and (>= (+ {x} {y}) {r}) (>= (+ {r} {x}) {y}) (>= (+ {r} {y}) {x}) (>= 2 (+ {r} {x} {y})))")], &[x, y]));
        let r = choice_and(x, y);
        v.push(inst("pbblast_bvand_ith_bit", &[], &[&format!("(and (>= {x} {r}) (>= {y} {r}) (>= (+ {r} 1) (+ {x} {y})))")], &[x, y]));
    }
    Family {
        name: "pseudo-boolean",
        decls: DECLS.into(),
        fresh: vec!["a", "b", "z", "0", "1", "2", "4", "x1", "x2", "y2", "x3", "((_ @int_of 0) x2)", "((_ @int_of 1) x2)", "((_ @int_of 1) y2)", "4294967296", "4294967297", "(- 1)", "#b01", "#b1", "true"],
        insts: v,
        doms: doms(),
        cap: if thorough { 30_000 } else { 4_000 },
        opts: crate::mutate::EditOpts { max_repl: 16, ..Default::default() },
        cfg: Config::new(),
        depth2: if thorough { 250 } else { 110 },
    }
}

/// Whether every argument of an `ith_bit` step, and every bit given explicitly, is a 0/1 literal.
pub fn in_scope(s: &Spec) -> bool {
    if matches!(s.rule.as_str(), "cp_saturation" | "cp_division") {
        // the premise is an inequality over pseudo-boolean literals
        fn literals(t: &T) -> bool {
            match t.as_ref() {
                Term::Op(Operator::GreaterEq | Operator::Mult | Operator::Add, a) => a.iter().all(literals),
                Term::Op(Operator::Sub, a) => a.len() == 2 && matches!(a[1].as_ref(), Term::Var(..)) && a[0].as_integer() == Some(1.into()),
                _ => true,
            }
        }
        return s.premises.iter().flatten().all(literals);
    }
    fn bad(t: &T) -> bool {
        match t.as_ref() {
            Term::Const(Constant::Integer(i)) => *i != 0 && *i != 1,
            Term::Const(_) | Term::Var(..) => false,
            Term::ParamOp { .. } | Term::Binder(..) => false,
            Term::Op(Operator::Add | Operator::Sub | Operator::Mult, _) => true,
            _ => false,
        }
    }
    fn rec(t: &T) -> bool {
        if let Term::Op(Operator::BvPBbTerm, a) = t.as_ref() {
            // constants outside {0, 1} are not excused: the rules must reject them
            if a.iter().any(|x| matches!(x.as_ref(), Term::Op(..)) && bad(x)) {
                return true;
            }
        }
        crate::mutate::children(t).iter().any(rec)
    }
    !(s.rule.ends_with("ith_bit") && s.args.iter().any(bad)) && !s.clause.iter().any(rec)
}

pub fn cp_family(thorough: bool) -> Family {
    let mut v = Vec::new();
    let p = |r: &str, ps: &[&str], c: &str, a: &[&str]| {
        let ps: Vec<Vec<String>> = ps.iter().map(|s| vec![s.to_string()]).collect();
        Inst { rule: r.into(), premises: ps, clause: vec![c.into()], args: a.iter().map(|s| s.to_string()).collect() }
    };
    v.push(p("cp_addition", &["(>= (* 1 a) 1)", "(>= (* 2 b) 1)"], "(>= (+ (* 1 a) (* 2 b)) 2)", &[]));
    v.push(p("cp_addition", &["(>= (+ (* 1 a) (* 2 b)) 1)", "(>= (+ (* 2 (- 1 a)) (* 1 b)) 1)"], "(>= (+ (* 1 (- 1 a)) (* 3 b)) 1)", &[]));
    v.push(p("cp_addition", &["(>= (* 1 a) 1)", "(>= (* 1 (- 1 a)) 1)"], "(>= 0 1)", &[]));
    v.push(p("cp_addition", &["(>= (+ (* 3 a) (* 1 b) (* 1 c)) 2)", "(>= (+ (* 1 (- 1 a)) (* 1 (- 1 b))) 1)"], "(>= (+ (* 2 a) (* 1 c)) 1)", &[]));
    v.push(p("cp_multiplication", &["(>= (+ (* 1 a) (* 2 (- 1 b))) 2)"], "(>= (+ (* 3 a) (* 6 (- 1 b))) 6)", &["3"]));
    v.push(p("cp_multiplication", &["(>= (* 2 a) 1)"], "(>= (* 2 a) 1)", &["1"]));
    v.push(p("cp_division", &["(>= (+ (* 2 a) (* 3 (- 1 b))) 3)"], "(>= (+ (* 1 a) (* 2 (- 1 b))) 2)", &["2"]));
    v.push(p("cp_division", &["(>= (+ (* 6 a) (* 3 b) (* 1 c)) 4)"], "(>= (+ (* 2 a) (* 1 b) (* 1 c)) 2)", &["3"]));
    v.push(p("cp_saturation", &["(>= (+ (* 5 a) (* 1 (- 1 b)) (* 2 c)) 2)"], "(>= (+ (* 2 a) (* 1 (- 1 b)) (* 2 c)) 2)", &[]));
    v.push(p("cp_literal", &[], "(>= a 0)", &["a"]));
    v.push(p("cp_literal", &[], "(>= (* 1 a) 0)", &["a"]));
    v.push(p("cp_literal", &[], "(>= (- 1 a) 0)", &["(- 1 a)"]));
    v.push(p("cp_literal", &[], "(>= (* 1 (- 1 a)) 0)", &["(- 1 a)"]));
    for (l, r) in [
        ("(>= (+ (* 1 a) (* 2 b)) 2)", "(>= (+ (* 1 a) (* 2 b)) 2)"),
        ("(>= (+ a (* b 2)) 2)", "(>= (+ (* 1 a) (* 2 b)) 2)"),
        ("(> (+ a b) 1)", "(>= (+ (* 1 a) (* 1 b)) 2)"),
        ("(< (+ a b) 1)", "(>= (+ (* 1 (- 1 a)) (* 1 (- 1 b))) 2)"),
        ("(<= (+ a (* 2 b)) 2)", "(>= (+ (* 1 (- 1 a)) (* 2 (- 1 b))) 1)"),
        ("(>= (- a b) 0)", "(>= (+ (* 1 a) (* 1 (- 1 b))) 1)"),
        ("(>= a b)", "(>= (+ (* 1 a) (* 1 (- 1 b))) 1)"),
        ("(>= (- (+ a 2) (+ 1 b)) 0)", "(>= (+ (* 1 a) (* 1 (- 1 b))) 0)"),
        ("(= (+ a b) 1)", "(and (>= (+ (* 1 a) (* 1 b)) 1) (>= (+ (* 1 (- 1 a)) (* 1 (- 1 b))) 1))"),
        ("(= (- a b) 0)", "(and (>= (+ (* 1 a) (* 1 (- 1 b))) 1) (>= (+ (* 1 (- 1 a)) (* 1 b)) 1))"),
        ("(>= (* 2 (- 1 a)) 1)", "(>= (* 2 (- 1 a)) 1)"),
        ("(>= (* -2 a) -1)", "(>= (* 2 (- 1 a)) 1)"),
    ] {
        v.push(p("cp_normalize", &[], &format!("(= {l} {r})"), &[]));
    }
    Family {
        name: "cutting planes",
        decls: DECLS.into(),
        fresh: vec!["a", "b", "c", "(- 1 a)", "(- 1 b)", "~a", "0", "1", "2", "3", "-1", "-2", "(- 1)", "(* 1 a)", "(* 2 b)", "(* 0 a)", "(* 1 ~a)", "(* (- 1) b)", "true"],
        insts: v,
        doms: doms(),
        cap: 4000,
        opts: crate::mutate::EditOpts { max_repl: 18, ..Default::default() },
        cfg: Config::new(),
        depth2: if thorough { 900 } else { 350 },
    }
}

// ------------------------------------------------------------------------------------------------
// Exhaustive cutting planes

type Lit = (usize, bool); // variable, negated
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ineq {
    s: Vec<(i64, Lit)>,
    k: i64,
}

const NV: usize = 3; // a, b, and a variable whose name is that of a negated literal

impl Ineq {
    fn holds(&self, m: usize) -> bool {
        self.s.iter().map(|(c, (v, n))| c * ((m >> v & 1) as i64 ^ *n as i64)).sum::<i64>() >= self.k
    }
    fn key(&self) -> String {
        format!("{:?} >= {}", self.s, self.k)
    }
    fn coef(&self, l: Lit) -> i64 {
        self.s.iter().filter(|(_, m)| *m == l).map(|(c, _)| c).sum()
    }
}

struct W {
    env: Env,
    lits: Vec<T>,
}

impl W {
    fn new() -> W {
        let mut env = Env::new(DECLS);
        let lits = env.terms(&["a", "(- 1 a)", "b", "(- 1 b)", "~a", "(- 1 ~a)"]);
        W { env, lits }
    }
    fn term(&mut self, i: &Ineq) -> T {
        let mut s = Vec::new();
        for (c, (v, n)) in &i.s {
            let c = self.env.int(*c);
            let l = self.lits[2 * v + *n as usize].clone();
            s.push(self.env.op(Operator::Mult, vec![c, l]));
        }
        let sum = match s.len() {
            0 => self.env.int(0),
            1 => s[0].clone(),
            _ => self.env.op(Operator::Add, s),
        };
        let k = self.env.int(i.k);
        self.env.op(Operator::GreaterEq, vec![sum, k])
    }
}

fn sums(coefs: &[i64], lits: &[Lit], max: usize) -> Vec<Vec<(i64, Lit)>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<(i64, Lit)>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            for c in coefs {
                for l in lits {
                    let mut t = s.clone();
                    t.push((*c, *l));
                    next.push(t);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Result of a rule on accumulated coefficients, in reference form (literals in a fixed order).
fn canon(f: impl Fn(Lit) -> i64, k: i64) -> Ineq {
    let mut s = Vec::new();
    for v in 0..NV {
        for n in [false, true] {
            let c = f((v, n));
            if c != 0 {
                s.push((c, (v, n)));
            }
        }
    }
    Ineq { s, k }
}

fn ceil(a: i64, d: i64) -> i64 {
    -((-a).div_euclid(d))
}

/// Variants of a conclusion: every coefficient and the bound changed a little, terms dropped, added,
/// repeated, negated or set to zero.
fn variants(c: &Ineq) -> Vec<Ineq> {
    let mut out = vec![c.clone()];
    for d in [-2, -1, 1, 2, 3] {
        out.push(Ineq { k: c.k + d, ..c.clone() });
    }
    for i in 0..c.s.len() {
        for d in [-2, -1, 1, 2] {
            let mut e = c.clone();
            e.s[i].0 += d;
            out.push(e);
        }
        let mut e = c.clone();
        e.s[i].0 = 0;
        out.push(e);
        let mut e = c.clone();
        e.s[i].0 = -e.s[i].0;
        out.push(e);
        let mut e = c.clone();
        e.s.remove(i);
        out.push(e);
        let mut e = c.clone();
        e.s[i].1 .1 = !e.s[i].1 .1;
        out.push(e);
        let mut e = c.clone();
        e.s[i].1 .0 = 2 - e.s[i].1 .0;
        e.s[i].1 .1 = !e.s[i].1 .1;
        out.push(e);
        let mut e = c.clone();
        e.s.push(c.s[i]);
        out.push(e);
    }
    for l in [(0, false), (0, true), (1, false), (2, false)] {
        for x in [0, 1, -1] {
            let mut e = c.clone();
            e.s.push((x, l));
            out.push(e);
        }
    }
    let mut e = c.clone();
    e.s.reverse();
    out.push(e);
    out
}

fn run_one(rep: &Report, w: &mut W, t: &mut Tally, rule: &str, ps: &[Ineq], c: &Ineq, args: &[i64]) -> bool {
    let mut premises = Vec::new();
    for p in ps {
        premises.push(vec![w.term(p)]);
    }
    let clause = vec![w.term(c)];
    let args: Vec<T> = args.iter().map(|i| w.env.int(*i)).collect();
    let s = Spec { rule: rule.into(), premises, clause, args };
    t.inc("evaluations", 1);
    match check_spec(&mut w.env, &s, &Config::new()) {
        Out::Accept => {
            t.inc("steps_accepted", 1);
            t.distinct.insert(hash_of(&(rule, ps, c, &s.args.len())));
            for m in 0..1 << NV {
                if ps.iter().all(|p| p.holds(m)) && !c.holds(m) {
                    rep.violation(
                        &s.key(),
                        &format!("accepted, but false for a={}, b={}, ~a={}", m & 1, m >> 1 & 1, m >> 2 & 1),
                    );
                    break;
                }
            }
            true
        }
        Out::Reject(_) => {
            t.inc("steps_rejected", 1);
            false
        }
        Out::Panic(_) => {
            t.inc("steps_crashed", 1);
            false
        }
    }
}

pub fn cutting_planes(rep: &Report, complete: bool, thorough: bool) {
    const A: Lit = (0, false);
    const NA: Lit = (0, true);
    const B: Lit = (1, false);
    const NB: Lit = (1, true);
    const T: Lit = (2, false);
    // one premise
    let s1 = sums(&[-2, -1, 0, 1, 2, 3], &[A, NA, B, T], 2);
    let mut prem: Vec<Ineq> = Vec::new();
    for s in &s1 {
        for k in if thorough { -4..=5 } else { -2..=3 } {
            prem.push(Ineq { s: s.clone(), k });
        }
    }
    if thorough {
        for s in sums(&[-2, 1, 3], &[A, NA, B], 3) {
            for k in [-3, 0, 1, 2, 4] {
                prem.push(Ineq { s: s.clone(), k });
            }
        }
    } else {
        for s in sums(&[1, 2], &[A, B, NB], 3) {
            prem.push(Ineq { s: s.clone(), k: 2 });
        }
    }
    let chunks: Vec<&[Ineq]> = prem.chunks(60).collect();
    par(&chunks, |ch| {
        let mut w = W::new();
        let mut t = Tally::new();
        for p in *ch {
            let normal = p.s.iter().all(|x| x.0 > 0) && {
                let mut v: Vec<Lit> = p.s.iter().map(|x| x.1).collect();
                v.sort();
                v.dedup();
                v.len() == p.s.len() && !v.is_empty()
            };
            let mut go = |w: &mut W, t: &mut Tally, rule: &str, c: Ineq, args: &[i64], must: bool| {
                if complete {
                    if must {
                        t.inc("correct_steps", 1);
                        if !run_one(rep, w, t, rule, &[p.clone()], &c, args) {
                            rep.violation(&format!("{rule} {} |- {} args {args:?}", p.key(), c.key()), "a correct step is rejected");
                        }
                    }
                } else {
                    for v in variants(&c) {
                        run_one(rep, w, t, rule, &[p.clone()], &v, args);
                    }
                }
            };
            for m in [-2, -1, 0, 1, 2, 3] {
                let c = canon(|l| m * p.coef(l), m * p.k);
                go(&mut w, &mut t, "cp_multiplication", c, &[m], m > 0 && normal);
            }
            for d in [-2, -1, 0, 1, 2, 3, 4] {
                if d == 0 {
                    go(&mut w, &mut t, "cp_division", p.clone(), &[d], false);
                } else {
                    let c = canon(|l| ceil(p.coef(l), d.abs()), ceil(p.k, d.abs()));
                    go(&mut w, &mut t, "cp_division", c, &[d], d > 0 && normal && p.k >= 0);
                    if !complete {
                        // truncating division
                        let c = canon(|l| (p.coef(l) + d.abs() - 1) / d.abs(), (p.k + d.abs() - 1) / d.abs());
                        go(&mut w, &mut t, "cp_division", c, &[d], false);
                    }
                }
            }
            let c = canon(|l| p.coef(l).min(p.k), p.k);
            go(&mut w, &mut t, "cp_saturation", c, &[], normal && p.k > 0);
            let c = canon(|l| p.coef(l).min(p.k.max(0)), p.k);
            go(&mut w, &mut t, "cp_saturation", c, &[], false);
        }
        t.flush(rep);
    });
    // two premises
    let s2 = sums(if thorough { &[-1, 0, 1, 2, 3] } else { &[-1, 0, 1, 2] }, &[A, NA, B, T], 2);
    let ks: &[i64] = if thorough { &[-1, 0, 1, 3] } else { &[1] };
    let items: Vec<usize> = (0..s2.len()).collect();
    let cap2 = s2.len();
    par(&items, |&i| {
        let mut w = W::new();
        let mut t = Tally::new();
        for j in 0..cap2 {
            for &k in ks {
                let ps = [Ineq { s: s2[i].clone(), k }, Ineq { s: s2[j].clone(), k: 1 }];
                // cancel opposite literals
                let tot = |l: Lit| ps[0].coef(l) + ps[1].coef(l);
                let mut slack = 0;
                for v in 0..NV {
                    let has = |l: Lit| ps.iter().any(|p| p.s.iter().any(|x| x.1 == l));
                    if has((v, false)) && has((v, true)) {
                        slack += tot((v, false)).min(tot((v, true)));
                    }
                }
                let c = canon(
                    |(v, n)| {
                        let has = |l: Lit| ps.iter().any(|p| p.s.iter().any(|x| x.1 == l));
                        let m = if has((v, false)) && has((v, true)) { tot((v, false)).min(tot((v, true))) } else { 0 };
                        tot((v, n)) - m
                    },
                    ps[0].k + ps[1].k - slack,
                );
                let normal = ps.iter().all(|p| {
                    let mut v: Vec<Lit> = p.s.iter().map(|x| x.1).collect();
                    v.sort();
                    v.dedup();
                    v.len() == p.s.len() && p.s.iter().all(|x| x.0 > 0)
                });
                if complete {
                    if normal {
                        t.inc("correct_steps", 1);
                        if !run_one(rep, &mut w, &mut t, "cp_addition", &ps, &c, &[]) {
                            rep.violation(&format!("cp_addition {} + {} |- {}", ps[0].key(), ps[1].key(), c.key()), "a correct step is rejected");
                        }
                    }
                } else if thorough {
                    for v in variants(&c) {
                        run_one(rep, &mut w, &mut t, "cp_addition", &ps, &v, &[]);
                    }
                } else {
                    for (n, v) in variants(&c).into_iter().enumerate() {
                        if n == 0 || (i * 7 + j * 3 + n) % 5 == 0 {
                            run_one(rep, &mut w, &mut t, "cp_addition", &ps, &v, &[]);
                        }
                    }
                }
            }
        }
        t.flush(rep);
    });
    normalize(rep, complete, thorough);
}

/// cp_normalize: every relation between sums of up to two terms on each side.
fn normalize(rep: &Report, complete: bool, thorough: bool) {
    // a summand: coefficient and literal, or a constant
    #[derive(Clone, Copy, Debug)]
    enum S {
        T(i64, Lit),
        K(i64),
    }
    let mut ss = vec![S::K(0), S::K(1), S::K(-2), S::K(3)];
    for c in [-2i64, -1, 0, 1, 2] {
        for l in [(0, false), (0, true), (1, false)] {
            ss.push(S::T(c, l));
        }
    }
    let items: Vec<usize> = (0..ss.len()).collect();
    par(&items, |&i0| {
        let mut w = W::new();
        let mut t = Tally::new();
        for i1 in 0..ss.len() {
            for j0 in 0..ss.len() {
                if !thorough && (i1 + j0) % 2 == 1 && !complete {
                    continue;
                }
                for shape in 0..3 {
                    let (l, r): (Vec<(i64, S)>, Vec<(i64, S)>) = match shape {
                        0 => (vec![(1, ss[i0]), (1, ss[i1])], vec![(1, ss[j0])]),
                        1 => (vec![(1, ss[i0]), (-1, ss[i1])], vec![(1, ss[j0])]),
                        _ => (vec![(1, ss[j0])], vec![(1, ss[i0]), (-1, ss[i1])]),
                    };
                    let mut mk = |w: &mut W, s: S| match s {
                        S::K(k) => w.env.int(k),
                        S::T(c, (v, n)) => {
                            let l = w.lits[2 * v + n as usize].clone();
                            if c == 1 && !n {
                                l
                            } else {
                                let c = w.env.int(c);
                                w.env.op(Operator::Mult, vec![c, l])
                            }
                        }
                    };
                    let mut side = |w: &mut W, v: &[(i64, S)]| {
                        if v.len() == 1 {
                            mk(w, v[0].1)
                        } else {
                            let o = if v[1].0 == 1 { Operator::Add } else { Operator::Sub };
                            let a = vec![mk(w, v[0].1), mk(w, v[1].1)];
                            w.env.op(o, a)
                        }
                    };
                    let lt = side(&mut w, &l);
                    let rt = side(&mut w, &r);
                    // l - r as signed terms and constant
                    let mut terms: Vec<(i64, Lit)> = Vec::new();
                    let mut k = 0;
                    for (sg, s) in l.iter().map(|(g, s)| (*g, *s)).chain(r.iter().map(|(g, s)| (-*g, *s))) {
                        match s {
                            S::K(c) => k -= sg * c,
                            S::T(c, l) => terms.push((sg * c, l)),
                        }
                    }
                    if terms.is_empty() {
                        continue;
                    }
                    for op in [Operator::GreaterEq, Operator::GreaterThan, Operator::LessEq, Operator::LessThan, Operator::Equals] {
                        let norm = |ts: &[(i64, Lit)], k: i64| -> Ineq {
                            let mut k = k;
                            let s = ts
                                .iter()
                                .map(|&(c, (v, n))| {
                                    if c < 0 {
                                        k -= c;
                                        (-c, (v, !n))
                                    } else {
                                        (c, (v, n))
                                    }
                                })
                                .collect();
                            Ineq { s, k }
                        };
                        let neg: Vec<(i64, Lit)> = terms.iter().map(|(c, l)| (-c, *l)).collect();
                        let concl: Vec<Ineq> = match op {
                            Operator::GreaterEq => vec![norm(&terms, k)],
                            Operator::GreaterThan => vec![norm(&terms, k + 1)],
                            Operator::LessEq => vec![norm(&neg, -k)],
                            Operator::LessThan => vec![norm(&neg, 1 - k)],
                            _ => {
                                let p = norm(&terms, k);
                                let q = norm(&p.s.iter().map(|(c, l)| (-c, *l)).collect::<Vec<_>>(), -p.k);
                                vec![p, q]
                            }
                        };
                        let rel = w.env.op(op, vec![lt.clone(), rt.clone()]);
                        let truth = |m: usize| {
                            let v: i64 = terms.iter().map(|(c, (v, n))| c * ((m >> v & 1) as i64 ^ *n as i64)).sum();
                            match op {
                                Operator::GreaterEq => v >= k,
                                Operator::GreaterThan => v > k,
                                Operator::LessEq => v <= k,
                                Operator::LessThan => v < k,
                                _ => v == k,
                            }
                        };
                        let mut cands: Vec<Vec<Ineq>> = vec![concl.clone()];
                        if !complete {
                            for i in 0..concl.len() {
                                for (n, v) in variants(&concl[i]).into_iter().enumerate() {
                                    if n > 0 && (thorough || n <= 12) {
                                        let mut e = concl.clone();
                                        e[i] = v;
                                        cands.push(e);
                                    }
                                }
                            }
                        }
                        for (n, c) in cands.iter().enumerate() {
                            let parts: Vec<T> = c.iter().map(|i| w.term(i)).collect();
                            let rhs = if parts.len() == 1 { parts[0].clone() } else { w.env.op(Operator::And, parts) };
                            let concl = w.env.eq(&rel, &rhs);
                            let s = Spec { rule: "cp_normalize".into(), premises: vec![], clause: vec![concl], args: vec![] };
                            t.inc("evaluations", 1);
                            match check_spec(&mut w.env, &s, &Config::new()) {
                                Out::Accept => {
                                    t.inc("steps_accepted", 1);
                                    t.distinct.insert(hash_of(&s.key()));
                                    for m in 0..1 << NV {
                                        if truth(m) != c.iter().all(|i| i.holds(m)) {
                                            rep.violation(&s.key(), &format!("accepted, but the sides differ for a={}, b={}", m & 1, m >> 1 & 1));
                                            break;
                                        }
                                    }
                                }
                                o => {
                                    t.inc("steps_rejected", 1);
                                    if complete && n == 0 {
                                        rep.violation(&s.key(), &format!("a correct normalization is rejected {o:?}"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// The blasting rules at larger widths: the specified constraint must be accepted (`complete`), and
/// whatever close variant is accepted must be right on all pairs of boundary values.
pub fn widths(rep: &Report, complete: bool, thorough: bool) {
    let ws: Vec<usize> = if thorough { (1..=34).chain([63, 64, 65, 100]).collect() } else { (1..=9).chain([16, 31, 32, 33, 64]).collect() };
    let mut items = Vec::new();
    for r in ["bveq", "bvult", "bvugt", "bvuge", "bvule", "bvslt", "bvsgt", "bvsge", "bvsle"] {
        for &w in &ws {
            if w == 1 && r.starts_with("bvs") {
                continue;
            }
            for pb in [false, true] {
                for omit in [false, true] {
                    items.push((r, w, pb, omit));
                }
            }
        }
    }
    par(&items, |&(r, w, pb, omit)| {
        let mut decls = format!("(declare-const x{w} (_ BitVec {w}))(declare-const y{w} (_ BitVec {w}))");
        for i in 0..w {
            decls += &format!("(declare-const p{i} Int)(declare-const q{i} Int)");
        }
        let mut env = Env::new(&decls);
        let mut t = Tally::new();
        let (x, y) = if pb {
            let n: Vec<String> = (0..w).map(|i| format!("p{i}")).collect();
            let m: Vec<String> = (0..w).map(|i| format!("q{i}")).collect();
            (
                (format!("(@pbbterm {})", n.join(" ")), n),
                (format!("(@pbbterm {})", m.join(" ")), m),
            )
        } else {
            (var("x", w), var("y", w))
        };
        let signed = r.starts_with("bvs");
        let mut texts = vec![pred(r, &x, &y, omit)];
        if !complete {
            // dropped, repeated and exchanged bits
            for i in 0..w.min(4) {
                for k in [i, w - 1 - i] {
                    let mut z = x.clone();
                    if w >= 2 && !(signed && w == 2) {
                        let mut v = z.1.clone();
                        v.remove(k);
                        z.1 = v;
                        // keep the other side whole
                        let t = pred_asym(r, &x.0, &y.0, &z.1, &y.1, omit);
                        texts.extend(t);
                        let mut v = x.1.clone();
                        v.swap(k, (k + 1) % w);
                        texts.extend(pred_asym(r, &x.0, &y.0, &v, &y.1, omit));
                        texts.extend(pred_asym(r, &x.0, &y.0, &y.1, &x.1, omit));
                        let mut v = y.1.clone();
                        v[k] = x.1[k].clone();
                        texts.extend(pred_asym(r, &x.0, &y.0, &x.1, &v, omit));
                        let mut v = y.1.clone();
                        v.push(y.1[k].clone());
                        texts.extend(pred_asym(r, &x.0, &y.0, &x.1, &v, omit));
                    }
                }
            }
            texts.push(pred(r, &y, &x, omit));
            let base = texts[0].clone();
            texts.extend(number_variants(&base, w));
        }
        for (n, text) in texts.iter().enumerate() {
            let s = inst(&format!("pbblast_{r}"), &[], &[text], &[]).spec(&mut env);
            t.inc("evaluations", 1);
            let ok = check_spec(&mut env, &s, &Config::new()).ok();
            if complete {
                if n == 0 && !ok {
                    rep.violation(&format!("pbblast_{r} width {w} short-circuit {pb} omit {omit}"), "the specified constraint is rejected");
                }
                t.inc("correct_steps", 1);
                continue;
            }
            if !ok {
                continue;
            }
            t.inc("steps_accepted", 1);
            t.distinct.insert(hash_of(&s.key()));
            // evaluate on boundary values
            let m = mask(w);
            let mut vals = vec![0, 1 & m, m, m >> 1, (m >> 1) + 1, m - 1, 2 & m, 3 & m];
            for i in [0, 1, w / 2, w - 1] {
                if i < w {
                    vals.push(1u128 << i);
                    vals.push(m ^ (1u128 << i));
                }
            }
            vals.sort();
            vals.dedup();
            let Term::Op(Operator::Equals, sides) = s.clause[0].as_ref() else { continue };
            // which operand comes first in the predicate
            let first = match sides[0].as_ref() {
                Term::Op(_, xs) => xs[0].clone(),
                _ => continue,
            };
            let swapped = show(&first).starts_with('y') || show(&first).contains("q0");
            for &va in &vals {
                for &vb in &vals {
                    let (a, b) = if swapped { (vb, va) } else { (va, vb) };
                    let want = match r {
                        "bveq" => a == b,
                        "bvult" => a < b,
                        "bvugt" => a > b,
                        "bvuge" => a >= b,
                        "bvule" => a <= b,
                        "bvslt" => sgn(a, w) < sgn(b, w),
                        "bvsgt" => sgn(a, w) > sgn(b, w),
                        "bvsge" => sgn(a, w) >= sgn(b, w),
                        _ => sgn(a, w) <= sgn(b, w),
                    };
                    t.inc("operand_values_evaluated", 1);
                    match arith(&sides[1], va, vb) {
                        Some(N::B(g)) if g == want => {}
                        Some(N::B(g)) => {
                            rep.violation(
                                &format!("pbblast_{r} width {w}: {}", show(&s.clause[0]).chars().take(400).collect::<String>()),
                                &format!("operands {va}, {vb}: the constraint is {g}, the predicate {want}"),
                            );
                            break;
                        }
                        _ => t.inc("undecided", 1),
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// The text with one numeral, or all the occurrences of one numeral (a coefficient, a bit index or the constant) replaced by a nearby or
/// truncated value.
fn number_variants(text: &str, w: usize) -> Vec<String> {
    let bytes = text.as_bytes();
    let mut spans = Vec::new();
    let mut i = 0;
    while i < bytes.len() {
        let start = i;
        while i < bytes.len() && !b" ()".contains(&bytes[i]) {
            i += 1;
        }
        if i > start && text[start..i].bytes().all(|c| c.is_ascii_digit()) {
            spans.push((start, i));
        }
        i += 1;
    }
    let step = spans.len() / 8 + 1;
    let mut out = Vec::new();
    for (n, &(a, b)) in spans.iter().enumerate() {
        let v: rug::Integer = text[a..b].parse().unwrap();
        let large = v >= 1u64 << 30 && w <= 40 || v >= (rug::Integer::from(1) << (w as u32 - 1));
        if !(n % step == 0 || n + 2 >= spans.len() || large) {
            continue;
        }
        let two = |k: u32| rug::Integer::from(1) << k;
        let mut c = vec![
            rug::Integer::new(),
            rug::Integer::from(1),
            rug::Integer::from(&v + 1),
            rug::Integer::from(&v * 2),
            rug::Integer::from(&v / 2),
            rug::Integer::from(&v % &two(31)),
            rug::Integer::from(&v % &two(32)),
            rug::Integer::from(&v % &two(64)),
            rug::Integer::from(&v + &two(32)),
            rug::Integer::from(&v + &two(64)),
        ];
        c.sort();
        c.dedup();
        for x in c {
            if x != v {
                out.push(format!("{}{}{}", &text[..a], x, &text[b..]));
                // the same replacement everywhere
                let mut all = String::new();
                let mut last = 0;
                for &(c, d) in &spans {
                    if text[c..d] == text[a..b] {
                        all += &text[last..c];
                        all += &x.to_string();
                        last = d;
                    }
                }
                all += &text[last..];
                out.push(all);
            }
        }
    }
    out
}

fn pred_asym(r: &str, x: &str, y: &str, bx: &[String], by: &[String], omit: bool) -> Option<String> {
    if bx.is_empty() || by.is_empty() || (r.starts_with("bvs") && (bx.len() < 2 || by.len() < 2)) {
        return None;
    }
    // build with sums of different lengths, textually
    let n = bx.len().min(by.len());
    let base = pred(r, &(x.into(), bx.to_vec()), &(y.into(), by.to_vec()), omit);
    let _ = n;
    Some(base)
}

enum N {
    I(rug::Integer),
    B(bool),
}
fn arith(t: &T, a: u128, b: u128) -> Option<N> {
    let int = |t: &T| match arith(t, a, b) {
        Some(N::I(i)) => Some(i),
        _ => None,
    };
    Some(match t.as_ref() {
        Term::Const(Constant::Integer(i)) => N::I(i.clone()),
        Term::ParamOp { op: ParamOperator::BvIntOf, op_args, args } => {
            let i = op_args[0].as_integer()?.to_usize()?;
            let n = args[0].as_var()?;
            let v = if n.starts_with('x') { a } else { b };
            N::I(rug::Integer::from(v >> i & 1))
        }
        Term::Var(n, _) => {
            let i: usize = n[1..].parse().ok()?;
            let v = if n.starts_with('p') { a } else { b };
            N::I(rug::Integer::from(v >> i & 1))
        }
        Term::Op(o, xs) => match o {
            Operator::Add => N::I(xs.iter().map(int).collect::<Option<Vec<_>>>()?.into_iter().sum()),
            Operator::Mult => N::I(xs.iter().map(int).collect::<Option<Vec<_>>>()?.into_iter().product()),
            Operator::Sub => {
                let v = xs.iter().map(int).collect::<Option<Vec<_>>>()?;
                if v.len() == 1 {
                    N::I(-v[0].clone())
                } else {
                    let mut acc = v[0].clone();
                    for x in &v[1..] {
                        acc -= x;
                    }
                    N::I(acc)
                }
            }
            Operator::GreaterEq => N::B(int(&xs[0])? >= int(&xs[1])?),
            Operator::Equals => N::B(int(&xs[0])? == int(&xs[1])?),
            _ => return None,
        },
        _ => return None,
    })
}
