//! Canonical instances of the Boolean rules (C01, C11, C19).
use crate::core::*;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;

pub struct Cat {
    pub v: Vec<Inst>,
}
impl Cat {
    pub fn new() -> Cat {
        Cat { v: vec![] }
    }
    /// A step with no premises and no arguments.
    pub fn t(&mut self, rule: &str, clause: &[&str]) {
        self.v.push(inst(rule, &[], clause, &[]));
    }
    pub fn a(&mut self, rule: &str, clause: &[&str], args: &[&str]) {
        self.v.push(inst(rule, &[], clause, args));
    }
    pub fn p(&mut self, rule: &str, prem: &[&str], clause: &[&str]) {
        self.v.push(inst(rule, &[prem], clause, &[]));
    }
    pub fn f(&mut self, rule: &str, prems: &[&[&str]], clause: &[&str], args: &[&str]) {
        self.v.push(inst(rule, prems, clause, args));
    }
    /// `(= a b)` as the only literal
    pub fn e(&mut self, rule: &str, a: &str, b: &str) {
        self.v.push(inst(rule, &[], &[&format!("(= {a} {b})")], &[]));
    }
}

pub fn nest(op: &str, xs: &[&str]) -> String {
    format!("({op} {})", xs.join(" "))
}

pub const DECLS: &str = "(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)(declare-const s Bool)\
(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-const c U)(declare-const d U)\
(declare-fun f (U) U)(declare-fun g (U U) U)(declare-fun P (U) Bool)(declare-fun B (Bool) Bool)(declare-fun B2 (Bool Bool) Bool)\
(declare-const i Int)(declare-const j Int)(declare-const k Int)(declare-const u Real)(declare-const v Real)(declare-const w Real)";

pub fn instances() -> Vec<Inst> {
    let mut c = Cat::new();
    c.t("true", &["true"]);
    c.t("false", &["(not false)"]);
    c.t("not_not", &["(not (not (not p)))", "p"]);
    c.t("not_not", &["(not (not (not (and p q))))", "(and p q)"]);
    // n-ary connectives
    let sets: [&[&str]; 4] = [&["p", "q"], &["p", "q", "r"], &["p", "(not q)", "p", "r"], &["(or p q)", "(and q r)", "(not p)"]];
    for xs in sets {
        let and = nest("and", xs);
        let or = nest("or", xs);
        let neg: Vec<String> = xs.iter().map(|x| format!("(not {x})")).collect();
        let mut cl = vec![and.clone()];
        cl.extend(neg.iter().cloned());
        c.v.push(Inst { rule: "and_neg".into(), clause: cl, ..Default::default() });
        let mut cl = vec![format!("(not {or})")];
        cl.extend(xs.iter().map(|s| s.to_string()));
        c.v.push(Inst { rule: "or_pos".into(), clause: cl, ..Default::default() });
        for (i, x) in xs.iter().enumerate() {
            let n = i.to_string();
            c.a("and_pos", &[&format!("(not {and})"), x], &[&n]);
            c.a("or_neg", &[&or, &format!("(not {x})")], &[&n]);
            c.f("and", &[&[&and]], &[x], &[&n]);
            c.f("not_or", &[&[&format!("(not {or})")]], &[&format!("(not {x})")], &[&n]);
        }
        c.p("or", &[&or], xs);
        let negr: Vec<&str> = neg.iter().map(|s| s.as_str()).collect();
        c.p("not_and", &[&format!("(not {and})")], &negr);
        let prem: Vec<Vec<String>> = xs.iter().map(|x| vec![x.to_string()]).collect();
        c.v.push(Inst { rule: "and_intro".into(), premises: prem, clause: vec![and.clone()], args: vec![] });
    }
    for (x, y) in [("p", "q"), ("(not p)", "(and q r)"), ("p", "p"), ("p", "(not p)")] {
        let xor = format!("(xor {x} {y})");
        let imp = format!("(=> {x} {y})");
        let eq = format!("(= {x} {y})");
        let (nx, ny) = (format!("(not {x})"), format!("(not {y})"));
        let (nxor, nimp, neq) = (format!("(not {xor})"), format!("(not {imp})"), format!("(not {eq})"));
        c.t("xor_pos1", &[&nxor, x, y]);
        c.t("xor_pos2", &[&nxor, &nx, &ny]);
        c.t("xor_neg1", &[&xor, x, &ny]);
        c.t("xor_neg2", &[&xor, &nx, y]);
        c.t("implies_pos", &[&nimp, &nx, y]);
        c.t("implies_neg1", &[&imp, x]);
        c.t("implies_neg2", &[&imp, &ny]);
        c.t("equiv_pos1", &[&neq, x, &ny]);
        c.t("equiv_pos2", &[&neq, &nx, y]);
        c.t("equiv_neg1", &[&eq, &nx, &ny]);
        c.t("equiv_neg2", &[&eq, x, y]);
        c.p("xor1", &[&xor], &[x, y]);
        c.p("xor2", &[&xor], &[&nx, &ny]);
        c.p("not_xor1", &[&nxor], &[x, &ny]);
        c.p("not_xor2", &[&nxor], &[&nx, y]);
        c.p("implies", &[&imp], &[&nx, y]);
        c.p("not_implies1", &[&nimp], &[x]);
        c.p("not_implies2", &[&nimp], &[&ny]);
        c.p("equiv1", &[&eq], &[&nx, y]);
        c.p("equiv2", &[&eq], &[x, &ny]);
        c.p("not_equiv1", &[&neq], &[x, y]);
        c.p("not_equiv2", &[&neq], &[&nx, &ny]);
        c.e("connective_def", &xor, &format!("(or (and {nx} {y}) (and {x} {ny}))"));
        c.e("connective_def", &eq, &format!("(and (=> {x} {y}) (=> {y} {x}))"));
    }
    for (x, y, z) in [("p", "q", "r"), ("(not p)", "q", "(or p r)"), ("p", "p", "q")] {
        let ite = format!("(ite {x} {y} {z})");
        let nite = format!("(not {ite})");
        let (nx, ny, nz) = (format!("(not {x})"), format!("(not {y})"), format!("(not {z})"));
        c.t("ite_pos1", &[&nite, x, z]);
        c.t("ite_pos2", &[&nite, &nx, y]);
        c.t("ite_neg1", &[&ite, x, &nz]);
        c.t("ite_neg2", &[&ite, &nx, &ny]);
        c.p("ite1", &[&ite], &[x, z]);
        c.p("ite2", &[&ite], &[&nx, y]);
        c.p("not_ite1", &[&nite], &[x, &nz]);
        c.p("not_ite2", &[&nite], &[&nx, &ny]);
        c.e("connective_def", &ite, &format!("(and (=> {x} {y}) (=> {nx} {z}))"));
    }
    c.e("connective_def", "(forall ((x U)) (P x))", "(not (exists ((x U)) (not (P x))))");
    c.e("connective_def", "(exists ((x U) (y U)) (= x (f y)))", "(not (forall ((x U) (y U)) (not (= x (f y)))))");
    // ite_intro
    let i1 = "(ite p a b)";
    let t1 = format!("(P {i1})");
    c.e("ite_intro", &t1, &format!("(and {t1} (ite p (= a {i1}) (= b {i1})))"));
    c.e("ite_intro", &t1, &format!("(and {t1} (ite p (= {i1} a) (= b {i1})))"));
    c.e("ite_intro", &t1, &t1);
    let i2 = "(ite q (f a) (ite p a b))";
    let t2 = format!("(= c {i2})");
    c.e("ite_intro", &t2, &format!("(and {t2} (ite q (= (f a) {i2}) (= {i1} {i2})) (ite p (= a {i1}) (= b {i1})))"));
    c.e("ite_intro", &t2, &format!("(and (= {i2} c) (ite p (= a {i1}) (= b {i1})))"));
    // ite_simplify
    for (l, r) in [
        ("(ite true p q)", "p"),
        ("(ite false p q)", "q"),
        ("(ite p q q)", "q"),
        ("(ite p true false)", "p"),
        ("(ite p false true)", "(not p)"),
        ("(ite (not p) q r)", "(ite p r q)"),
        ("(ite p (ite p q r) s)", "(ite p q s)"),
        ("(ite p q (ite p r s))", "(ite p q s)"),
        ("(ite p true q)", "(or p q)"),
        ("(ite p q false)", "(and p q)"),
        ("(ite p false q)", "(and (not p) q)"),
        ("(ite p q true)", "(or (not p) q)"),
        ("(ite p a a)", "a"),
        ("(ite (not p) a b)", "(ite p b a)"),
        ("(ite p (ite p a b) c)", "(ite p a c)"),
        ("(ite p a (ite p b c))", "(ite p a c)"),
        ("(ite (not (not p)) a (ite p b c))", "(ite p a c)"),
    ] {
        c.e("ite_simplify", l, r);
        if l.len() < 24 {
            c.e("ite_simplify", r, l);
        }
    }
    for (l, r) in [
        ("(= a a)", "true"),
        ("(= p p)", "true"),
        ("(= 1 2)", "false"),
        ("(= 1.0 2.5)", "false"),
        ("(= (- 1) 1)", "false"),
        ("(= (- 1.5) 1.5)", "false"),
        ("(= 0.5 0.25)", "false"),
        ("(not (= 1 1))", "false"),
    ] {
        c.e("eq_simplify", l, r);
    }
    for (l, r) in [
        ("(and true true)", "true"),
        ("(and p true q)", "(and p q)"),
        ("(and p q p)", "(and p q)"),
        ("(and p false q)", "false"),
        ("(and p q (not p))", "false"),
        ("(and p (not (not (not p))))", "false"),
        ("(and (not (not p)) (not p))", "false"),
        ("(and p true)", "p"),
        ("(and p p true q)", "(and p p q)"),
        ("(and (and p q p))", "(and p q)"),
        ("(and (or p q) r true)", "(and (or p q) r)"),
    ] {
        c.e("and_simplify", l, r);
    }
    for (l, r) in [
        ("(or false false)", "false"),
        ("(or p false q)", "(or p q)"),
        ("(or p q p)", "(or p q)"),
        ("(or p true q)", "true"),
        ("(or p q (not p))", "true"),
        ("(or p (not (not (not p))))", "true"),
        ("(or p false)", "p"),
        ("(or p p false q)", "(or p p q)"),
        ("(or (or p q p))", "(or p q)"),
    ] {
        c.e("or_simplify", l, r);
    }
    for (l, r) in [("(not (not p))", "p"), ("(not false)", "true"), ("(not true)", "false"), ("(not (not (not (not p))))", "p")] {
        c.e("not_simplify", l, r);
    }
    for (l, r) in [
        ("(=> (not p) (not q))", "(=> q p)"),
        ("(=> false p)", "true"),
        ("(=> p true)", "true"),
        ("(=> true p)", "p"),
        ("(=> p false)", "(not p)"),
        ("(=> p p)", "true"),
        ("(=> (not p) p)", "p"),
        ("(=> p (not p))", "(not p)"),
        ("(=> (=> p q) q)", "(or p q)"),
    ] {
        c.e("implies_simplify", l, r);
        c.e("implies_simplify", r, l);
    }
    for (l, r) in [
        ("(= (not p) (not q))", "(= p q)"),
        ("(= p p)", "true"),
        ("(= p (not p))", "false"),
        ("(= (not p) p)", "false"),
        ("(= true p)", "p"),
        ("(= p true)", "p"),
        ("(= false p)", "(not p)"),
        ("(= p false)", "(not p)"),
        ("(= (not (not p)) (not (not q)))", "(= p q)"),
    ] {
        c.e("equiv_simplify", l, r);
    }
    for (l, r) in [
        ("(not (=> p q))", "(and p (not q))"),
        ("(not (or p q))", "(and (not p) (not q))"),
        ("(not (and p q))", "(or (not p) (not q))"),
        ("(=> p (=> q r))", "(=> (and p q) r)"),
        ("(=> (=> p q) q)", "(or p q)"),
        ("(and p (=> p q))", "(and p q)"),
        ("(and (=> p q) p)", "(and p q)"),
    ] {
        c.e("bool_simplify", l, r);
        c.e("bool_simplify", r, l);
    }
    for (l, r) in [
        ("(and (and p q) r)", "(and p q r)"),
        ("(or p (or q (or r s)))", "(or p q r s)"),
        ("(and p p)", "p"),
        ("(and p (or q (or q r)) (and p q))", "(and p (or q r) q)"),
        ("(=> (and p (and q p)) (or r (or r s)))", "(=> (and p q) (or r s))"),
        ("(forall ((x U)) (and (P x) (and (P x) p)))", "(forall ((x U)) (and (P x) p))"),
        ("(B (and p (and p q)))", "(B (and p q))"),
        ("(not (or (or p q) p))", "(not (or p q))"),
        ("(let ((x (and p q))) (and x (and x r)))", "(let ((x (and p q))) (and x r))"),
    ] {
        c.e("ac_simp", l, r);
    }
    for (l, r) in [
        ("(and p (and q r))", "(and r (and q p))"),
        ("(and p true q)", "(and q p)"),
        ("(or p (or q false))", "(or q p)"),
        ("(or p q p)", "(or q p)"),
        ("(and p p)", "p"),
        ("(and p true)", "p"),
        ("(+ i (+ j k))", "(+ k j i)"),
        ("(+ i 0 j)", "(+ j i)"),
        ("(* i (* j k))", "(* k j i)"),
        ("(* u 1.0 v)", "(* v u)"),
        ("(+ u (+ v 0.0) w)", "(+ w u v)"),
        ("(+ i j j)", "(+ j i j)"),
    ] {
        c.e("aci_simp", l, r);
    }
    for (l, r) in [
        ("(= a b c)", "(and (= a b) (= b c))"),
        ("(= a b c d)", "(and (= a b) (= b c) (= c d))"),
        ("(= p q r)", "(and (= p q) (= q r))"),
        ("(=> p q r)", "(=> p (=> q r))"),
        ("(=> p q r s)", "(=> p (=> q (=> r s)))"),
        ("(+ i j k)", "(+ (+ i j) k)"),
        ("(- i j k)", "(- (- i j) k)"),
        ("(* u v w)", "(* (* u v) w)"),
        ("(- u v w u)", "(- (- (- u v) w) u)"),
    ] {
        c.e("nary_elim", l, r);
    }
    c.t("distinct_elim", &["(= (distinct p q) (not (= p q)))"]);
    c.t("distinct_elim", &["(= (distinct p q r) false)"]);
    // Boolean functions elimination
    c.p("bfun_elim", &["(B p)"], &["(ite p (B true) (B false))"]);
    c.p(
        "bfun_elim",
        &["(B2 p q)"],
        &["(ite p (ite q (B2 true true) (B2 true false)) (ite q (B2 false true) (B2 false false)))"],
    );
    c.p("bfun_elim", &["(forall ((x Bool)) (or x p))"], &["(and (or false p) (or true p))"]);
    c.p("bfun_elim", &["(exists ((x Bool)) (= x q))"], &["(or (= false q) (= true q))"]);
    c.p("bfun_elim", &["(exists ((x Bool) (z U)) (and x (P z)))"], &["(exists ((z U)) (or (and false (P z)) (and true (P z))))"]);
    c.p("bfun_elim", &["(not (B (and p q)))"], &["(not (ite (and p q) (B true) (B false)))"]);
    // not_not and friends over non-Boolean atoms
    c.t("equiv_pos2", &["(not (= (P a) (= a b)))", "(not (P a))", "(= a b)"]);
    c.v
}

pub fn bool_family(thorough: bool) -> Family {
    Family {
        name: "boolean",
        decls: DECLS.into(),
        fresh: vec!["p", "q", "r", "true", "false", "(not p)", "a", "b", "c", "0", "1", "i", "0.0", "u"],
        insts: instances(),
        doms: vec![Doms::std()],
        cap: if thorough { 60_000 } else { 12_000 },
        opts: EditOpts { max_repl: 10, ..Default::default() },
        cfg: Config::new(),
        depth2: 900,
    }
}
