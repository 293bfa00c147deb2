//! Canonical instances of the quantifier rules (C08, C11, C19).
use crate::cat_bool::Cat;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;

pub const DECLS: &str = "(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-const x U)(declare-const y U)\
(declare-fun f (U) U)(declare-fun P (U) Bool)(declare-fun Q (U) Bool)(declare-fun R (U U) Bool)(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)";

pub fn instances() -> Vec<Inst> {
    let mut c = Cat::new();
    let mut inst = |body: &str, vars: &str, args: &[&str], res: &str| {
        c.f("forall_inst", &[], &[&format!("(or (not (forall ({vars}) {body})) {res})")], args);
    };
    inst("(P x)", "(x U)", &["a"], "(P a)");
    inst("(P x)", "(x U)", &["(f x)"], "(P (f x))");
    inst("(R x y)", "(x U) (y U)", &["a", "b"], "(R a b)");
    inst("(R x y)", "(x U) (y U)", &["y", "x"], "(R y x)");
    inst("(R x y)", "(x U)", &["y"], "(R y y)");
    inst("(exists ((y U)) (R x y))", "(x U)", &["a"], "(exists ((y U)) (R a y))");
    inst("(exists ((y U)) (R x y))", "(x U)", &["y"], "(exists ((z U)) (R y z))");
    inst("(exists ((x U)) (P x))", "(x U)", &["a"], "(exists ((x U)) (P x))");
    inst("(and (P x) (forall ((x U)) (Q x)))", "(x U)", &["b"], "(and (P b) (forall ((x U)) (Q x)))");
    inst("(let ((y x)) (R x y))", "(x U)", &["a"], "(let ((y a)) (R a y))");
    inst("(let ((x x)) (P x))", "(x U)", &["a"], "(let ((x a)) (P x))");
    inst("(P (choice ((y U)) (R x y)))", "(x U)", &["a"], "(P (choice ((y U)) (R a y)))");
    inst("(= x y)", "(x U) (y U)", &["a", "b"], "(= b a)");
    inst("(or x p)", "(x Bool)", &["q"], "(or q p)");
    inst("(= z x)", "(z U)", &["(f a)"], "(= (f a) x)");
    for q in ["forall", "exists"] {
        c.e("qnt_join", &format!("({q} ((x U)) ({q} ((y U)) (R x y)))"), &format!("({q} ((x U) (y U)) (R x y))"));
        c.e("qnt_join", &format!("({q} ((x U) (y U)) ({q} ((z U)) (or (R x y) (P z))))"), &format!("({q} ((x U) (y U) (z U)) (or (R x y) (P z)))"));
        c.e("qnt_join", &format!("({q} ((x U)) ({q} ((x U)) (P x)))"), &format!("({q} ((x U)) (P x))"));
        c.e("qnt_join", &format!("({q} ((x U)) ({q} ((y U) (x U)) (R x y)))"), &format!("({q} ((x U) (y U)) (R x y))"));
        c.e("qnt_rm_unused", &format!("({q} ((x U) (y U)) (P x))"), &format!("({q} ((x U)) (P x))"));
        c.e("qnt_rm_unused", &format!("({q} ((x U) (y U)) (P y))"), &format!("({q} ((y U)) (P y))"));
        c.e("qnt_rm_unused", &format!("({q} ((x U)) p)"), "p");
        c.e("qnt_rm_unused", &format!("({q} ((x U)) (exists ((x U)) (P x)))"), "(exists ((x U)) (P x))");
        c.e("qnt_rm_unused", &format!("({q} ((x U) (z U)) (let ((x a)) (R x z)))"), &format!("({q} ((z U)) (let ((x a)) (R x z)))"));
        c.e("qnt_rm_unused", &format!("({q} ((x U) (z U)) (let ((z x)) (P z)))"), &format!("({q} ((x U)) (let ((z x)) (P z)))"));
        c.e("qnt_simplify", &format!("({q} ((x U)) true)"), "true");
        c.e("qnt_simplify", &format!("({q} ((x U) (y U)) false)"), "false");
    }
    let mut cnf = |l: &str, r: &str| c.t("qnt_cnf", &[&format!("(or (not {l}) {r})")]);
    cnf("(forall ((x U)) (and (P x) (Q x)))", "(forall ((x U)) (P x))");
    cnf("(forall ((x U)) (and (P x) (Q x)))", "(forall ((x U)) (Q x))");
    cnf("(forall ((x U)) (=> (P x) (Q x)))", "(forall ((x U)) (or (not (P x)) (Q x)))");
    cnf("(forall ((x U)) (not (and (P x) (Q x))))", "(forall ((x U)) (or (not (P x)) (not (Q x))))");
    cnf("(forall ((x U)) (or (P x) (forall ((z U)) (R x z))))", "(forall ((x U) (z U)) (or (P x) (R x z)))");
    cnf("(forall ((x U)) (or (P x) (forall ((y U)) (Q y))))", "(forall ((x U) (y U)) (or (P x) (Q y)))");
    cnf("(forall ((x U)) (or (R x y) (not (exists ((z U)) (Q z)))))", "(forall ((x U) (z U)) (or (R x y) (not (Q z))))");
    cnf("(forall ((x U)) (= (P x) (Q x)))", "(forall ((x U)) (or (not (P x)) (Q x)))");
    cnf("(forall ((x U)) (= (P x) (Q x)))", "(forall ((x U)) (or (not (Q x)) (P x)))");
    cnf("(forall ((x U)) (ite p (P x) (Q x)))", "(forall ((x U)) (or (not p) (P x)))");
    cnf("(forall ((x U)) (ite p (P x) (Q x)))", "(forall ((x U)) (or p (Q x)))");
    cnf("(forall ((x U)) (or (and (P x) p) (and (Q x) q)))", "(forall ((x U)) (or (P x) (Q x)))");
    cnf("(forall ((x U)) (or (and (P x) p) (and (Q x) q)))", "(forall ((x U)) (or (P x) q))");
    cnf("(forall ((x U) (z U)) (and (P x) (Q z)))", "(forall ((x U)) (P x))");
    cnf("(forall ((x U)) (or (P x) (exists ((z U)) (R x z))))", "(forall ((x U)) (or (P x) (exists ((z U)) (R x z))))");
    for (q, o) in [("forall", "and"), ("exists", "or")] {
        c.e("miniscope_distribute", &format!("({q} ((x U)) ({o} (P x) (Q x)))"), &format!("({o} ({q} ((x U)) (P x)) ({q} ((x U)) (Q x)))"));
        c.e("miniscope_distribute", &format!("({q} ((x U) (z U)) ({o} (P x) (Q z) p))"), &format!("({o} ({q} ((x U) (z U)) (P x)) ({q} ((x U) (z U)) (Q z)) ({q} ((x U) (z U)) p))"));
    }
    for (q, o) in [("forall", "or"), ("exists", "and")] {
        c.e("miniscope_split", &format!("({q} ((x U) (z U)) ({o} (P x) (Q z)))"), &format!("({o} ({q} ((x U)) (P x)) ({q} ((z U)) (Q z)))"));
        c.e("miniscope_split", &format!("({q} ((x U) (z U)) ({o} (P x) p (Q z)))"), &format!("({o} ({q} ((x U)) (P x)) p ({q} ((z U)) (Q z)))"));
        c.e("miniscope_split", &format!("({q} ((x U)) ({o} p q (Q x)))"), &format!("({o} p q ({q} ((x U)) (Q x)))"));
        c.e("miniscope_split", &format!("({q} ((x U) (w U) (z U)) ({o} (R x w) (Q z)))"), &format!("({o} ({q} ((w U) (x U)) (R x w)) ({q} ((z U)) (Q z)))"));
    }
    c.e("miniscope_ite", "(forall ((x U)) (ite p (P x) (Q x)))", "(ite p (forall ((x U)) (P x)) (forall ((x U)) (Q x)))");
    c.e("miniscope_ite", "(forall ((x U) (z U)) (ite (P y) (R x z) (Q x)))", "(ite (P y) (forall ((x U) (z U)) (R x z)) (forall ((x U) (z U)) (Q x)))");
    c.v
}

pub fn family(thorough: bool) -> Family {
    Family {
        name: "quantifiers",
        decls: DECLS.into(),
        fresh: vec!["a", "b", "x", "y", "(f a)", "(f x)", "p", "q", "true", "false", "(P a)", "(P x)", "(Q y)", "(R x y)", "(forall ((x U)) (P x))", "(exists ((y U)) (R x y))"],
        insts: instances(),
        doms: vec![Doms::std().with_u(1), Doms::std()],
        cap: if thorough { 20_000 } else { 3_000 },
        opts: EditOpts { max_repl: 12, ..Default::default() },
        cfg: Config::new(),
        depth2: 300,
    }
}
