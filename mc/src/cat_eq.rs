//! Canonical instances of the equality rules (C03, C11, C19).
use crate::cat_bool::Cat;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;

pub const DECLS: &str = "(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-const c U)(declare-const d U)\
(declare-fun f (U) U)(declare-fun h (U) U)(declare-fun g (U U) U)(declare-fun P (U) Bool)(declare-fun R (U U) Bool)\
(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)(declare-const i Int)(declare-const j Int)(declare-const k Int)\
(declare-const u Real)(declare-const v Real)(declare-const bv (_ BitVec 2))(declare-const bw (_ BitVec 2))";

pub fn instances() -> Vec<Inst> {
    let mut c = Cat::new();
    for t in ["a", "(f a)", "p", "(and p q)", "(forall ((x U)) (P x))", "(+ i 1)", "(= a b)", "(choice ((x U)) (P x))"] {
        c.e("eq_reflexive", t, t);
        c.e("refl", t, t);
    }
    for (x, y) in [
        ("(forall ((x U)) (P x))", "(forall ((y U)) (P y))"),
        ("(forall ((x U) (y U)) (R x y))", "(forall ((y U) (x U)) (R y x))"),
        ("(exists ((x U)) (forall ((y U)) (R x y)))", "(exists ((y U)) (forall ((x U)) (R y x)))"),
        ("(forall ((x U)) (= x a))", "(forall ((y U)) (= a y))"),
        ("(forall ((x U)) (and (P x) (exists ((x U)) (R x a))))", "(forall ((y U)) (and (P y) (exists ((z U)) (R z a))))"),
        ("(forall ((x U)) (and (P x) (P a)))", "(forall ((a1 U)) (and (P a1) (P a)))"),
        ("(let ((x (f a))) (R x x))", "(let ((y (f a))) (R y y))"),
        ("(let ((x a) (y b)) (R x y))", "(let ((y a) (x b)) (R y x))"),
        ("(choice ((x U)) (P x))", "(choice ((y U)) (P y))"),
        ("(= a b)", "(= b a)"),
        ("(f (ite (= a b) c d))", "(f (ite (= b a) c d))"),
        ("(forall ((x Bool)) (or x p))", "(forall ((y Bool)) (or y p))"),
        ("(forall ((x U)) (and (exists ((y U)) (R x y)) (exists ((z U)) (R z x))))", "(forall ((z U)) (and (exists ((x U)) (R z x)) (exists ((y U)) (R y z))))"),
    ] {
        c.e("refl", x, y);
    }
    // transitivity
    c.f("trans", &[&["(= a b)"], &["(= b c)"]], &["(= a c)"], &[]);
    c.f("trans", &[&["(= b a)"], &["(= c b)"], &["(= c d)"]], &["(= a d)"], &[]);
    c.f("trans", &[&["(= c d)"], &["(= a b)"], &["(= b c)"]], &["(= a d)"], &[]);
    c.f("trans", &[&["(= p q)"], &["(= q r)"]], &["(= p r)"], &[]);
    c.t("eq_transitive", &["(not (= a b))", "(not (= b c))", "(= a c)"]);
    c.t("eq_transitive", &["(not (= b a))", "(not (= c b))", "(not (= d c))", "(= d a)"]);
    c.t("eq_transitive", &["(not (= c d))", "(not (= a b))", "(not (= b c))", "(= a d)"]);
    // congruence
    c.f("cong", &[&["(= a b)"]], &["(= (f a) (f b))"], &[]);
    c.f("cong", &[&["(= b a)"]], &["(= (f a) (f b))"], &[]);
    c.f("cong", &[&["(= a b)"], &["(= c d)"]], &["(= (g a c) (g b d))"], &[]);
    c.f("cong", &[&["(= c d)"]], &["(= (g a c) (g a d))"], &[]);
    c.f("cong", &[&["(= a b)"]], &["(= (= a c) (= b c))"], &[]);
    c.f("cong", &[&["(= a b)"]], &["(= (= a c) (= c b))"], &[]);
    c.f("cong", &[&["(= a b)"], &["(= c d)"]], &["(= (= c a) (= b d))"], &[]);
    c.f("cong", &[&["(= p q)"], &["(= q r)"]], &["(= (and p q r) (and q r r))"], &[]);
    c.f("cong", &[&["(= p q)"]], &["(= (not p) (not q))"], &[]);
    c.f("cong", &[&["(= p q)"]], &["(= (ite p a b) (ite q a b))"], &[]);
    c.f("cong", &[&["(= a b)"]], &["(= (distinct a c d) (distinct b c d))"], &[]);
    c.f("cong", &[&["(= i j)"]], &["(= (+ i k 1) (+ j k 1))"], &[]);
    c.f("cong", &[&["(= i j)"], &["(= k 0)"]], &["(= (- i k) (- j 0))"], &[]);
    c.f("cong", &[&["(= i j)"]], &["(= (<= i 2) (<= j 2))"], &[]);
    c.f("cong", &[&["(= bv bw)"]], &["(= ((_ extract 0 0) bv) ((_ extract 0 0) bw))"], &[]);
    c.f("cong", &[&["(= bv bw)"]], &["(= ((_ sign_extend 1) bv) ((_ sign_extend 1) bw))"], &[]);
    c.f("ho_cong", &[&["(= f h)"], &["(= a b)"]], &["(= (f a) (h b))"], &[]);
    c.f("ho_cong", &[&["(= f h)"]], &["(= (f a) (h a))"], &[]);
    c.f("ho_cong", &[&["(= c d)"], &["(= a b)"]], &["(= (g c a) (g d b))"], &[]);
    c.t("eq_congruent", &["(not (= a b))", "(= (f a) (f b))"]);
    c.t("eq_congruent", &["(not (= b a))", "(not (= c d))", "(= (g a c) (g b d))"]);
    c.t("eq_congruent", &["(not (= i j))", "(not (= 1 k))", "(= (+ i k) (+ j 1))"]);
    c.t("eq_congruent_pred", &["(not (= a b))", "(not (P a))", "(P b)"]);
    c.t("eq_congruent_pred", &["(not (= a b))", "(P a)", "(not (P b))"]);
    c.t("eq_congruent_pred", &["(not (= a b))", "(not (= c d))", "(not (R a c))", "(R b d)"]);
    c.t("eq_congruent_pred", &["(not (= i j))", "(not (= 1 k))", "(not (< i 1))", "(< j k)"]);
    // symmetry
    for (x, y) in [("a", "b"), ("p", "q"), ("(f a)", "(g a b)"), ("i", "(+ j 1)")] {
        c.p("symm", &[&format!("(= {x} {y})")], &[&format!("(= {y} {x})")]);
        c.p("not_symm", &[&format!("(not (= {x} {y}))")], &[&format!("(not (= {y} {x}))")]);
        c.t("eq_symmetric", &[&format!("(= (= {x} {y}) (= {y} {x}))")]);
    }
    // distinct
    c.e("distinct_elim", "(distinct a b)", "(not (= a b))");
    c.e("distinct_elim", "(distinct a b)", "(not (= b a))");
    c.e("distinct_elim", "(distinct p q)", "(not (= p q))");
    c.e("distinct_elim", "(distinct p q r)", "false");
    c.e("distinct_elim", "(distinct a b c)", "(and (not (= a b)) (not (= a c)) (not (= b c)))");
    c.e(
        "distinct_elim",
        "(distinct a b c d)",
        "(and (not (= a b)) (not (= c a)) (not (= a d)) (not (= b c)) (not (= b d)) (not (= c d)))",
    );
    c.e("distinct_elim", "(distinct i j k)", "(and (not (= i j)) (not (= i k)) (not (= j k)))");
    c.v
}

pub fn family(thorough: bool) -> Family {
    let mut small = Doms::std().with_u(3);
    small.int = vec![0, 1];
    Family {
        name: "equality",
        decls: DECLS.into(),
        fresh: vec!["a", "b", "c", "(f a)", "(f b)", "f", "h", "p", "q", "true", "false", "(P a)", "i", "j", "0", "bv", "#b01", "u"],
        insts: instances(),
        doms: vec![Doms::std().with_u(1), Doms::std(), small],
        cap: if thorough { 30_000 } else { 3_000 },
        opts: EditOpts { max_repl: 12, ..Default::default() },
        cfg: Config::new(),
        depth2: 400,
    }
}
