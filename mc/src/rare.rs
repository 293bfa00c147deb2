//! C10: rewrite-rule steps. Every rule of a set is instantiated with every tuple of arguments of
//! small pools, and every edit of the instance is offered to the real parser and checker. An
//! independent instantiation on S-expressions says which conclusions are instances of the rule.
use crate::core::*;
use crate::rules::Tally;
use crate::sem::{falsify, Doms};
use carcara::checker::{Config, ProofChecker};
use carcara::parser;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum S {
    A(String),
    L(Vec<S>),
}
use S::{A, L};

pub fn sexprs(text: &str) -> Vec<S> {
    let mut stack: Vec<Vec<S>> = vec![vec![]];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '(' => stack.push(vec![]),
            ')' => {
                let l = stack.pop().unwrap();
                stack.last_mut().unwrap().push(L(l));
            }
            c if c.is_whitespace() => {}
            '"' => {
                let s: String = it.by_ref().take_while(|c| *c != '"').collect();
                stack.last_mut().unwrap().push(A(format!("\"{s}\"")));
            }
            c => {
                let mut s = c.to_string();
                while let Some(c) = it.peek() {
                    if c.is_whitespace() || *c == '(' || *c == ')' {
                        break;
                    }
                    s.push(*c);
                    it.next();
                }
                stack.last_mut().unwrap().push(A(s));
            }
        }
    }
    stack.pop().unwrap()
}
pub fn sexpr(text: &str) -> S {
    sexprs(text).pop().unwrap()
}
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            A(s) => write!(f, "{s}"),
            L(v) => {
                write!(f, "(")?;
                for (i, x) in v.iter().enumerate() {
                    write!(f, "{}{x}", if i == 0 { "" } else { " " })?;
                }
                write!(f, ")")
            }
        }
    }
}

/// A parameter: its name, its sort (`T` is polymorphic), and whether it is a list.
type Param = (&'static str, &'static str, bool);

struct Rule {
    name: &'static str,
    params: &'static [Param],
    /// the order of the arguments, if it is not that of the parameters
    order: &'static [&'static str],
    premises: &'static [&'static str],
    conclusion: &'static str,
    /// every instance follows from the premises
    valid: bool,
}

const fn rule(name: &'static str, params: &'static [Param], premises: &'static [&'static str], conclusion: &'static str) -> Rule {
    Rule { name, params, order: &[], premises, conclusion, valid: true }
}

const RULES: &[Rule] = &[
    rule("symm", &[("x", "Bool", false), ("y", "Bool", false)], &[], "(= (= x y) (= y x))"),
    rule("not-not", &[("x", "Bool", false)], &[], "(= (not (not x)) x)"),
    Rule { order: &["y", "x"], ..rule("order", &[("x", "Bool", false), ("y", "Bool", false)], &[], "(= (=> x y) (or (not x) y))") },
    rule("eq-refl", &[("t", "T", false)], &[], "(= (= t t) true)"),
    rule("eq-symm", &[("t", "T", false), ("s", "T", false)], &[], "(= (= t s) (= s t))"),
    rule("and-same", &[("t", "T", false)], &[], "(= (and t t) t)"),
    rule("ite-same", &[("c", "Bool", false), ("t", "T", false)], &[], "(= (ite c t t) t)"),
    rule("or-false", &[("xs", "Bool", true), ("ys", "Bool", true)], &[], "(= (or xs false ys) (or xs ys))"),
    rule("or-false-t", &[("xs", "T", true), ("ys", "T", true)], &[], "(= (or xs false ys) (or xs ys))"),
    rule("and-true", &[("xs", "Bool", true), ("ys", "Bool", true)], &[], "(= (and xs true ys) (and xs ys))"),
    rule("and-true-t", &[("xs", "T", true), ("ys", "T", true)], &[], "(= (and xs true ys) (and xs ys))"),
    rule("or-true", &[("xs", "Bool", true), ("ys", "Bool", true)], &[], "(= (or xs true ys) true)"),
    rule("and-false", &[("xs", "T", true), ("ys", "T", true)], &[], "(= (and xs false ys) false)"),
    rule("or-flat", &[("xs", "Bool", true), ("b", "Bool", false), ("ys", "Bool", true), ("zs", "Bool", true)], &[], "(= (or xs (or b ys) zs) (or xs b ys zs))"),
    rule("or-dup", &[("xs", "T", true), ("b", "T", false), ("ys", "T", true)], &[], "(= (or xs b ys b) (or xs b ys))"),
    rule("and-de-morgan", &[("x", "Bool", false), ("y", "Bool", false), ("zs", "Bool", true)], &[], "(= (not (and x y zs)) (or (not x) (not (and y zs))))"),
    rule("plus-swap", &[("xs", "Int", true), ("t", "Int", false), ("ys", "Int", true)], &[], "(= (+ xs t 1 ys) (+ t xs 1 ys))"),
    rule("plus-zero", &[("xs", "T", true), ("ys", "T", true)], &[], "(= (+ xs 0 ys) (+ xs 0 0 ys))"),
    rule("times-zero", &[("xs", "Int", true), ("ys", "Int", true)], &[], "(= (* xs 0 ys) 0)"),
    rule("distinct", &[("xs", "Int", true), ("t", "Int", false)], &[], "(= (distinct t t xs) false)"),
    Rule { valid: false, ..rule("f-swap", &[("x", "Int", false), ("y", "Int", false)], &[], "(= (f x y) (f y x))") },
    rule("f-cong", &[("x", "Int", false), ("y", "Int", false)], &["(= x y)"], "(= (f x y) (f y x))"),
    rule("f-list", &[("xs", "Int", true)], &[], "(= (f xs) (f xs))"),
    rule("two-premises", &[("x", "Bool", false), ("y", "Bool", false)], &["(= x true)", "(= y false)"], "(= (=> x y) false)"),
    rule("same-premises", &[("x", "T", false), ("y", "T", false), ("z", "T", false)], &["(= x y)", "(= y z)"], "(= x z)"),
    rule("list-premise", &[("xs", "Bool", true), ("y", "Bool", false), ("ys", "Bool", true)], &["(= (or xs ys) true)"], "(= (or xs y ys) true)"),
    rule("fixed-premise", &[("x", "Bool", false)], &["(= p q)"], "(= (and x p) (and x q))"),
    Rule { valid: false, ..rule("unsound", &[("x", "Bool", false)], &[], "x") },
    rule("forall", &[("x", "Bool", false)], &[], "(= (forall ((v Bool)) (or v x)) (or x false))"),
    rule("forall-free", &[("x", "Int", false)], &[], "(= (forall ((a Int)) (not (= a x))) false)"),
    rule("forall-own", &[("x", "Bool", false), ("y", "Bool", false)], &[], "(= (forall ((x Bool)) (and x y)) (and y (not (or x true))))"),
    rule("let", &[("x", "Bool", false), ("y", "Bool", false)], &[], "(= (let ((v x)) (and v y)) (and x y))"),
    // parameters whose sorts have parameters
    rule("bv-swap", &[("x", "(BitVec @n)", false), ("y", "(BitVec @n)", false)], &[], "(= (bvadd x y) (bvadd y x))"),
    rule("bv-not-not", &[("x", "(BitVec @n)", false)], &[], "(= (bvnot (bvnot x)) x)"),
    rule("bv-list", &[("xs", "(BitVec @n)", true), ("y", "(BitVec @n)", false), ("z", "(BitVec @n)", false)], &[], "(= (bvand xs y z) (bvand z xs y))"),
    rule("bv-concat", &[("x", "(BitVec @n)", false), ("y", "(BitVec @m)", false)], &["(= x y)"], "(= (concat x y) (concat y x))"),
    rule("bv-concat-list", &[("xs", "(BitVec @n)", true), ("y", "(BitVec @m)", false)], &[], "(= (concat xs y y) (concat xs (concat y y)))"),
    rule("bv-any", &[("t", "T", false)], &[], "(= (bvor t t) t)"),
    rule("bv-any-concat", &[("t", "T", false)], &[], "(= (bvnot (concat t t)) (concat (bvnot t) (bvnot t)))"),
    rule("bv-same", &[("x", "(BitVec @n)", false), ("y", "(BitVec @n)", false)], &["(= x y)"], "(= y x)"),
    rule("select", &[("a", "(Array @K @E)", false), ("k", "@K", false), ("e", "@E", false)], &[], "(= (select (store a k e) k) e)"),
    rule("select-same", &[("a", "(Array @K @E)", false), ("b", "(Array @K @E)", false), ("k", "@K", false)], &["(= a b)"], "(= (select a k) (select b k))"),
];

const DECLS: &str = "(set-logic ALL)(declare-sort U 0)(declare-const p Bool)(declare-const q Bool)(declare-const x Bool)(declare-const y Bool)(declare-const v Bool)\
(declare-const a Int)(declare-const b Int)(declare-const c U)(declare-const d U)(declare-const xs Int)(declare-fun f (Int Int) Int)\
(declare-const m (_ BitVec 1))(declare-const n (_ BitVec 1))(declare-const w (_ BitVec 2))(declare-const A (Array Int U))(declare-const B (Array Int U))(declare-const C (Array U Bool))";
/// The names of two parameters are defined functions.
const MACROS: &str = "(set-logic ALL)(declare-sort U 0)(declare-const p Bool)(declare-const q Bool)(define-fun x () Bool p)(define-fun y () Bool q)(declare-const v Bool)\
(declare-const a Int)(declare-const b Int)(declare-const c U)(declare-const d U)(define-fun xs () Int 0)(define-fun t () Int a)(declare-fun f (Int Int) Int)\
(declare-const m (_ BitVec 1))(declare-const n (_ BitVec 1))(declare-const w (_ BitVec 2))(declare-const A (Array Int U))(declare-const B (Array Int U))(declare-const C (Array U Bool))";

fn rule_text(r: &Rule) -> String {
    let poly = r.params.iter().any(|p| p.1 == "T");
    let params: Vec<String> = r
        .params
        .iter()
        .map(|(n, s, l)| format!("({n} {}{})", if *s == "T" { "@T0" } else { s }, if *l { " :list" } else { "" }))
        .collect();
    let order: Vec<&str> = if r.order.is_empty() { r.params.iter().map(|p| p.0).collect() } else { r.order.to_vec() };
    let mut sorts = String::new();
    for (name, sort) in [("@n", "Int"), ("@m", "Int"), ("@K", "Type"), ("@E", "Type")] {
        if r.params.iter().any(|p| p.1.contains(name)) {
            sorts += &format!("({name} {sort}) ");
        }
    }
    format!(
        "(declare-rare-rule {} ({}{sorts}{})\n :args ({})\n :premises ({})\n :conclusion {})\n",
        r.name,
        if poly { "(@T0 Type) " } else { "" },
        params.join(" "),
        order.join(" "),
        r.premises.join(" "),
        r.conclusion
    )
}

pub fn rules_text() -> String {
    RULES.iter().map(rule_text).collect()
}

#[derive(Clone, PartialEq, Debug)]
enum Arg {
    One(S),
    Many(Vec<S>),
}
impl std::fmt::Display for Arg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Arg::One(s) => write!(f, "{s}"),
            Arg::Many(v) if v.is_empty() => write!(f, "rare-list"),
            Arg::Many(v) => write!(f, "(rare-list {})", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")),
        }
    }
}

fn elements(sort: &str, big: bool) -> Vec<&'static str> {
    let v: &[&str] = match sort {
        "Bool" => &["p", "q", "y", "x", "(not p)", "(and p q)", "v", "true"],
        "Int" => &["a", "b", "xs", "0", "(+ a b)", "(f a b)"],
        "(BitVec @n)" | "(BitVec @m)" | "bv" => &["m", "n", "w", "(bvnot m)", "#b0", "(concat m n)"],
        "(Array @K @E)" => &["A", "B", "C", "(store A a c)"],
        "@K" => &["a", "0", "c", "d"],
        "@E" => &["c", "d", "p", "q"],
        _ => &["c", "d"],
    };
    v[..v.len().min(if big { 7 } else { 4 })].to_vec()
}

/// The arguments tried for a parameter, given the sort of a polymorphic one.
fn pool(p: &Param, poly: &str, big: bool) -> Vec<Arg> {
    let sort = if p.1 == "T" { poly } else { p.1 };
    let el: Vec<S> = elements(sort, big).iter().map(|t| sexpr(t)).collect();
    let wrong = sexpr(if sort == "Bool" { "a" } else { "p" });
    let mut out = vec![];
    if p.2 {
        out.push(Arg::Many(vec![]));
        let n = if big { 3 } else { 2 };
        for x in &el[..n.min(el.len())] {
            out.push(Arg::Many(vec![x.clone()]));
            for y in &el[..n.min(el.len())] {
                out.push(Arg::Many(vec![x.clone(), y.clone()]));
            }
        }
        out.push(Arg::Many(vec![el[0].clone(), el[1].clone(), el[0].clone()]));
        out.push(Arg::One(el[1].clone()));
        if p.1 != "T" {
            out.push(Arg::Many(vec![wrong.clone(), wrong]));
        }
    } else {
        out.extend(el.iter().cloned().map(Arg::One));
        out.push(Arg::Many(vec![el[0].clone(), el[1].clone()]));
        out.push(Arg::Many(vec![el[1].clone()]));
        out.push(Arg::Many(vec![]));
        if p.1 != "T" {
            out.push(Arg::One(wrong));
        }
    }
    out
}

fn first(v: Vec<S>) -> S {
    v.into_iter().next().unwrap_or(A("none".into()))
}

fn instantiate(t: &S, map: &HashMap<&str, Arg>) -> Vec<S> {
    match t {
        A(s) => match map.get(s.as_str()) {
            Some(Arg::One(x)) => vec![x.clone()],
            Some(Arg::Many(v)) => v.clone(),
            None => vec![t.clone()],
        },
        L(v) => match &v[0] {
            A(q) if q == "forall" => {
                let L(b) = &v[1] else { unreachable!() };
                let bound: Vec<String> = b.iter().map(|x| if let L(x) = x { x[0].to_string() } else { String::new() }).collect();
                let map: HashMap<&str, Arg> = map.iter().filter(|(k, _)| !bound.iter().any(|b| b == *k)).map(|(k, v)| (*k, v.clone())).collect();
                vec![L(vec![v[0].clone(), v[1].clone(), first(instantiate(&v[2], &map))])]
            }
            A(q) if q == "let" => {
                let L(b) = &v[1] else { unreachable!() };
                let b = b
                    .iter()
                    .map(|x| match x {
                        L(x) => L(vec![x[0].clone(), first(instantiate(&x[1], map))]),
                        a => a.clone(),
                    })
                    .collect();
                vec![L(vec![v[0].clone(), L(b), first(instantiate(&v[2], map))])]
            }
            _ => vec![L(v.iter().flat_map(|x| instantiate(x, map)).collect())],
        },
    }
}

/// Disjunctions and conjunctions of no or one term are what they mean.
fn normal(t: &S) -> S {
    match t {
        A(_) => t.clone(),
        L(v) => {
            let v: Vec<S> = v.iter().map(normal).collect();
            match v.as_slice() {
                [A(o)] if o == "or" => A("false".into()),
                [A(o)] if o == "and" => A("true".into()),
                [A(o), x] if o == "or" || o == "and" => x.clone(),
                _ => L(v),
            }
        }
    }
}
fn degenerate(t: &S) -> bool {
    match t {
        A(_) => false,
        L(v) => v.len() < 2 || (v.len() == 2 && matches!(&v[0], A(o) if o == "or" || o == "and")) || v.iter().any(degenerate),
    }
}

/// All edits of a term at one place.
fn edits(t: &S, leaves: &[S]) -> Vec<S> {
    let mut out = vec![];
    match t {
        A(s) => {
            for l in leaves {
                if l.to_string() != *s {
                    out.push(l.clone());
                }
            }
        }
        L(v) => {
            for i in 1..v.len() {
                for e in edits(&v[i], leaves) {
                    let mut w = v.clone();
                    w[i] = e;
                    out.push(L(w));
                }
                let mut w = v.clone();
                w.remove(i);
                out.push(L(w));
                let mut w = v.clone();
                w.insert(i, v[i].clone());
                out.push(L(w));
                for j in i + 1..v.len() {
                    let mut w = v.clone();
                    w.swap(i, j);
                    out.push(L(w));
                }
                if v.len() > 2 {
                    out.push(v[i].clone());
                }
            }
            for o in ["or", "and", "not", "=", "+", "*"] {
                let mut w = v.clone();
                w[0] = A(o.into());
                out.push(L(w));
            }
        }
    }
    out
}

struct Probe<'a> {
    decls: &'a str,
    rules: &'a str,
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Unreadable,
    Rejected,
    Accepted,
    Panic(String),
}

impl Probe<'_> {
    fn check(&self, name: &str, args: &str, premises: &[String], clause: &str) -> Verdict {
        let mut proof = String::new();
        for (i, p) in premises.iter().enumerate() {
            proof += &format!("(step h{i} (cl {p}) :rule hole)\n");
        }
        let hs: Vec<String> = (0..premises.len()).map(|i| format!("h{i}")).collect();
        let hs = if hs.is_empty() { String::new() } else { format!(":premises ({})", hs.join(" ")) };
        proof += &format!("(step t (cl {clause}) :rule rare_rewrite {hs} :args ({name} {args}))\n(step end (cl) :rule hole)\n");
        self.proof(&proof)
    }
    fn proof(&self, proof: &str) -> Verdict {
        let r = guard(|| {
            let Ok((problem, proof, rules, mut pool)) =
                parser::parse_instance(self.decls.as_bytes(), proof.as_bytes(), Some(self.rules.as_bytes()), parser::Config::new())
            else {
                return Verdict::Unreadable;
            };
            match ProofChecker::new(&mut pool, &rules, Config::new()).check(&problem, &proof) {
                Ok(_) => Verdict::Accepted,
                Err(_) => Verdict::Rejected,
            }
        });
        r.unwrap_or_else(Verdict::Panic)
    }
}

fn product(pools: &[Vec<Arg>]) -> Vec<Vec<Arg>> {
    let mut out = vec![vec![]];
    for p in pools {
        out = out.iter().flat_map(|t| p.iter().map(move |a| [t.as_slice(), &[a.clone()]].concat())).collect();
    }
    out
}

struct Item<'a> {
    decls: &'static str,
    rule: &'a Rule,
    poly: &'static str,
    args: Vec<Arg>,
}

fn item(rep: &Report, it: &Item, thorough: bool) {
    let mut t = Tally::new();
    let r = it.rule;
    let text = rule_text(r);
    let probe = Probe { decls: it.decls, rules: &text };
    let map: HashMap<&str, Arg> = r.params.iter().map(|p| p.0).zip(it.args.iter().cloned()).collect();
    let order: Vec<&str> = if r.order.is_empty() { r.params.iter().map(|p| p.0).collect() } else { r.order.to_vec() };
    let given: Vec<String> = order.iter().map(|o| map[o].to_string()).collect();
    let args = given.join(" ");
    let name = format!("\"{}\"", r.name);
    // whether the arguments are of the kinds of the parameters
    let listed = |p: &Param, a: &Arg| p.2 || matches!(a, Arg::One(_));
    let sorted = |p: &Param, a: &Arg| {
        p.1 == "T" || {
            let el: Vec<S> = elements(p.1, true).iter().map(|t| sexpr(t)).collect();
            match a {
                Arg::One(x) => el.contains(x),
                Arg::Many(v) => v.iter().all(|x| el.contains(x)),
            }
        }
    };
    let fits = r.params.iter().zip(&it.args).all(|(p, a)| listed(p, a) && sorted(p, a));
    let canonical = fits && r.params.iter().zip(&it.args).all(|(p, a)| p.2 == matches!(a, Arg::Many(_)));
    // renaming of bound variables is not compared with the textual instance
    let binder = ["forall", "let"].iter().any(|b| r.conclusion.contains(b));
    let bound_free = !it.args.iter().any(|a| [" a ", " v ", " x "].iter().any(|n| format!(" {} ", a.to_string().replace(['(', ')'], " ")).contains(n)));
    let textual = !binder || (bound_free && r.name != "forall-own");

    let premises: Vec<S> = r.premises.iter().map(|p| first(instantiate(&sexpr(p), &map))).collect();
    let instance = instantiate(&sexpr(r.conclusion), &map);
    let want = instance.first().cloned().unwrap_or(A("none".into()));
    let leaves: Vec<S> = ["p", "q", "a", "b", "0", "true", "false", "c"].iter().take(if thorough { 8 } else { 7 }).map(|s| sexpr(s)).collect();

    // conclusions offered with the right premises, and premises offered with the right conclusion
    let mut offers: Vec<(Vec<S>, S)> = vec![(premises.clone(), want.clone())];
    let mut conclusions: BTreeSet<S> = edits(&want, &leaves).into_iter().collect();
    conclusions.insert(normal(&want));
    conclusions.remove(&want);
    if thorough && canonical && want.to_string().len() <= 26 {
        let once: Vec<S> = conclusions.iter().cloned().collect();
        for c in &once {
            conclusions.extend(edits(c, &leaves));
        }
        conclusions.remove(&want);
    }
    offers.extend(conclusions.into_iter().map(|c| (premises.clone(), c)));
    for i in 0..premises.len() {
        for e in edits(&premises[i], &leaves) {
            let mut p = premises.clone();
            p[i] = e;
            offers.push((p, want.clone()));
        }
        let mut p = premises.clone();
        p[i] = normal(&p[i]);
        offers.push((p, want.clone()));
        let mut p = premises.clone();
        p.remove(i);
        offers.push((p, want.clone()));
        let mut p = premises.clone();
        p.insert(i, premises[i].clone());
        offers.push((p, want.clone()));
        let mut p = premises.clone();
        p.rotate_left(1);
        offers.push((p, want.clone()));
    }
    offers.push(([premises.as_slice(), &[sexpr("(= p p)")]].concat(), want.clone()));

    for (n, (ps, c)) in offers.iter().enumerate() {
        t.inc("evaluations", 1);
        let shown: Vec<String> = ps.iter().map(|p| p.to_string()).collect();
        let v = probe.check(&name, &args, &shown, &c.to_string());
        rep.case(|| format!("{} ({args}) premises {shown:?} conclusion {c}", r.name));
        let key = || format!("{} ({args}) premises {shown:?} conclusion {c}{}", r.name, if it.decls == DECLS { "" } else { " with macros" });
        match v {
            Verdict::Panic(p) => rep.violation(&key(), &format!("panic: {p}")),
            Verdict::Accepted => {
                t.inc("accepted", 1);
                t.distinct.insert(hash_of(&key()));
                let same = normal(c) == normal(&want) && ps.len() == premises.len() && ps.iter().zip(&premises).all(|(a, b)| normal(a) == normal(b));
                if !fits {
                    rep.violation(&key(), "accepted, but the arguments are not of the kinds of the parameters");
                } else if textual && !same {
                    rep.violation(&key(), &format!("accepted, but the instance is {want} with premises {:?}", premises.iter().map(|p| p.to_string()).collect::<Vec<_>>()));
                }
                if r.valid && it.decls == DECLS {
                    let mut env = Env::new(it.decls);
                    let texts: Vec<String> = shown.iter().cloned().chain([c.to_string()]).collect();
                    let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
                    if let Ok(mut ts) = env.try_terms(&refs) {
                        let c = ts.pop().unwrap();
                        let ps: Vec<Vec<_>> = ts.into_iter().map(|t| vec![t]).collect();
                        let f = falsify(&ps, &[c], &[Doms::std()], 20_000);
                        t.inc("meanings", 1);
                        if let Some(m) = f.counter {
                            rep.violation(&key(), &format!("accepted, but false in {m}"));
                        }
                    }
                }
            }
            Verdict::Rejected if n == 0 && canonical && textual && !degenerate(&want) && !premises.iter().any(degenerate) => {
                rep.violation(&key(), "an exact instance is rejected");
            }
            _ => {}
        }
    }

    // wrong shapes of the step around the right instance
    let shown: Vec<String> = premises.iter().map(|p| p.to_string()).collect();
    let w = want.to_string();
    let mut shapes = vec![
        (name.clone(), format!("{args} p"), w.clone()),
        (name.clone(), format!("p {args}"), w.clone()),
        (name.clone(), given[1..].join(" "), w.clone()),
        (name.clone(), given[..given.len() - 1].join(" "), w.clone()),
        ("\"other\"".to_string(), args.clone(), w.clone()),
        (r.name.to_string(), args.clone(), w.clone()),
        (String::new(), args.clone(), w.clone()),
        (name.clone(), args.clone(), format!("{w} {w}")),
        (name.clone(), args.clone(), format!("{w} p")),
        (name.clone(), args.clone(), String::new()),
    ];
    if given.len() > 1 && given[0] != given[1] {
        let mut g = given.clone();
        g.swap(0, 1);
        // the result may be an instance of the swapped arguments as well
        let mut m = map.clone();
        m.insert(order[0], map[order[1]].clone());
        m.insert(order[1], map[order[0]].clone());
        if textual && normal(&instantiate(&sexpr(r.conclusion), &m).first().cloned().unwrap_or(A("none".into()))) != normal(&want) {
            shapes.push((name.clone(), g.join(" "), w.clone()));
        }
    }
    for (n, a, c) in shapes {
        t.inc("evaluations", 1);
        let key = format!("{n} ({a}) premises {shown:?} clause ({c})");
        match probe.check(&n, &a, &shown, &c) {
            Verdict::Panic(p) => rep.violation(&key, &format!("panic: {p}")),
            Verdict::Accepted => rep.violation(&key, "accepted with a wrong rule name, number or order of arguments, or number of literals"),
            _ => {}
        }
    }
    t.flush(rep);
}

/// Rule files with one token removed, repeated or replaced: whatever they mean, there is an answer.
fn files(rep: &Report, thorough: bool) {
    let mut items: Vec<(usize, Vec<String>)> = vec![];
    for (i, r) in RULES.iter().enumerate() {
        let text = rule_text(r).replace('(', " ( ").replace(')', " ) ");
        let toks: Vec<String> = text.split_whitespace().map(|s| s.to_string()).collect();
        let set: BTreeSet<String> = toks.iter().cloned().chain(["z", "@T1", "Type", "rare-list", "5", "\"s\"", ":foo"].map(|s| s.to_string())).collect();
        for k in 0..toks.len() {
            let mut v = toks.clone();
            v.remove(k);
            items.push((i, v));
            let mut v = toks.clone();
            v.insert(k, toks[k].clone());
            items.push((i, v));
            for x in &set {
                if *x != toks[k] {
                    let mut v = toks.clone();
                    v[k] = x.clone();
                    items.push((i, v));
                    if thorough {
                        let mut v = toks.clone();
                        v.insert(k, x.clone());
                        items.push((i, v));
                    }
                }
            }
        }
    }
    par(&items, |(i, toks)| {
        let mut t = Tally::new();
        let r = &RULES[*i];
        let text = toks.join(" ");
        let probe = Probe { decls: DECLS, rules: &text };
        for set in [0, 1] {
            let n = r.params.len();
            let args: Vec<String> = r.params.iter().map(|p| pool(p, "Bool", false)[set + 1].to_string()).collect();
            let premises: Vec<String> = r.premises.iter().map(|_| "(= p q)".to_string()).collect();
            for k in [n, n + 1, n - 1] {
                let mut a = args.clone();
                a.resize(k, "p".into());
                t.inc("rule_files", 1);
                if let Verdict::Panic(p) = probe.check(&format!("\"{}\"", r.name), &a.join(" "), &premises, "(= p p)") {
                    rep.violation(&format!("{} {text} with arguments {a:?}", crate::rules::panic_site(&p)), &format!("panic: {p}"));
                }
            }
        }
        t.flush(rep);
    });
}

pub fn run(rep: &Report, thorough: bool) {
    let mut items = vec![];
    let mut skip = HashSet::new();
    for decls in [DECLS, MACROS] {
        for r in RULES {
            let polys: &[&'static str] = if r.params.iter().any(|p| p.1 == "T") { &["Bool", "Int", "U", "bv"] } else { &["Bool"] };
            for poly in polys {
                let big = thorough && r.params.len() < 4;
                let pools: Vec<Vec<Arg>> = r.params.iter().map(|p| pool(p, poly, big)).collect();
                for args in product(&pools) {
                    // in the problem with macros the arguments do not use them
                    let used = |n: &str| args.iter().any(|a| format!(" {a} ").replace(['(', ')'], " ").contains(&format!(" {n} ")));
                    if decls == MACROS && ["x", "y", "xs", "t"].iter().any(|n| used(n)) {
                        continue;
                    }
                    if !skip.insert(format!("{} {} {:?}", decls.len(), r.name, args)) {
                        continue;
                    }
                    items.push(Item { decls, rule: r, poly, args });
                }
            }
        }
    }
    rep.add("argument_tuples", items.len() as u64);
    par(&items, |it| {
        let _ = it.poly;
        item(rep, it, thorough)
    });
    files(rep, thorough);
}
