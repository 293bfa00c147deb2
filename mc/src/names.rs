//! Names and binders (C21, and the name resolution part of C18): terms are compared with a
//! reference nameless (de Bruijn) representation, in which capture cannot happen.
use crate::core::*;
use crate::rules::Tally;
use crate::sem::*;
use carcara::ast::*;
use carcara::parser::{self, Parser};
use indexmap::IndexMap;
use std::rc::Rc as SRc;

/// A nameless term.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum D {
    Free(String),
    B(usize),
    App(String, Vec<SRc<D>>),
    Ho(SRc<D>, Vec<SRc<D>>),
    Bind(String, Vec<String>, SRc<D>),
    Let(Vec<SRc<D>>, SRc<D>),
}

fn shift(d: &SRc<D>, by: usize, cut: usize) -> SRc<D> {
    if by == 0 {
        return d.clone();
    }
    SRc::new(match d.as_ref() {
        D::Free(_) => return d.clone(),
        D::B(i) if *i >= cut => D::B(i + by),
        D::B(_) => return d.clone(),
        D::App(f, a) => D::App(f.clone(), a.iter().map(|x| shift(x, by, cut)).collect()),
        D::Ho(f, a) => D::Ho(shift(f, by, cut), a.iter().map(|x| shift(x, by, cut)).collect()),
        D::Bind(q, s, b) => D::Bind(q.clone(), s.clone(), shift(b, by, cut + s.len())),
        D::Let(v, b) => D::Let(v.iter().map(|x| shift(x, by, cut)).collect(), shift(b, by, cut + v.len())),
    })
}

#[derive(Clone)]
pub enum Entry {
    Bound(usize),
    Alias(SRc<D>, usize),
}

/// The scope of a name: innermost last.
#[derive(Clone, Default)]
pub struct Scope {
    pub names: Vec<(String, Option<String>, Entry)>,
    pub depth: usize,
}
impl Scope {
    pub fn find(&self, n: &str, sort: Option<&str>) -> Option<SRc<D>> {
        for (m, s, e) in self.names.iter().rev() {
            if m == n && (s.is_none() || sort.is_none() || s.as_deref() == sort) {
                return Some(match e {
                    Entry::Bound(level) => SRc::new(D::B(self.depth - 1 - level)),
                    Entry::Alias(d, at) => shift(d, self.depth - at, 0),
                });
            }
        }
        None
    }
    pub fn bind(&self, names: &[(String, Option<String>)]) -> Scope {
        let mut s = self.clone();
        for (n, srt) in names {
            s.names.push((n.clone(), srt.clone(), Entry::Bound(s.depth)));
            s.depth += 1;
        }
        s
    }
    pub fn alias(&mut self, n: &str, sort: Option<String>, d: SRc<D>, at: usize) {
        self.names.push((n.to_string(), sort, Entry::Alias(d, at)));
    }
}

/// The nameless form of one of the checker's terms. Variables are identified by name and sort.
pub fn nameless(t: &Term, sc: &Scope) -> SRc<D> {
    let list = |a: &[carcara::ast::Rc<Term>]| a.iter().map(|x| nameless(x, sc)).collect::<Vec<_>>();
    SRc::new(match t {
        Term::Var(n, s) => {
            let s = show(s);
            match sc.find(n, Some(&s)) {
                Some(d) => return d,
                None => D::Free(format!("{n}:{s}")),
            }
        }
        Term::Const(_) => D::Free(show(t)),
        Term::App(f, a) => match f.as_ref() {
            Term::Var(n, s) if sc.find(n, Some(&show(s))).is_none() => D::App(n.clone(), list(a)),
            _ => D::Ho(nameless(f, sc), list(a)),
        },
        Term::Op(o, a) => D::App(o.to_string(), list(a)),
        Term::Binder(q, b, i) => {
            let names: Vec<_> = b.iter().map(|(n, s)| (n.clone(), Some(show(s)))).collect();
            D::Bind(q.to_string(), b.iter().map(|x| show(&x.1)).collect(), nameless(i, &sc.bind(&names)))
        }
        Term::Let(b, i) => {
            let names: Vec<_> = b.iter().map(|(n, v)| (n.clone(), Some(srt_text(v)))).collect();
            D::Let(b.iter().map(|x| nameless(&x.1, sc)).collect(), nameless(i, &sc.bind(&names)))
        }
        Term::ParamOp { op, op_args, args } => D::App(
            format!("(_ {op} {})", op_args.iter().map(|x| show(x)).collect::<Vec<_>>().join(" ")),
            list(args),
        ),
        Term::Sort(_) => D::Free(show(t)),
    })
}

fn srt_text(t: &Term) -> String {
    match t {
        Term::Var(_, s) => show(s),
        Term::App(f, _) => match f.as_ref() {
            Term::Var(_, s) => match s.as_ref() {
                Term::Sort(Sort::Function(v)) => show(v.last().unwrap()),
                _ => "?".into(),
            },
            _ => "?".into(),
        },
        Term::Binder(Binder::Choice, b, _) => show(&b[0].1),
        Term::Binder(Binder::Forall | Binder::Exists, ..) => "Bool".into(),
        Term::Let(_, i) => srt_text(i),
        Term::Op(Operator::Ite, a) => srt_text(&a[1]),
        Term::Op(..) => "Bool".into(),
        _ => "?".into(),
    }
}

/// Nameless form of `t` after the reference simultaneous substitution of `map`.
pub fn nameless_subst(t: &Term, map: &[(T, T)]) -> SRc<D> {
    let mut sc = Scope::default();
    let empty = Scope::default();
    for (x, v) in map {
        if let Term::Var(n, s) = x.as_ref() {
            sc.alias(n, Some(show(s)), nameless(v, &empty), 0);
        }
    }
    nameless(t, &sc)
}

// ------------------------------------------------------------------------------------------------
// Enumerated terms

pub const DECLS: &str = "(declare-sort U 0)(declare-sort V 0)(declare-const x U)(declare-const y U)(declare-const |y'| U)\
(declare-const |x'| U)(declare-const |x''| U)(declare-const z U)(declare-fun f (U) U)(declare-fun P (U) Bool)(declare-fun R (U U) Bool)\
(declare-fun RV (V) Bool)(declare-const p Bool)(declare-const q Bool)(declare-fun h (U V) U)";

fn binding_lists(names: &[&str], two: bool) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = names.iter().map(|n| vec![n.to_string()]).collect();
    if two {
        for a in names {
            for b in names {
                if a != b {
                    out.push(vec![a.to_string(), b.to_string()]);
                }
            }
        }
    }
    out
}

/// All the binder terms over the given bodies.
fn wraps(bodies: &[String], lists: &[Vec<String>], kinds: &[&str], values: &[&str]) -> Vec<String> {
    let mut out = Vec::new();
    for b in bodies {
        for k in kinds {
            for l in lists {
                if *k == "choice" && l.len() > 1 {
                    continue;
                }
                if *k == "let" {
                    if l.len() == 1 {
                        for v in values {
                            out.push(format!("(let (({} {v})) {b})", l[0]));
                        }
                    } else {
                        for v in values {
                            for w in values {
                                out.push(format!("(let (({} {v}) ({} {w})) {b})", l[0], l[1]));
                            }
                        }
                    }
                    continue;
                }
                let bl: Vec<String> = l.iter().map(|n| format!("({n} U)")).collect();
                let bl = bl.join(" ");
                if *k == "choice" {
                    out.push(format!("(P (choice ({bl}) {b}))"));
                } else {
                    out.push(format!("({k} ({bl}) {b})"));
                }
            }
        }
    }
    out
}

const MAPS: [&[(&str, &str)]; 26] = [
    &[("x", "y")],
    &[("x", "|y'|")],
    &[("x", "|x'|")],
    &[("x", "x")],
    &[("x", "z")],
    &[("x", "(f y)")],
    &[("x", "(f x)")],
    &[("x", "(h y v)")],
    &[("x", "(choice ((y U)) (R x y))")],
    &[("x", "(choice ((x U)) (R x y))")],
    &[("y", "x")],
    &[("y", "(f |x'|)")],
    &[("|y'|", "y")],
    &[("z", "x")],
    &[("z", "(let ((x y)) (f x))")],
    &[("x", "y"), ("y", "x")],
    &[("x", "y"), ("y", "z")],
    &[("x", "y"), ("y", "y")],
    &[("x", "x"), ("y", "x")],
    &[("x", "z"), ("y", "z")],
    &[("x", "(f y)"), ("y", "(f x)")],
    &[("y", "z"), ("x", "|y'|")],
    &[("x", "|x'|"), ("|x'|", "x")],
    &[("x", "y"), ("|y'|", "|x'|")],
    &[("x", "y"), ("y", "|y'|"), ("|y'|", "x")],
    &[("p", "(P x)"), ("x", "y")],
];

pub fn terms(thorough: bool) -> Vec<Vec<String>> {
    let names = ["x", "y", "|y'|", "|x'|"];
    let vars = ["x", "y", "|y'|", "|x'|", "z"];
    let mut atoms = Vec::new();
    for a in vars {
        for b in vars {
            if thorough || a <= b || a == "y" {
                atoms.push(format!("(R {a} {b})"));
            }
        }
    }
    atoms.push("(and p (P x))".into());
    atoms.push("(R (f x) (choice ((x U)) (R x y)))".into());
    let lists = binding_lists(&names, true);
    let vals = if thorough { &["x", "y", "|y'|", "z", "(f x)", "(f y)"][..] } else { &["x", "y", "(f y)"][..] };
    let l1 = wraps(&atoms, &lists, &["forall", "choice", "let"], vals);
    let small = if thorough { binding_lists(&names[..3], true) } else { binding_lists(&["x", "y"], true) };
    let inner_lists = if thorough { lists.clone() } else { binding_lists(&["x", "y", "|y'|"], true) };
    let few: Vec<String> = atoms
        .iter()
        .filter(|a| thorough || ["(R x y)", "(R |y'| y)", "(R y x)", "(R x |y'|)", "(R x z)", "(R y z)"].contains(&a.as_str()))
        .cloned()
        .collect();
    let l1s = wraps(&few, &inner_lists, &["exists", "let"], if thorough { &["x", "y", "(f x)"] } else { &["x", "y"] });
    let mut mid = Vec::new();
    for (i, t) in l1s.iter().enumerate() {
        mid.push(t.clone());
        if thorough || i % 3 == 0 {
            mid.push(format!("(and (R x y) {t})"));
        }
    }
    let l2 = wraps(&mid, &small, &["forall", "let"], &["x", "(f y)"]);
    let l2c = wraps(&mid, &binding_lists(&["x", "y"], false), &["choice", "lambda"], &[]);
    // binders of another sort that shadow by name only
    let mut other = Vec::new();
    for n in ["x", "y"] {
        for m in ["x", "y"] {
            for b in ["(and (RV @n) (P @m))", "(exists ((@m V)) (and (RV @n) (P z)))", "(and (RV @n) (exists ((@m U)) (R @m z)))"] {
                let b = b.replace("@n", n).replace("@m", m);
                other.push(format!("(forall (({n} V)) {b})"));
                other.push(format!("(forall (({n} V) ({m} U)) (and (R z z) {b}))"));
            }
        }
    }
    vec![atoms, l1, other, l2, l2c]
}

pub fn run_subst(rep: &Report, thorough: bool) {
    let mut chunks: Vec<Vec<String>> = Vec::new();
    for ts in terms(thorough) {
        for c in ts.chunks(4000) {
            chunks.push(c.to_vec());
        }
    }
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        let mut env = Env::new(&format!("{DECLS}(declare-const v V)"));
        let texts: Vec<&str> = chunk.iter().map(|s| s.as_str()).collect();
        let terms: Vec<T> = texts
            .iter()
            .filter_map(|s| env.try_terms(&[s]).ok())
            .flatten()
            .collect();
        t.inc("terms", terms.len() as u64);
        t.inc("ill_sorted_texts", (texts.len() - terms.len()) as u64);
        for m in MAPS {
            let map: Vec<(T, T)> = m.iter().map(|(a, b)| (env.term(a), env.term(b))).collect();
            let im: IndexMap<T, T> = map.iter().cloned().collect();
            let mtext = m.iter().map(|(a, b)| format!("{a} -> {b}")).collect::<Vec<_>>().join(", ");
            // one substitution that accumulates cached results, and one fresh one per term
            let mut shared = Substitution::new(&mut env.pool, im.clone()).expect("well sorted substitution");
            for term in &terms {
                let want = nameless_subst(term, &map);
                for reuse in [true, false] {
                    t.inc("evaluations", 1);
                    rep.case(|| format!("{} [{mtext}]", show(term)));
                    let got = guard(|| {
                        if reuse {
                            shared.apply(&mut env.pool, term)
                        } else {
                            let mut s = Substitution::new(&mut env.pool, im.clone()).unwrap();
                            s.apply(&mut env.pool, term)
                        }
                    });
                    let key = || format!("{{{mtext}}} applied to {}{}", show(term), if reuse { " (after other terms)" } else { "" });
                    match got {
                        Ok(r) => {
                            if r != *term {
                                t.distinct.insert(hash_of(&(mtext.clone(), show(term))));
                            }
                            if nameless(&r, &Scope::default()) != want {
                                rep.violation(&key(), &format!("gives {}", show(&r)));
                            }
                        }
                        Err(p) => rep.violation(&key(), &format!("panics: {p}")),
                    }
                }
            }
        }
        t.flush(rep);
    });
}
