//! Binder rules (C08): every small nest of contexts closed by the subproof rules, with `refl` steps
//! inside; whatever is exported to the top level must be valid.
use crate::core::*;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;
use carcara::parser;
use std::collections::HashMap;

pub const DECLS: &str = "(set-logic ALL)(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-const x U)(declare-const y U)\
(declare-fun P (U) Bool)(declare-fun R (U U) Bool)(assert (= a b))(assert (= b a))";
const HEAD: &str = "(assume h (= a b))\n";

const BODIES: [&str; 14] = [
    "(P x)",
    "(P y)",
    "(P a)",
    "(R x y)",
    "(R y x)",
    "(R a y)",
    "(R x x)",
    "(R x a)",
    "(P (choice ((x U)) (P x)))",
    "(P (choice ((x U)) (not (P x))))",
    "(and (= x a) (P x))",
    "(and (= a a) (P a))",
    "(or (not (= x a)) (R x y))",
    "(or (not (= a a)) (R a y))",
];
const ARGS: [&str; 10] = [
    "(x U)",
    "(y U)",
    "(:= (x U) a)",
    "(:= (x U) y)",
    "(:= (x U) x)",
    "(:= (y U) x)",
    "(:= (y U) a)",
    "(:= (x U) (choice ((x U)) (P x)))",
    "(:= (x U) (choice ((x U)) (not (P x))))",
    "(:= (x U) b)",
];
const VARS: [&str; 4] = ["(x U)", "(y U)", "(x U) (y U)", "(y U) (x U)"];
const LETS: [&str; 7] = ["(x a)", "(y a)", "(x y)", "(x b)", "(x x)", "(x a) (y x)", "(y x)"];

/// (rule, clause, attributes) of the candidate closing steps for an inner equality `l = r`.
fn closings(l: &str, r: &str, inner: &str, small: bool) -> Vec<(&'static str, String, String)> {
    let mut out: Vec<(&'static str, String, String)> = Vec::new();
    let q2 = if small { &["forall"][..] } else { &["forall", "exists"][..] };
    for q in q2 {
        for v in VARS {
            for w in VARS {
                out.push(("bind", format!("(= ({q} ({v}) {l}) ({q} ({w}) {r}))"), String::new()));
                if !small || v != w {
                    out.push(("onepoint", format!("(= ({q} ({v}) {l}) ({q} ({w}) {r}))"), String::new()));
                }
            }
            out.push(("onepoint", format!("(= ({q} ({v}) {l}) {r})"), String::new()));
            if !small {
                out.push(("onepoint", format!("(= ({q} ({v}) {r}) {l})"), String::new()));
            }
        }
    }
    out.push(("bind", format!("(= (choice ((x U)) {l}) (choice ((y U)) {r}))"), String::new()));
    for v in VARS {
        out.push(("sko_ex", format!("(= (exists ({v}) {l}) {r})"), String::new()));
        out.push(("sko_forall", format!("(= (forall ({v}) {l}) {r})"), String::new()));
    }
    for v in LETS {
        for p in ["", " :premises (h)"] {
            out.push(("let", format!("(= (let ({v}) {l}) {r})"), p.into()));
        }
        for w in LETS {
            if v.split_whitespace().next() == w.split_whitespace().next() {
                out.push(("bind_let", format!("(= (let ({v}) {l}) (let ({w}) {r}))"), if v == w { "" } else { " :premises (h)" }.into()));
            }
        }
    }
    // rules that do not close a context
    out.push(("subproof", format!("(= {l} {r})"), String::new()));
    out.push(("refl", format!("(= {l} {r})"), String::new()));
    out.push(("symm", format!("(= {r} {l})"), format!(" :premises ({inner})")));
    out.push(("trans", format!("(= {l} {r})"), format!(" :premises ({inner})")));
    out.push(("resolution", format!("(= {l} {r})"), format!(" :premises ({inner})")));
    out.push(("reordering", format!("(= {l} {r})"), format!(" :premises ({inner})")));
    out
}

fn accepts(proof: &str, cfg: &Config) -> Result<(), String> {
    match guard(|| carcara::check(DECLS.as_bytes(), proof.as_bytes(), None, parser::Config::new(), cfg.clone(), false)) {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("PANIC {p}")),
    }
}

struct W<'a> {
    rep: &'a Report,
    t: Tally,
    valid: HashMap<String, bool>,
    doms: Vec<Doms>,
}
impl W<'_> {
    fn check(&mut self, proof: &str, cfg: &Config) -> bool {
        self.t.inc("evaluations", 1);
        match accepts(proof, cfg) {
            Ok(()) => {
                self.t.inc("proofs_accepted", 1);
                true
            }
            Err(e) => {
                if e.starts_with("PANIC") {
                    self.t.inc("proofs_crashed", 1);
                    if std::env::var("MC_PANICS").is_ok() {
                        eprintln!("{e} on {proof}");
                    }
                } else if std::env::var("MC_WHY").is_ok() {
                    eprintln!("{e}: {}", proof.replace('\n', " "));
                }
                false
            }
        }
    }
    fn valid(&mut self, f: &str) -> bool {
        if let Some(b) = self.valid.get(f) {
            return *b;
        }
        let mut env = Env::new(&DECLS["(set-logic ALL)".len()..].replace("(assert (= a b))(assert (= b a))", "(declare-const z U)(declare-const w U)"));
        let prem = env.term("(= a b)");
        let t = env.term(f);
        let r = falsify(&[vec![prem]], &[t], &self.doms, 5000);
        self.t.inc("interpretations_evaluated", r.interps);
        if r.decided == 0 {
            self.t.inc("undecided", 1);
        }
        let ok = r.counter.is_none();
        self.valid.insert(f.into(), ok);
        ok
    }
    fn exported(&mut self, rule: &str, f: &str, proof: &str) {
        self.t.inc(&format!("exports_by_{rule}"), 1);
        if self.t.distinct.insert(hash_of(&proof)) && !self.valid(f) {
            self.rep.violation(&proof.trim().replace('\n', " "), &format!("the exported formula {f} is not valid"));
        }
    }
}

fn arg_lists(n: usize, tokens: &[&'static str]) -> Vec<Vec<&'static str>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for l in &last {
            for a in tokens {
                if !l.contains(a) {
                    let mut m: Vec<&'static str> = l.clone();
                    m.push(a);
                    next.push(m);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn anchor(id: &str, args: &[&str]) -> String {
    if args.is_empty() {
        format!("(anchor :step {id})\n")
    } else {
        format!("(anchor :step {id} :args ({}))\n", args.join(" "))
    }
}
fn close(id: &str, c: &(&'static str, String, String)) -> String {
    format!("(step {id} (cl {}) :rule {}{})\n", c.1, c.0, c.2)
}
pub const END: &str = "(step z (cl) :rule hole)\n";

pub fn run(rep: &Report, thorough: bool) {
    let doms = vec![Doms::std().with_u(1), Doms::std().with_u(2)];
    let cfg = Config::new();
    // one context
    let lists = arg_lists(if thorough { 3 } else { 2 }, &ARGS);
    par(&lists, |args| {
        let mut w = W { rep, t: Tally::new(), valid: HashMap::new(), doms: doms.clone() };
        for l in BODIES {
            for r in BODIES {
                let head = format!("{HEAD}{}(step e.s (cl (= {l} {r})) :rule refl)\n", anchor("e", args));
                if !w.check(&format!("{head}(step e (cl) :rule hole)\n"), &cfg) {
                    continue;
                }
                w.t.inc("inner_steps_accepted", 1);
                for c in closings(l, r, "e.s", false) {
                    let proof = format!("{head}{}{END}", close("e", &c));
                    if w.check(&proof, &cfg) {
                        w.exported(c.0, &c.1, &proof);
                    }
                }
            }
        }
        w.t.flush(rep);
    });
    // two nested contexts
    let outer = arg_lists(if thorough { 2 } else { 1 }, &ARGS);
    let inner = arg_lists(if thorough { 2 } else { 2 }, &ARGS[..if thorough { 8 } else { 6 }]);
    let mut items = Vec::new();
    for o in &outer {
        for i in &inner {
            if o.len() + i.len() <= 3 && !o.is_empty() {
                items.push((o.clone(), i.clone()));
            }
        }
    }
    let bodies: &[&str] = if thorough { &BODIES[..9] } else { &BODIES[..6] };
    // a step of the outer context that comes before the inner one (results may be cached)
    const WARM: [(&str, &str); 3] = [("", ""), ("(P x)", "(P a)"), ("(R x y)", "(R a y)")];
    let items: Vec<_> = items.iter().flat_map(|i| WARM.iter().map(move |w| (i.0.clone(), i.1.clone(), *w))).collect();
    par(&items, |(o, i, warm)| {
        let mut w = W { rep, t: Tally::new(), valid: HashMap::new(), doms: doms.clone() };
        for l in bodies {
            for r in bodies {
                let warm = if warm.0.is_empty() { String::new() } else { format!("(step e.w (cl (= {} {})) :rule refl)\n", warm.0, warm.1) };
                let head = format!("{HEAD}{}{warm}{}(step e.f.s (cl (= {l} {r})) :rule refl)\n", anchor("e", o), anchor("e.f", i));
                if !w.check(&format!("{head}(step e.f (cl) :rule hole)\n(step e (cl) :rule hole)\n"), &cfg) {
                    continue;
                }
                w.t.inc("inner_steps_accepted", 1);
                for c in closings(l, r, "e.f.s", true) {
                    let head = format!("{head}{}", close("e.f", &c));
                    if !w.check(&format!("{head}(step e (cl) :rule hole)\n{END}"), &cfg) {
                        continue;
                    }
                    w.t.inc("nested_contexts_closed", 1);
                    let Some((l, r)) = sides(&c.1) else { continue };
                    for c2 in closings(l, r, "e.f", true) {
                        let proof = format!("{head}{}{END}", close("e", &c2));
                        if w.check(&proof, &cfg) {
                            w.exported(c2.0, &c2.1, &proof);
                        }
                    }
                }
            }
        }
        w.t.flush(rep);
    });
}

/// The two sides of the text "(= l r)".
pub fn sides(f: &str) -> Option<(&str, &str)> {
    let inner = f.strip_prefix("(= ")?.strip_suffix(')')?;
    let mut depth = 0;
    for (i, c) in inner.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            ' ' if depth == 0 => return Some((&inner[..i], &inner[i + 1..])),
            _ => {}
        }
    }
    None
}

/// Correct proofs with contexts, as solvers produce them. Each is (proof without the final hole).
pub fn canonical() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut add = |s: &str| v.push(format!("{HEAD}{}\n", s.trim()));
    // renaming binders
    add("(anchor :step e :args ((y U) (:= (x U) y)))\n(step e.s (cl (= (P x) (P y))) :rule refl)\n(step e (cl (= (forall ((x U)) (P x)) (forall ((y U)) (P y)))) :rule bind)");
    add("(anchor :step e :args ((x U) (:= (x U) x)))\n(step e.s (cl (= (P x) (P x))) :rule refl)\n(step e (cl (= (exists ((x U)) (P x)) (exists ((x U)) (P x)))) :rule bind)");
    add("(anchor :step e :args ((z U) (w U) (:= (x U) z) (:= (y U) w)))\n(step e.s (cl (= (R x y) (R z w))) :rule refl)\n(step e (cl (= (forall ((x U) (y U)) (R x y)) (forall ((z U) (w U)) (R z w)))) :rule bind)");
    add("(anchor :step e :args ((y U) (z U) (:= (x U) y)))\n(step e.s (cl (= (R x z) (R y z))) :rule refl)\n(step e (cl (= (forall ((x U) (z U)) (R x z)) (forall ((y U) (z U)) (R y z)))) :rule bind)");
    add("(anchor :step e :args ((y U) (:= (x U) y)))\n(step e.s (cl (= (P x) (P y))) :rule refl)\n(step e (cl (= (choice ((x U)) (P x)) (choice ((y U)) (P y)))) :rule bind)");
    add("(anchor :step e :args ((z U) (w U) (:= (x U) z) (:= (y U) w)))\n(step e.s (cl (= (R x y) (R z w))) :rule refl)\n(step e (cl (= (lambda ((x U) (y U)) (R x y)) (lambda ((z U) (w U)) (R z w)))) :rule bind)");
    add("(anchor :step e :args ((z U) (:= (x U) z)))\n(anchor :step e.f :args ((w U) (:= (y U) w)))\n(step e.f.s (cl (= (R x y) (R z w))) :rule refl)\n(step e.f (cl (= (exists ((y U)) (R x y)) (exists ((w U)) (R z w)))) :rule bind)\n(step e (cl (= (forall ((x U)) (exists ((y U)) (R x y))) (forall ((z U)) (exists ((w U)) (R z w))))) :rule bind)");
    add("(anchor :step e :args ((x U) (:= (x U) x)))\n(step e.r (cl (= x x)) :rule refl)\n(step e.s (cl (= (R x a) (R x b))) :rule cong :premises (e.r h))\n(step e (cl (= (forall ((x U)) (R x a)) (forall ((x U)) (R x b)))) :rule bind)");
    // let
    add("(anchor :step e :args ((:= (z U) a)))\n(step e.s (cl (= (P z) (P a))) :rule refl)\n(step e (cl (= (let ((z a)) (P z)) (P a))) :rule let)");
    add("(anchor :step e :args ((:= (z U) b)))\n(step e.s (cl (= (P z) (P b))) :rule refl)\n(step e (cl (= (let ((z a)) (P z)) (P b))) :rule let :premises (h))");
    add("(anchor :step e :args ((:= (z U) a) (:= (w U) x)))\n(step e.s (cl (= (R z w) (R a x))) :rule refl)\n(step e (cl (= (let ((z a) (w x)) (R z w)) (R a x))) :rule let)");
    add("(anchor :step e :args ((:= (z U) b) (:= (w U) b)))\n(step e.s (cl (= (R z w) (R b b))) :rule refl)\n(step e (cl (= (let ((z a) (w b)) (R z w)) (R b b))) :rule let :premises (h))");
    add("(anchor :step e :args ((:= (z U) a)))\n(anchor :step e.f :args ((:= (w U) a)))\n(step e.f.s (cl (= (R z w) (R a a))) :rule refl)\n(step e.r (cl (= z a)) :rule refl)\n(step e.f (cl (= (let ((w a)) (R z w)) (R a a))) :rule let)\n(step e (cl (= (let ((z a)) (let ((w a)) (R z w))) (R a a))) :rule let)".replace("(step e.r (cl (= z a)) :rule refl)\n", "").as_str());
    add("(anchor :step e :args ((z U) (:= (x U) z)))\n(anchor :step e.f :args ((:= (w U) a)))\n(step e.f.s (cl (= (R x w) (R z a))) :rule refl)\n(step e.f (cl (= (let ((w a)) (R x w)) (R z a))) :rule let)\n(step e (cl (= (forall ((x U)) (let ((w a)) (R x w))) (forall ((z U)) (R z a)))) :rule bind)");
    // let on both sides
    add("(anchor :step e :args ((z U)))\n(step e.s (cl (= (P z) (P z))) :rule refl)\n(step e (cl (= (let ((z a)) (P z)) (let ((z b)) (P z)))) :rule bind_let :premises (h))");
    add("(anchor :step e :args ((z U) (w U)))\n(step e.s (cl (= (R z w) (R z w))) :rule refl)\n(step e (cl (= (let ((z a) (w y)) (R z w)) (let ((z b) (w y)) (R z w)))) :rule bind_let :premises (h))");
    // one point
    add("(anchor :step e :args ((:= (z U) a)))\n(step e.s (cl (= (and (= z a) (P z)) (and (= a a) (P a)))) :rule refl)\n(step e (cl (= (exists ((z U)) (and (= z a) (P z))) (and (= a a) (P a)))) :rule onepoint)");
    add("(anchor :step e :args ((:= (z U) a)))\n(step e.s (cl (= (or (not (= z a)) (P z)) (or (not (= a a)) (P a)))) :rule refl)\n(step e (cl (= (forall ((z U)) (or (not (= z a)) (P z))) (or (not (= a a)) (P a)))) :rule onepoint)");
    add("(anchor :step e :args ((:= (z U) a)))\n(step e.s (cl (= (=> (= a z) (P z)) (=> (= a a) (P a)))) :rule refl)\n(step e (cl (= (forall ((z U)) (=> (= a z) (P z))) (=> (= a a) (P a)))) :rule onepoint)");
    add("(anchor :step e :args ((w U) (:= (z U) w)))\n(step e.s (cl (= (=> (= z w) (R z w)) (=> (= w w) (R w w)))) :rule refl)\n(step e (cl (= (forall ((z U) (w U)) (=> (= z w) (R z w))) (forall ((w U)) (=> (= w w) (R w w))))) :rule onepoint)");
    add("(anchor :step e :args ((:= (z U) a) (:= (w U) a)))\n(step e.s (cl (= (and (= z a) (= w z) (R z w)) (and (= a a) (= a a) (R a a)))) :rule refl)\n(step e (cl (= (exists ((z U) (w U)) (and (= z a) (= w z) (R z w))) (and (= a a) (= a a) (R a a)))) :rule onepoint)");
    add("(anchor :step e :args ((:= (z U) a)))\n(step e.s (cl (= (and (P y) (exists ((w U)) (and (= z a) (R z w)))) (and (P y) (exists ((w U)) (and (= a a) (R a w)))))) :rule refl)\n(step e (cl (= (exists ((z U)) (and (P y) (exists ((w U)) (and (= z a) (R z w))))) (and (P y) (exists ((w U)) (and (= a a) (R a w)))))) :rule onepoint)");
    add("(anchor :step e :args ((:= (z U) y)))\n(step e.s (cl (= (and (= z y) (forall ((w U)) (R z w))) (and (= y y) (forall ((w U)) (R y w))))) :rule refl)\n(step e (cl (= (exists ((z U)) (and (= z y) (forall ((w U)) (R z w)))) (and (= y y) (forall ((w U)) (R y w))))) :rule onepoint)");
    // skolemization
    let ex = "(choice ((z U)) (P z))";
    add(&format!("(anchor :step e :args ((:= (z U) {ex})))\n(step e.s (cl (= (P z) (P {ex}))) :rule refl)\n(step e (cl (= (exists ((z U)) (P z)) (P {ex}))) :rule sko_ex)"));
    let fa = "(choice ((z U)) (not (P z)))";
    add(&format!("(anchor :step e :args ((:= (z U) {fa})))\n(step e.s (cl (= (P z) (P {fa}))) :rule refl)\n(step e (cl (= (forall ((z U)) (P z)) (P {fa}))) :rule sko_forall)"));
    let c1 = "(choice ((z U)) (exists ((w U)) (R z w)))";
    let c2 = format!("(choice ((w U)) (R {c1} w))");
    add(&format!("(anchor :step e :args ((:= (z U) {c1}) (:= (w U) {c2})))\n(step e.s (cl (= (R z w) (R {c1} {c2}))) :rule refl)\n(step e (cl (= (exists ((z U) (w U)) (R z w)) (R {c1} {c2}))) :rule sko_ex)"));
    let c1 = "(choice ((z U)) (not (forall ((w U)) (R z w))))";
    let c2 = format!("(choice ((w U)) (not (R {c1} w)))");
    add(&format!("(anchor :step e :args ((:= (z U) {c1}) (:= (w U) {c2})))\n(step e.s (cl (= (R z w) (R {c1} {c2}))) :rule refl)\n(step e (cl (= (forall ((z U) (w U)) (R z w)) (R {c1} {c2}))) :rule sko_forall)"));
    let cz = "(choice ((z U)) (exists ((w U)) (R z w)))";
    let cw = format!("(choice ((w U)) (R {cz} w))");
    add(&format!("(anchor :step e :args ((:= (z U) {cz})))\n(anchor :step e.f :args ((:= (w U) {cw})))\n(step e.f.s (cl (= (R z w) (R {cz} {cw}))) :rule refl)\n(step e.f (cl (= (exists ((w U)) (R z w)) (R {cz} {cw}))) :rule sko_ex)\n(step e (cl (= (exists ((z U)) (exists ((w U)) (R z w))) (R {cz} {cw}))) :rule sko_ex)"));
    v
}

/// The clause of the last top-level step of a proof text, if it is a unit.
fn last_unit(proof: &str) -> Option<&str> {
    let line = proof.trim().lines().last()?;
    let i = line.find("(cl ")? + 4;
    let j = line.rfind(") :rule")?;
    Some(&line[i..j])
}

/// Every canonical proof must be accepted (C11).
pub fn complete(rep: &Report) {
    let mut t = Tally::new();
    for p in canonical() {
        t.inc("evaluations", 1);
        t.inc("canonical_subproofs", 1);
        t.distinct.insert(hash_of(&p));
        if let Err(e) = accepts(&format!("{p}{END}"), &Config::new()) {
            rep.violation(&p.trim().replace('\n', " "), &format!("a correct proof is rejected: {e}"));
        }
    }
    t.flush(rep);
}

/// Every way of replacing one or two identifiers, binders or rule names of the canonical proofs.
pub fn edits(rep: &Report, thorough: bool) {
    let doms = vec![Doms::std().with_u(1), Doms::std().with_u(2)];
    let groups: [&[&str]; 4] = [
        &["a", "b", "x", "y", "z", "w"],
        &["forall", "exists", "choice", "lambda"],
        &["bind", "let", "bind_let", "onepoint", "sko_ex", "sko_forall", "subproof", "refl"],
        &["and", "or", "=>"],
    ];
    let cfg = Config::new();
    let mut items = Vec::new();
    for p in canonical() {
        let toks = lex(&p[HEAD.len()..]);
        let spots: Vec<(usize, &'static str)> = toks
            .iter()
            .enumerate()
            .flat_map(|(i, t)| groups.iter().filter(|g| g.contains(t)).flat_map(move |g| g.iter().filter(move |x| *x != t).map(move |x| (i, *x))))
            .collect();
        for k in 0..spots.len() {
            items.push((p.clone(), spots.clone(), k));
        }
    }
    par(&items, |(p, spots, k)| {
        let mut w = W { rep, t: Tally::new(), valid: HashMap::new(), doms: doms.clone() };
        let toks = lex(&p[HEAD.len()..]);
        let mut one = |edit: &[(usize, &str)]| {
            let mut toks = toks.clone();
            for (i, x) in edit {
                toks[*i] = x;
            }
            let text = format!("{HEAD}{}", toks.concat());
            if w.check(&format!("{text}{END}"), &cfg) {
                if let Some(f) = last_unit(&text) {
                    let f = f.to_string();
                    w.exported("edited", &f, &text);
                }
            }
        };
        one(&[spots[*k]]);
        for s in &spots[k + 1..] {
            if s.0 == spots[*k].0 {
                continue;
            }
            one(&[spots[*k], *s]);
            if thorough && spots.len() < 180 {
                for r in spots.iter().filter(|r| r.0 > s.0 && toks[r.0] == toks[s.0] && r.1 == s.1) {
                    one(&[spots[*k], *s, *r]);
                }
            }
        }
        w.t.flush(rep);
    });
}

fn lex(s: &str) -> Vec<&str> {
    let mut out = Vec::new();
    let mut i = 0;
    let b = s.as_bytes();
    while i < b.len() {
        let word = |c: u8| !matches!(c, b'(' | b')' | b' ' | b'\n');
        let mut j = i + 1;
        if word(b[i]) {
            while j < b.len() && word(b[j]) {
                j += 1;
            }
        }
        out.push(&s[i..j]);
        i = j;
    }
    out
}
