//! C07: string and regular-expression rules. Every step over small concatenations, regular
//! expressions and all the forms of conclusion a rule can be asked for is offered to the checker; an
//! accepted one must be true for all the strings over two letters up to a length.
use crate::core::*;
use crate::mutate::EditOpts;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;
use std::collections::{BTreeSet, HashSet};

pub const DECLS: &str = "(declare-const x String)(declare-const y String)(declare-const z String)(declare-const k Int)(declare-const L Int)";

fn words(n: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for c in ['a', 'b'] {
                let mut v: Vec<char> = w.clone();
                v.push(c);
                next.push(v);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

pub fn doms() -> Vec<Doms> {
    let mut d = Doms::std();
    d.strs = words(3);
    d.int = (-2..=7).collect();
    d.quant_infinite = true;
    let mut e = d.clone();
    e.strs = words(2);
    vec![e, d]
}

/// A string term.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum C {
    V(&'static str),
    S(String),
    Cat(Vec<C>),
}
use C::*;

fn s(x: &str) -> C {
    S(x.to_string())
}

impl C {
    fn text(&self) -> String {
        match self {
            V(x) => x.to_string(),
            S(x) => format!("\"{x}\""),
            Cat(v) => format!("(str.++ {})", v.iter().map(C::text).collect::<Vec<_>>().join(" ")),
        }
    }
    /// The characters and variables it is the concatenation of.
    fn flat(&self) -> Vec<C> {
        match self {
            V(_) => vec![self.clone()],
            S(x) => x.chars().map(|c| S(c.to_string())).collect(),
            Cat(v) => v.iter().flat_map(C::flat).collect(),
        }
    }
    fn word(&self) -> Option<Vec<char>> {
        let mut w = vec![];
        for c in self.flat() {
            let S(x) = c else { return None };
            w.extend(x.chars());
        }
        Some(w)
    }
    fn parts(&self) -> Vec<C> {
        match self {
            Cat(v) => v.clone(),
            c => vec![c.clone()],
        }
    }
}

fn cat(v: &[C]) -> C {
    match v.len() {
        0 => s(""),
        1 => v[0].clone(),
        _ => Cat(v.to_vec()),
    }
}

fn sequences<X: Clone>(xs: &[X], lo: usize, hi: usize) -> Vec<Vec<X>> {
    let mut out = vec![];
    let mut last: Vec<Vec<X>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(last.clone());
        }
        last = last
            .iter()
            .flat_map(|v| {
                xs.iter().map(move |x| {
                    let mut v = v.clone();
                    v.push(x.clone());
                    v
                })
            })
            .collect();
    }
    out
}

fn terms_of(xs: &[C], lo: usize, hi: usize) -> Vec<C> {
    sequences(xs, lo, hi).iter().map(|v| cat(v)).collect()
}

fn eq(a: &str, b: &str) -> String {
    format!("(= {a} {b})")
}
fn not(a: &str) -> String {
    format!("(not {a})")
}
fn len(a: &str) -> String {
    format!("(str.len {a})")
}
fn sub(a: &str, i: &str, n: &str) -> String {
    format!("(str.substr {a} {i} {n})")
}
fn minus(a: &str, b: &str) -> String {
    format!("(- {a} {b})")
}
fn prefix(a: &str, n: &str) -> String {
    sub(a, "0", n)
}
fn rest(a: &str, n: &str) -> String {
    sub(a, n, &minus(&len(a), n))
}
fn suffix(a: &str, n: &str) -> String {
    sub(a, &minus(&len(a), n), n)
}
fn before(a: &str, n: &str) -> String {
    sub(a, "0", &minus(&len(a), n))
}

/// Steps to be checked together, with whether the rule, as it is defined, requires to accept them.
#[derive(Default)]
struct Batch(Vec<(Inst, bool)>);

impl Batch {
    fn add(&mut self, rule: &str, premises: &[String], clause: &str, args: &[&str], correct: bool) {
        self.0.push((
            Inst {
                rule: rule.into(),
                premises: premises.iter().map(|p| vec![p.clone()]).collect(),
                clause: vec![clause.into()],
                args: args.iter().map(|a| a.to_string()).collect(),
            },
            correct,
        ));
    }
}

/// Checks a batch: soundness of what is accepted, or acceptance of what is correct.
fn run(rep: &Report, b: &Batch, complete: bool, cap: u64, doms: &[Doms]) {
    let mut env = Env::new(DECLS);
    let mut t = Tally::new();
    let mut texts: Vec<&str> = vec![];
    for (i, ok) in &b.0 {
        if !complete || *ok {
            texts.extend(i.premises.iter().flatten().map(|x| x.as_str()));
            texts.extend(i.clause.iter().map(|x| x.as_str()));
            texts.extend(i.args.iter().map(|x| x.as_str()));
        }
    }
    let mut seen: HashSet<u64> = HashSet::new();
    let ts = env.terms(&texts);
    let mut it = ts.into_iter();
    for (i, ok) in &b.0 {
        if complete && !ok {
            continue;
        }
        let sp = Spec {
            rule: i.rule.clone(),
            premises: i.premises.iter().map(|p| p.iter().map(|_| it.next().unwrap()).collect()).collect(),
            clause: i.clause.iter().map(|_| it.next().unwrap()).collect(),
            args: i.args.iter().map(|_| it.next().unwrap()).collect(),
        };
        if !seen.insert(hash_of(&sp)) {
            continue;
        }
        if complete {
            t.inc("evaluations", 1);
            t.inc("correct_string_steps", 1);
            match check_spec_err(&mut env, &sp, &Config::new()) {
                CheckRes::Valid | CheckRes::Holey => {
                    t.distinct.insert(hash_of(&sp.key()));
                }
                CheckRes::Err(e) => rep.violation(&sp.key(), &format!("a correct step is rejected: {e}")),
                CheckRes::Panic(p) => rep.violation(&sp.key(), &format!("a correct step crashes the checker: {p}")),
            }
        } else {
            let acc = probe(rep, &mut env, &sp, &Config::new(), doms, cap, &mut t);
            if acc {
                t.inc(&format!("accepted_{}", sp.rule), 1);
            }
        }
    }
    if let Some((i, _)) = b.0.get(b.0.len() / 2) {
        rep.sample(format!("{} {:?} |- {:?}", i.rule, i.premises, i.clause));
    }
    t.flush(rep);
}

const REV: [bool; 2] = [false, true];

fn flip(v: &[C], rev: bool) -> Vec<C> {
    let mut v = v.to_vec();
    if rev {
        v.reverse();
    }
    v
}

fn common(a: &[C], b: &[C]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// Equality of two concatenations: concat_eq, concat_unify, concat_conflict.
fn equalities(b: &mut Batch, l: &C, r: &C, thorough: bool) {
    let prem = eq(&l.text(), &r.text());
    let (fl, fr) = (l.flat(), r.flat());
    for rev in REV {
        let (x, y) = (flip(&fl, rev), flip(&fr, rev));
        let n = common(&x, &y);
        let arg = if rev { "true" } else { "false" };
        let nonempty = !x.is_empty() && !y.is_empty();
        let head = |v: &[C]| v.get(n).map(|c| matches!(c, S(_)));
        let conflict = match (head(&x), head(&y)) {
            (Some(a), Some(b)) => a && b,
            (Some(a), None) | (None, Some(a)) => a,
            (None, None) => false,
        };
        b.add("concat_conflict", &[prem.clone()], "false", &[arg], nonempty && conflict);
        for i in 0..=x.len() {
            for j in 0..=y.len() {
                if !thorough && i != j && i != n && j != n {
                    continue;
                }
                let (p, q) = (cat(&flip(&x[i..], rev)), cat(&flip(&y[j..], rev)));
                let correct = nonempty && i == n && j == n;
                b.add("concat_eq", &[prem.clone()], &eq(&p.text(), &q.text()), &[arg], correct);
                let (p, q) = (cat(&flip(&x[..i], rev)), cat(&flip(&y[..j], rev)));
                let lens = eq(&len(&p.text()), &len(&q.text()));
                let both = [prem.clone(), lens];
                b.add("concat_unify", &both, &eq(&p.text(), &q.text()), &[arg], true);
                b.add("concat_unify", &both, &eq(&cat(&x[i..]).text(), &cat(&y[j..]).text()), &[arg], false);
            }
        }
    }
}

/// The rules that split an equality at its first or last components.
fn splits(b: &mut Batch, l: &C, r: &C, thorough: bool) {
    let prem = eq(&l.text(), &r.text());
    let (fl, fr) = (l.flat(), r.flat());
    let nonempty = !fl.is_empty() && !fr.is_empty();
    let pieces = |f: &[C], rev: bool, others: &[C]| {
        let mut out: Vec<(C, bool)> = vec![];
        for i in 0..=f.len() {
            let (p, q) = (cat(&f[..i]), cat(&f[i..]));
            for (c, fits) in [(p, !rev), (q, rev)] {
                if !out.contains(&(c.clone(), true)) {
                    out.push((c, fits || i == 0 || i == f.len()));
                }
            }
        }
        out.retain(|(c, fits)| *fits || thorough || c.flat().len() == 1);
        for o in others {
            if !out.iter().any(|x| x.0 == *o) {
                out.push((o.clone(), false));
            }
        }
        // whether it fits
        for x in out.iter_mut() {
            let g = flip(&x.0.flat(), rev);
            x.1 = flip(f, rev).starts_with(&g);
        }
        out
    };
    let others = [V("z"), s("b")];
    for rev in REV {
        let side = if rev { "suffix" } else { "prefix" };
        let ps = pieces(&fl, rev, &[&others[..], &l.parts()[..]].concat());
        let qs = pieces(&fr, rev, &[&others[..], &r.parts()[..]].concat());
        // csplit
        let head = flip(&fr, rev).first().cloned();
        for (p, fits) in &ps {
            let t = p.text();
            let both = [prem.clone(), not(&eq(&len(&t), "0"))];
            let mut cs = vec![s("a"), s("b"), V("x")];
            cs.extend(r.parts());
            cs.extend(head.clone());
            let cs: Vec<C> = cs.into_iter().collect::<HashSet<_>>().into_iter().collect();
            for c in &cs {
                for n in ["1", "0", "2"] {
                    let concl = if rev {
                        eq(&t, &format!("(str.++ {} {})", before(&t, n), c.text()))
                    } else {
                        eq(&t, &format!("(str.++ {} {})", c.text(), rest(&t, n)))
                    };
                    let correct = *fits && nonempty && n == "1" && Some(c) == head.as_ref() && matches!(c, S(_));
                    b.add(&format!("concat_csplit_{side}"), &both, &concl, &[], correct);
                }
            }
        }
        // split and lprop
        for (p, pf) in &ps {
            for (q, qf) in &qs {
                let (t, u) = (p.text(), q.text());
                let fits = *pf && *qf && nonempty;
                let ge = format!("(>= {} {})", len(&t), len(&u));
                let mut sk = vec![];
                let pre = format!("(ite {ge} {} {})", rest(&t, &len(&u)), rest(&u, &len(&t)));
                let suf = format!(
                    "(ite {ge} {} {})",
                    prefix(&t, &minus(&len(&t), &len(&u))),
                    prefix(&u, &minus(&len(&u), &len(&t)))
                );
                let mine = if rev { suf.clone() } else { pre.clone() };
                sk.push(mine.clone());
                if thorough || fits {
                    sk.push(if rev { pre } else { suf });
                    sk.push(format!("(ite {ge} {} {})", rest(&u, &len(&t)), rest(&t, &len(&u))));
                }
                for (i, k) in sk.iter().enumerate() {
                    let join = |a: &str, k: &str| if rev { format!("(str.++ {k} {a})") } else { format!("(str.++ {a} {k})") };
                    let tail = format!("{} (> {} 0)", not(&eq(k, "\"\"")), len(k));
                    let concl = format!("(and (or {} {}) {tail})", eq(&t, &join(&u, k)), eq(&u, &join(&t, k)));
                    let diff = not(&eq(&len(&t), &len(&u)));
                    b.add(&format!("concat_split_{side}"), &[prem.clone(), diff], &concl, &[], fits && i == 0);
                    let concl = format!("(and {} {tail})", eq(&t, &join(&u, k)));
                    let more = format!("(> {} {})", len(&t), len(&u));
                    b.add(&format!("concat_lprop_{side}"), &[prem.clone(), more], &concl, &[], fits && i == 0);
                    if thorough || fits {
                        let less = format!("(> {} {})", len(&u), len(&t));
                        b.add(&format!("concat_lprop_{side}"), &[prem.clone(), less], &concl, &[], false);
                    }
                }
            }
        }
    }
}

/// The least number of first characters of `w` after which `t` can start.
fn overlap(w: &[char], t: &[char]) -> usize {
    let fits = |i: usize| w[i..].iter().zip(t).all(|(a, b)| a == b);
    // the last character is never skipped
    (0..w.len().saturating_sub(1)).find(|&i| fits(i)).unwrap_or(w.len().saturating_sub(1))
}

/// concat_cprop: `parts` are the three components of the left-hand side.
fn cprop(b: &mut Batch, parts: &[C], r: &C, thorough: bool) {
    let t = Cat(parts.to_vec());
    let prem = eq(&t.text(), &r.text());
    for rev in REV {
        let t1 = if rev { &parts[2] } else { &parts[0] };
        let tt = t1.text();
        let both = [prem.clone(), not(&eq(&len(&tt), "0"))];
        let rs = r.parts();
        let mine = if rev { rs.last().unwrap() } else { &rs[0] };
        let mut over = rs.clone();
        if !thorough {
            over.dedup();
        }
        let best = match (mine.word(), parts[1].word()) {
            (Some(w), Some(m)) if !w.is_empty() => {
                let turn = |v: &[char]| {
                    let mut v = v.to_vec();
                    if rev {
                        v.reverse();
                    }
                    v
                };
                Some(1 + overlap(&turn(&w)[1..], &turn(&m)))
            }
            _ => None,
        };
        for o in over.iter().collect::<HashSet<_>>() {
            for v in 0..=4usize {
                let n = v.to_string();
                let ot = o.text();
                let oc = if rev { suffix(&ot, &n) } else { prefix(&ot, &n) };
                let lo = len(&oc);
                let concl = if rev {
                    eq(&tt, &format!("(str.++ {} {oc})", prefix(&tt, &minus(&len(&tt), &lo))))
                } else {
                    eq(&tt, &format!("(str.++ {oc} {})", rest(&tt, &lo)))
                };
                let correct = o == mine && best == Some(v) && matches!(mine, S(_)) && matches!(r, S(_) | Cat(_));
                let rule = if rev { "concat_cprop_suffix" } else { "concat_cprop_prefix" };
                b.add(rule, &both, &concl, &[], correct);
            }
        }
    }
}

fn decompose(b: &mut Batch, t: &C) {
    let tt = t.text();
    let mut ns: Vec<String> = ["0", "1", "2", "(- 1)", "k", "(- k)", "(* k k)", "(str.len x)", "(str.len y)"].iter().map(|x| x.to_string()).collect();
    ns.push("(+ 1 (str.len y))".into());
    ns.push("(+ (- 1) (str.len y))".into());
    ns.push("(- (str.len x) 1)".into());
    ns.push("(* 2 (str.len x))".into());
    ns.push("(- (str.len x) (str.len y))".into());
    for n in &ns {
        for cmp in ["(>= {} N)", "(<= {} N)", "(> {} N)"] {
            let prem = cmp.replace("{}", &len(&tt)).replace('N', n);
            for (form, (w1, w2)) in [(prefix(&tt, n), rest(&tt, n)), (before(&tt, n), suffix(&tt, n))].iter().enumerate() {
                for target in [w1, w2] {
                    for rev in REV {
                        let concl = format!(
                            "(and {} {})",
                            eq(&tt, &format!("(str.++ {w1} {w2})")),
                            eq(&len(target), n)
                        );
                        let plain = n.parse::<u32>().is_ok() || n.starts_with("(str.len");
                        let correct = form == 0 && !rev && target == w1 && plain && cmp.starts_with("(>= ");
                        b.add("string_decompose", &[prem.clone()], &concl, &[if rev { "true" } else { "false" }], correct);
                    }
                }
            }
        }
    }
}

fn lengths(b: &mut Batch, t: &C, u: &C) {
    let (t, u) = (t.text(), u.text());
    for (p, q, r) in [(&t, &t, &t), (&t, &u, &t), (&t, &t, &u), (&u, &t, &t), (&u, &u, &u)] {
        for n in ["0", "1"] {
            let z = format!("(and {} {})", eq(&len(p), n), eq(q, "\"\""));
            for cmp in [">", ">="] {
                let pos = format!("({cmp} {} {n})", len(r));
                for c in [format!("(or {z} {pos})"), format!("(or {z} {})", not(&pos))] {
                    let correct = p == &t && q == &t && r == &t && n == "0" && cmp == ">" && !c.contains("(not");
                    b.add("string_length_pos", &[], &c, &[&t], correct);
                }
            }
            b.add("string_length_non_empty", &[not(&eq(q, "\"\""))], &not(&eq(&len(p), n)), &[], p == q && n == "0");
        }
        b.add("string_length_non_empty", &[not(&eq(q, "\"a\""))], &not(&eq(&len(p), "0")), &[], false);
        b.add("string_length_non_empty", &[eq(q, "\"\"")], &not(&eq(&len(p), "0")), &[], false);
    }
}

pub const REGEXES: [&str; 14] = [
    "(str.to_re \"a\")",
    "(str.to_re \"ab\")",
    "(str.to_re \"\")",
    "re.allchar",
    "re.all",
    "re.none",
    "(re.range \"a\" \"b\")",
    "(re.union (str.to_re \"a\") (str.to_re \"b\"))",
    "(re.union (str.to_re \"a\") (str.to_re \"ab\"))",
    "(re.inter re.all (str.to_re \"ab\"))",
    "(re.* (str.to_re \"a\"))",
    "(re.++ (str.to_re \"b\") re.allchar)",
    "(re.union re.none (str.to_re \"ba\"))",
    "(str.to_re x)",
];

/// The lengths of the words of a regular expression, if there is just one (as the rule computes it).
fn fixed(i: usize) -> Option<usize> {
    Some(match i {
        0 | 3 | 6 | 7 => 1,
        1 | 9 | 11 | 12 => 2,
        2 => 0,
        _ => return None,
    })
}

fn in_re(t: &str, r: &str) -> String {
    format!("(str.in_re {t} {r})")
}

/// Negated memberships in concatenations and stars. `rs` are indices of regular expressions.
fn negated(b: &mut Batch, t: &str, rs: &[usize], thorough: bool) {
    let parts: Vec<&str> = rs.iter().map(|&i| REGEXES[i]).collect();
    let whole = format!("(re.++ {})", parts.join(" "));
    let join = |p: &[&str]| if p.len() == 1 { p[0].to_string() } else { format!("(re.++ {})", p.join(" ")) };
    let prem = not(&in_re(t, &whole));
    let n = parts.len();
    // unfolding at a fixed length
    let mut pairs: Vec<(String, String, bool, bool)> =
        vec![(parts[0].into(), join(&parts[1..]), true, false), (parts[n - 1].into(), join(&parts[..n - 1]), false, true)];
    pairs.push((join(&parts[1..]), parts[0].into(), false, false));
    if n > 2 && thorough {
        pairs.push((join(&parts[..n - 1]), parts[n - 1].into(), false, false));
    }
    for (r1, r2, pre, suf) in &pairs {
        for m in 0..=3usize {
            let k = m.to_string();
            for (a, c, kind) in [
                (prefix(t, &k), rest(t, &k), 0),
                (suffix(t, &k), before(t, &k), 1),
                (prefix(t, &k), suffix(t, &k), 2),
                (before(t, &k), rest(t, &k), 3),
            ] {
                if kind > 1 && !thorough {
                    continue;
                }
                let concl = format!("(or {} {})", not(&in_re(&a, r1)), not(&in_re(&c, r2)));
                let lp = fixed(rs[0]);
                let ls = fixed(rs[n - 1]);
                b.add("re_unfold_neg_concat_fixed_prefix", &[prem.clone()], &concl, &[], *pre && kind == 0 && lp == Some(m));
                b.add("re_unfold_neg_concat_fixed_suffix", &[prem.clone()], &concl, &[], *suf && kind == 1 && ls == Some(m));
            }
        }
    }
    // unfolding at every length
    let star = format!("(re.* {})", parts[0]);
    for cmp in ["<", "<="] {
        for over in ["<", "<="] {
            for (r1, r2, main) in [(parts[0].to_string(), join(&parts[1..]), true), (join(&parts[1..]), parts[0].into(), false)] {
                for v in ["L", "M"] {
                    let body = |r2: &str| {
                        format!(
                            "(forall (({v} Int)) (or ({cmp} {v} 0) ({over} {} {v}) {} {}))",
                            len(t),
                            not(&in_re(&prefix(t, v), &r1)),
                            not(&in_re(&rest(t, v), r2))
                        )
                    };
                    let plain = main && over == "<" && v == "L";
                    let free = t.contains('L') || whole.contains('L');
                    b.add("re_unfold_neg", &[prem.clone()], &body(&r2), &[], plain && cmp == "<" && !free);
                    if main {
                        let p = not(&in_re(t, &star));
                        for (e, ok) in [(not(&eq(t, "\"\"")), true), (eq(t, "\"\""), false)] {
                            let c = format!("(and {e} {})", body(&star));
                            b.add("re_unfold_neg", &[p.clone()], &c, &[], ok && plain && cmp == "<=" && !free);
                        }
                    }
                }
            }
        }
    }
}

/// Memberships: concatenations and stars of constants, and intersections.
fn positive(b: &mut Batch, t: &str, rs: &[usize], words: &[&str]) {
    let parts: Vec<String> = words.iter().map(|w| format!("(str.to_re \"{w}\")")).collect();
    if parts.len() > 1 {
        let prem = in_re(t, &format!("(re.++ {})", parts.join(" ")));
        let full: Vec<String> = words.iter().map(|w| format!("\"{w}\"")).collect();
        let mut forms: Vec<(Vec<String>, bool)> = vec![(full.clone(), words.iter().all(|w| !w.is_empty()))];
        let nonempty: Vec<String> = words.iter().filter(|w| !w.is_empty()).map(|w| format!("\"{w}\"")).collect();
        forms.push((nonempty, true));
        let mut back = full.clone();
        back.reverse();
        forms.push((back, false));
        forms.push((full[1..].to_vec(), false));
        for (f, ok) in forms {
            if f.len() >= 2 {
                b.add("re_concat_unfold_pos", &[prem.clone()], &eq(t, &format!("(str.++ {})", f.join(" "))), &[], ok);
            }
        }
    }
    if rs.len() == 2 {
        let (p, q) = (REGEXES[rs[0]], REGEXES[rs[1]]);
        for u in ["x", "y", "(str.++ x \"a\")"] {
            for (a, c) in [(p, q), (q, p), (p, p)] {
                let main = u == t && a == p && c == q;
                b.add("re_inter", &[in_re(t, p), in_re(u, q)], &in_re(t, &format!("(re.inter {a} {c})")), &[], main);
                for o in ["re.union", "re.++", "re.diff"] {
                    b.add("re_inter", &[in_re(t, p), in_re(u, q)], &in_re(t, &format!("({o} {a} {c})")), &[], false);
                }
            }
        }
    }
}

pub fn explore(rep: &Report, complete: bool, thorough: bool) {
    let ds = doms();
    let cap = if thorough { 4_000 } else { 400 };
    let small = [V("x"), V("y"), s("a"), s("ab"), s("ba")];
    let comps = [V("x"), V("y"), s("a"), s("b"), s("ab"), s(""), Cat(vec![V("x"), s("a")])];
    // equalities between concatenations
    let mut more = comps.to_vec();
    more.extend([s("é"), V("(str.replace x \"ab\" \"ba\")")]);
    let mut ls = terms_of(&more, 1, 2);
    if thorough {
        ls.extend(terms_of(&small, 3, 3));
    } else {
        ls.extend(terms_of(&[V("x"), s("a"), s("ba")], 3, 3));
    }
    par(&ls, |l| {
        let mut b = Batch::default();
        for r in &ls {
            equalities(&mut b, l, r, thorough);
            if b.0.len() > 20_000 {
                run(rep, &b, complete, cap, &ds);
                b = Batch::default();
            }
        }
        run(rep, &b, complete, cap, &ds);
    });
    // splits
    let mut lefts = terms_of(&[V("x"), V("y"), s("a"), s("ab"), s("")], 1, 2);
    if thorough {
        lefts.extend(terms_of(&[V("x"), V("y"), s("a"), s("b")], 3, 3));
    } else {
        lefts.extend(terms_of(&[V("x"), s("ba")], 3, 3));
    }
    lefts.extend([s("é"), Cat(vec![s("é"), V("x")]), V("(str.replace x \"ab\" \"ba\")")]);
    par(&lefts, |l| {
        let mut b = Batch::default();
        for r in &lefts {
            splits(&mut b, l, r, thorough);
            if b.0.len() > 20_000 {
                run(rep, &b, complete, cap, &ds);
                b = Batch::default();
            }
        }
        run(rep, &b, complete, cap, &ds);
    });
    // constant propagation
    let mut mids = vec![V("y"), s(""), s("a"), s("b"), s("ab"), s("ba"), s("aab"), Cat(vec![s("a"), V("y")]), Cat(vec![s("a"), s("b")]), Cat(vec![V("y"), s("b")])];
    let ends = vec![V("x"), V("z"), s("a"), Cat(vec![V("x"), s("b")]), s("")];
    let mut rights = terms_of(&[s("ab"), s("aba"), s("aab"), s("a"), s("abab"), s(""), V("y"), Cat(vec![s("a"), V("z")])], 1, 2);
    rights.extend(terms_of(&[s("ab"), s("aab"), V("z")], 3, 3));
    if thorough {
        mids.extend([s("bb"), s("abb"), s("baa"), Cat(vec![V("z"), s("a")])]);
        rights.extend(terms_of(&[s("bb"), s("bba"), s("babb"), V("z")], 1, 2));
    }
    let mut jobs = vec![];
    for a in &ends {
        for m in &mids {
            for c in &ends {
                if thorough || a == &ends[0] || c == &ends[0] || a == c {
                    jobs.push(vec![a.clone(), m.clone(), c.clone()]);
                }
            }
        }
    }
    par(&jobs, |j| {
        let mut b = Batch::default();
        for r in &rights {
            cprop(&mut b, j, r, thorough);
        }
        run(rep, &b, complete, cap, &ds);
    });
    // lengths
    let ts = terms_of(&comps, 1, if thorough { 3 } else { 2 });
    par(&ts, |t| {
        let mut b = Batch::default();
        decompose(&mut b, t);
        for u in [V("x"), s(""), s("b"), Cat(vec![V("x"), V("y")])] {
            lengths(&mut b, t, &u);
        }
        run(rep, &b, complete, cap, &ds);
    });
    // regular expressions
    let idx: Vec<usize> = (0..REGEXES.len()).collect();
    let mut rs = sequences(&idx, 2, 2);
    rs.extend(sequences(if thorough { &idx[..] } else { &idx[..4] }, 3, 3));
    let subjects = ["x", "(str.++ x \"a\")", "(str.++ x y)", "\"ab\"", "(str.substr y 0 L)"];
    par(&rs, |r| {
        let mut b = Batch::default();
        for t in subjects {
            negated(&mut b, t, r, thorough);
            positive(&mut b, t, r, &[]);
        }
        run(rep, &b, complete, cap, &ds);
    });
    let ws = sequences(&["a", "b", "ab", "", "ba"], 2, 3);
    par(&ws, |w| {
        let mut b = Batch::default();
        for t in subjects {
            positive(&mut b, t, &[], w);
        }
        run(rep, &b, complete, cap, &ds);
    });
    if !complete {
        skolems(rep, thorough);
    }
}

/// The unfoldings of memberships in terms of `choice`: what is accepted must be the very form the rule
/// documents (which is itself a recorded finding), for the premise at hand.
fn skolems(rep: &Report, thorough: bool) {
    let idx: Vec<usize> = [0, 1, 3, 7, 10, 11].to_vec();
    let mut jobs = sequences(&idx, 1, 2);
    if thorough {
        jobs.extend(sequences(&idx, 3, 3));
    }
    par(&jobs, |rs| {
        let mut t = Tally::new();
        let mut env = Env::new(DECLS);
        let mut made: Vec<(Inst, bool)> = vec![];
        for x in ["x", "y", "(str.++ x \"a\")"] {
            let parts: Vec<&str> = rs.iter().map(|&i| REGEXES[i]).collect();
            if parts.len() > 1 {
                let whole = format!("(re.++ {})", parts.join(" "));
                let prem = in_re(x, &whole);
                for (c, ok) in unfolded(x, &parts) {
                    made.push((inst("re_concat_unfold_pos", &[&[&prem]], &[&c], &[]), ok));
                }
            } else {
                let star = format!("(re.* {})", parts[0]);
                let prem = in_re(x, &star);
                for (c, ok) in starred(x, parts[0], &star) {
                    made.push((inst("re_kleene_star_unfold_pos", &[&[&prem]], &[&c], &[]), ok));
                }
            }
        }
        for (i, ok) in &made {
            if env.try_terms(&[&i.premises[0][0], &i.clause[0]]).is_err() {
                // a concatenation of one component cannot be written
                t.inc("unfoldings_that_cannot_be_written", 1);
                continue;
            }
            let sp = i.spec(&mut env);
            t.inc("evaluations", 1);
            t.inc("unfoldings_with_choice", 1);
            match check_spec(&mut env, &sp, &Config::new()) {
                Out::Accept if *ok => {
                    t.inc("steps_accepted", 1);
                    if show(&sp.clause[0]).contains("choice") {
                        rep.violation(
                            &format!("class {} concludes memberships of unspecified choices", sp.rule),
                            &format!("the choice terms are not required to be in the languages: {}", sp.key()),
                        );
                    }
                }
                Out::Accept => rep.violation(&sp.key(), "accepted, but it is not the form the rule documents"),
                Out::Reject(_) if *ok && std::env::var("MC_VERBOSE").is_ok() => eprintln!("REJECTED {}", sp.key()),
                _ => {}
            }
        }
        t.flush(rep);
    });
}

fn to_re(r: &str) -> Option<String> {
    r.strip_prefix("(str.to_re ").map(|x| x[..x.len() - 1].to_string())
}

/// The terms and memberships of the unfolding of `t` in the concatenation of `parts`.
fn unfold(t: &str, parts: &[&str]) -> (Vec<String>, String) {
    let n = parts.len();
    let mut terms = vec![String::new(); n];
    let mut later: Vec<String> = vec![];
    let mut m = "true".to_string();
    for i in (0..n).rev() {
        if let Some(w) = to_re(parts[i]) {
            terms[i] = w;
            continue;
        }
        let mut binds: String = (0..i).map(|j| format!("(k_{j} String) (R_{j} RegLan) ")).collect();
        binds += &format!("(R_{i} RegLan)");
        for j in 0..later.len() {
            binds += &format!(" (R_{} RegLan)", i + j + 1);
        }
        let mut sum: Vec<String> = (0..i).map(|j| format!("k_{j}")).collect();
        sum.push("xx".into());
        sum.extend(later.clone());
        let sum = if sum.len() == 1 { format!("(str.++ {})", sum[0]) } else { format!("(str.++ {})", sum.join(" ")) };
        let mut ands: Vec<String> = (0..i).map(|j| format!("(str.in_re k_{j} R_{j})")).collect();
        ands.push(format!("(str.in_re xx R_{i})"));
        for (j, l) in later.iter().enumerate() {
            ands.push(format!("(str.in_re {l} R_{})", i + j + 1));
        }
        let k = format!("(choice ((xx String)) (exists ({binds}) (and (= {t} {sum}) {})))", ands.join(" "));
        let k = k.replace("xx", "x");
        let r = if i + 1 == n { parts[i].to_string() } else { format!("(re.++ {})", parts[i..].join(" ")) };
        m = format!("(and (str.in_re {k} {r}) {m})");
        later.insert(0, k.clone());
        terms[i] = k;
    }
    (terms, m)
}

fn unfolded(t: &str, parts: &[&str]) -> Vec<(String, bool)> {
    let (k, m) = unfold(t, parts);
    let mut out = vec![];
    let sum = eq(t, &format!("(str.++ {})", k.join(" ")));
    if m == "true" {
        return vec![(sum, true)];
    }
    out.push((format!("(and {sum} {m})"), true));
    // other forms, which do not follow either
    let mut back = k.clone();
    back.reverse();
    if back != k {
        out.push((format!("(and {} {m})", eq(t, &format!("(str.++ {})", back.join(" ")))), false));
    }
    out.push((format!("(and {sum} (and false {m}))"), false));
    out.push((format!("(and {sum} {})", m.replacen("true", "false", 1)), false));
    if let Some(i) = m.find("(str.to_re \"a\")") {
        let mut o = m.clone();
        o.replace_range(i..i + 15, "(str.to_re \"b\")");
        out.push((format!("(and {sum} {o})"), false));
    }
    out.push((format!("(and {} {m})", eq("z", &format!("(str.++ {})", k.join(" ")))), false));
    out
}

fn starred(t: &str, r: &str, star: &str) -> Vec<(String, bool)> {
    let (k, m) = unfold(t, &[r, star, r]);
    let k = &k;
    let m = m.strip_prefix("(and ").unwrap();
    let m = &m[..m.len() - 1];
    let build = |a: &str, b: &str, c: &str, d: &str| {
        format!(
            "(or {a} {b} (and (and {} {m}) {c} {d}))",
            eq(t, &format!("(str.++ {})", k.join(" ")))
        )
    };
    let (a, b, c, d) = (eq(t, "\"\""), in_re(t, r), not(&eq(&k[0], "\"\"")), not(&eq(&k[2], "\"\"")));
    let mut out = vec![(build(&a, &b, &c, &d), true)];
    out.push((build(&eq(t, "\"b\""), &b, &c, &d), false));
    out.push((build(&a, &in_re(t, "re.none"), &c, &d), false));
    out.push((build(&a, &in_re("\"bb\"", r), &c, &d), r == "re.allchar" && false));
    out.push((build(&a, &b, &not(&eq(&k[1], "\"\"")), &d), false));
    out
}

pub fn family(thorough: bool) -> Family {
    let mut b = Batch::default();
    let x = V("x");
    let c = |v: &[C]| cat(v);
    equalities(&mut b, &c(&[s("ab"), x.clone()]), &c(&[s("a"), V("y")]), false);
    equalities(&mut b, &c(&[x.clone(), s("b")]), &c(&[s("aa"), x.clone(), s("ab")]), false);
    equalities(&mut b, &c(&[s("ab"), x.clone()]), &c(&[s("aa"), V("y")]), false);
    splits(&mut b, &c(&[x.clone(), s("b")]), &c(&[s("a"), V("y")]), false);
    cprop(&mut b, &[x.clone(), s("ba"), V("z")], &c(&[s("abab"), V("y")]), false);
    cprop(&mut b, &[x.clone(), s("ba"), V("z")], &c(&[V("y"), s("abab")]), false);
    decompose(&mut b, &c(&[x.clone(), s("a")]));
    lengths(&mut b, &c(&[x.clone(), s("a")]), &x);
    negated(&mut b, "x", &[1, 7], false);
    negated(&mut b, "x", &[10, 3, 0], false);
    positive(&mut b, "x", &[10, 3], &["a", "ba"]);
    let mut insts: Vec<Inst> = vec![];
    let mut seen = BTreeSet::new();
    let mut per: std::collections::BTreeMap<String, usize> = Default::default();
    for (i, ok) in b.0 {
        if ok && seen.insert(format!("{i:?}")) {
            let n = per.entry(i.rule.clone()).or_default();
            *n += 1;
            if *n <= 4 {
                insts.push(i);
            }
        }
    }
    let mut ds = doms();
    ds.truncate(1);
    Family {
        name: "strings",
        decls: DECLS.into(),
        fresh: vec!["x", "y", "\"\"", "\"a\"", "\"ab\"", "0", "1", "k", "(str.len x)", "true", "false", "re.all", "(str.to_re \"a\")", "(str.++ x y)"],
        insts,
        doms: ds,
        cap: if thorough { 3_000 } else { 400 },
        opts: EditOpts { max_repl: if thorough { 12 } else { 8 }, ..Default::default() },
        cfg: Config::new(),
        depth2: if thorough { 60 } else { 0 },
    }
}
