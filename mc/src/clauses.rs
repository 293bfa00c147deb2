//! Exhaustive enumeration of resolution-like steps over small clause alphabets (C02, C11).
use crate::core::*;
use crate::mutate::*;
use crate::rules::*;
use crate::sem::*;
use carcara::ast::*;
use carcara::checker::Config;
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// everything accepted must be sound
    Sound,
    /// everything the reference calls a correct instance must be accepted
    Complete,
    /// everything accepted is elaborated (C15)
    Elaborate,
}

/// A literal: number of negations and atom (0..3 = p q r, 3 = false, 4 = true).
type L = (u32, usize);

fn atom_mask(a: usize) -> u8 {
    match a {
        0 => 0b1010_1010,
        1 => 0b1100_1100,
        2 => 0b1111_0000,
        3 => 0,
        _ => 0xff,
    }
}
fn lmask(l: L) -> u8 {
    let m = atom_mask(l.1);
    if l.0 % 2 == 0 {
        m
    } else {
        !m
    }
}
fn cmask(c: &[L]) -> u8 {
    c.iter().fold(0, |m, l| m | lmask(*l))
}

pub fn lists<X: Copy>(alpha: &[X], max: usize) -> Vec<Vec<X>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for l in &last {
            for a in alpha {
                let mut n: Vec<X> = l.clone();
                n.push(*a);
                next.push(n);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
pub fn subsets<X: Copy>(alpha: &[X], max: usize) -> Vec<Vec<X>> {
    let mut out: Vec<Vec<X>> = vec![vec![]];
    let mut last: Vec<(usize, Vec<X>)> = vec![(0, vec![])];
    for _ in 0..max {
        let mut next = Vec::new();
        for (i, l) in &last {
            for j in *i..alpha.len() {
                let mut n = l.clone();
                n.push(alpha[j]);
                next.push((j + 1, n));
            }
        }
        out.extend(next.iter().map(|x| x.1.clone()));
        last = next;
    }
    out
}

struct W {
    env: Env,
    atoms: Vec<T>,
    lits: std::collections::HashMap<L, T>,
    tally: Tally,
    plain: Config,
    elab: Config,
    pipes: Vec<String>,
}
impl W {
    fn new() -> W {
        let mut env = Env::new(crate::cat_bool::DECLS);
        let atoms = env.terms(&["p", "q", "r", "false", "true"]);
        W {
            env,
            atoms,
            lits: Default::default(),
            tally: Tally::new(),
            plain: Config::new(),
            elab: Config::new().elaborated(true),
            pipes: crate::elab::pipelines(0),
        }
    }
    fn lit(&mut self, l: L) -> T {
        if let Some(t) = self.lits.get(&l) {
            return t.clone();
        }
        let mut t = self.atoms[l.1].clone();
        for _ in 0..l.0 {
            t = self.env.not(&t);
        }
        self.lits.insert(l, t.clone());
        t
    }
    fn clause(&mut self, c: &[L]) -> Vec<T> {
        c.iter().map(|l| self.lit(*l)).collect()
    }
    fn spec(&mut self, rule: &str, prem: &[&Vec<L>], concl: &[L], args: Vec<T>) -> Spec {
        Spec {
            rule: rule.into(),
            premises: prem.iter().map(|c| self.clause(c)).collect(),
            clause: self.clause(concl),
            args,
        }
    }
    fn elaborate(&mut self, rep: &Report, s: &Spec) {
        let problem = Problem { prelude: self.env.prelude.clone(), ..Default::default() };
        crate::elab::spec(rep, &mut self.tally, &mut self.env, &problem, s, &self.plain, &self.pipes);
    }
    /// Checks a spec; in Sound mode compares with truth tables, in Complete mode with `must`.
    fn go(&mut self, rep: &Report, mode: Mode, s: &Spec, prem: u8, concl: u8, must: bool, elab: bool) {
        if mode == Mode::Complete && !must {
            return;
        }
        self.tally.inc("evaluations", 1);
        let cfg = if elab { self.elab.clone() } else { self.plain.clone() };
        let out = check_spec(&mut self.env, s, &cfg);
        match out {
            Out::Accept => {
                self.tally.inc("steps_accepted", 1);
                if s.premises.len() > 1 || !s.args.is_empty() {
                    self.tally.distinct.insert(hash_of(&s.key()));
                }
                if mode == Mode::Elaborate && !elab {
                    self.elaborate(rep, s);
                }
                if mode == Mode::Sound && prem & !concl != 0 {
                    rep.violation(
                        &s.key(),
                        &format!("accepted although assignment mask {:08b} satisfies the premises and not the conclusion", prem & !concl),
                    );
                }
            }
            Out::Reject(_) => {
                self.tally.inc("steps_rejected", 1);
                if mode == Mode::Complete {
                    rep.violation(&s.key(), "rejected although it is a correct instance of the rule");
                }
            }
            Out::Panic(p) => {
                self.tally.inc("steps_crashed", 1);
                if mode == Mode::Complete {
                    rep.violation(&s.key(), &format!("crashed although it is a correct instance of the rule: {p}"));
                }
            }
        }
    }
}

/// Chain resolution as specified: pivots removed from the running clause and from the next premise.
fn chain(prem: &[&Vec<L>], piv: &[(L, bool)]) -> Option<Vec<L>> {
    let mut cur: Vec<L> = prem[0].clone();
    for (p, (l, pol)) in prem[1..].iter().zip(piv) {
        let neg = (l.0 + 1, l.1);
        let (a, b) = if *pol { (*l, neg) } else { (neg, *l) };
        let i = cur.iter().position(|x| *x == a)?;
        cur.remove(i);
        let j = p.iter().position(|x| *x == b)?;
        for (k, x) in p.iter().enumerate() {
            if k != j {
                cur.push(*x);
            }
        }
    }
    Some(cur)
}

fn dedup(c: &[L]) -> Vec<L> {
    let mut v = Vec::new();
    for l in c {
        if !v.contains(l) {
            v.push(*l);
        }
    }
    v
}

/// Resolution steps without pivots.
fn plain_resolution(rep: &Report, mode: Mode, alpha: &[L], n: usize, len: usize, clen: usize) {
    let cl = lists(alpha, len);
    let concls = lists(alpha, clen);
    let idx: Vec<usize> = (0..cl.len()).collect();
    par(&idx, |&i| {
        let mut w = W::new();
        let mut sel = vec![0usize; n.saturating_sub(1)];
        loop {
            let mut prem: Vec<&Vec<L>> = vec![&cl[i]];
            prem.extend(sel.iter().map(|&j| &cl[j]));
            let pm = prem.iter().fold(0xffu8, |m, c| m & cmask(c));
            if mode == Mode::Sound {
                for c in &concls {
                    let s = w.spec("resolution", &prem, c, vec![]);
                    w.go(rep, mode, &s, pm, cmask(c), false, false);
                }
            } else {
                // trivial chains: distinct pivot atoms, every other literal in the conclusion
                let mut done: HashSet<Vec<L>> = HashSet::new();
                for piv in pivot_choices(&prem) {
                    let atoms: BTreeSet<usize> = piv.iter().map(|p| p.0 .1).collect();
                    if atoms.len() < piv.len() {
                        continue;
                    }
                    if let Some(c) = chain(&prem, &piv) {
                        let c = dedup(&c);
                        if done.insert(c.clone()) {
                            let s = w.spec("resolution", &prem, &c, vec![]);
                            w.go(rep, mode, &s, pm, cmask(&c), true, false);
                        }
                    }
                }
            }
            // next selection
            let mut k = 0;
            loop {
                if k == sel.len() {
                    w.tally.flush(rep);
                    return;
                }
                sel[k] += 1;
                if sel[k] < cl.len() {
                    break;
                }
                sel[k] = 0;
                k += 1;
            }
        }
    });
}

/// Every sequence of pivots that could apply to the premises in order.
fn pivot_choices(prem: &[&Vec<L>]) -> Vec<Vec<(L, bool)>> {
    let mut out: Vec<Vec<(L, bool)>> = vec![vec![]];
    for p in &prem[1..] {
        let mut next = Vec::new();
        let mut cand: Vec<(L, bool)> = Vec::new();
        for l in p.iter() {
            cand.push((*l, false));
            if l.0 > 0 {
                cand.push(((l.0 - 1, l.1), true));
            }
        }
        cand.sort();
        cand.dedup();
        for o in &out {
            for c in &cand {
                let mut v = o.clone();
                v.push(*c);
                next.push(v);
            }
        }
        out = next;
    }
    out
}

/// Resolution with pivots given as arguments, and its strict form.
fn arg_resolution(rep: &Report, mode: Mode, alpha: &[L], n: usize, len: usize, ordered: bool) {
    let cl = if ordered { lists(alpha, len) } else { subsets(alpha, len) };
    let concls = if ordered { lists(alpha, len) } else { subsets(alpha, len) };
    let idx: Vec<usize> = (0..cl.len()).collect();
    let one: Vec<(L, bool)> = alpha.iter().flat_map(|l| [(*l, true), (*l, false)]).collect();
    let mut pivs: Vec<Vec<(L, bool)>> = vec![vec![]];
    for _ in 1..n {
        pivs = pivs
            .iter()
            .flat_map(|p| {
                one.iter().map(move |o| {
                    let mut v = p.clone();
                    v.push(*o);
                    v
                })
            })
            .collect();
    }
    par(&idx, |&i| {
        let mut w = W::new();
        let mut sel = vec![0usize; n - 1];
        loop {
            let mut prem: Vec<&Vec<L>> = vec![&cl[i]];
            prem.extend(sel.iter().map(|&j| &cl[j]));
            let pm = prem.iter().fold(0xffu8, |m, c| m & cmask(c));
            for piv in &pivs {
                let want = chain(&prem, piv);
                if mode == Mode::Complete && want.is_none() {
                    continue;
                }
                let args: Vec<T> = piv
                    .iter()
                    .flat_map(|(l, b)| {
                        let t = w.lit(*l);
                        [t, w.env.bool(*b)]
                    })
                    .collect();
                if mode == Mode::Complete {
                    let c = want.unwrap();
                    let d = dedup(&c);
                    let mut rev = d.clone();
                    rev.reverse();
                    let s = w.spec("strict_resolution", &prem, &c, args.clone());
                    w.go(rep, mode, &s, pm, cmask(&c), true, false);
                    for c in [&d, &rev] {
                        for (rule, elab) in [("resolution", false), ("th_resolution", true)] {
                            // the set form removes every copy of a pivot, the chain only one;
                            // stay where both agree
                            if set_chain(&prem, piv).is_some_and(|s| s == c.iter().copied().collect()) {
                                let s = w.spec(rule, &prem, c, args.clone());
                                w.go(rep, mode, &s, pm, cmask(c), true, elab);
                            }
                        }
                    }
                    continue;
                }
                for c in &concls {
                    let mut s = w.spec("resolution", &prem, c, args.clone());
                    w.go(rep, mode, &s, pm, cmask(c), false, false);
                    s.rule = "strict_resolution".into();
                    w.go(rep, mode, &s, pm, cmask(c), false, false);
                }
            }
            let mut k = 0;
            loop {
                if k == sel.len() {
                    w.tally.flush(rep);
                    return;
                }
                sel[k] += 1;
                if sel[k] < cl.len() {
                    break;
                }
                sel[k] = 0;
                k += 1;
            }
        }
    });
}

fn set_chain(prem: &[&Vec<L>], piv: &[(L, bool)]) -> Option<BTreeSet<L>> {
    let mut cur: BTreeSet<L> = prem[0].iter().copied().collect();
    for (p, (l, pol)) in prem[1..].iter().zip(piv) {
        let neg = (l.0 + 1, l.1);
        let (a, b) = if *pol { (*l, neg) } else { (neg, *l) };
        if !cur.remove(&a) {
            return None;
        }
        let mut found = false;
        for x in p.iter() {
            if *x == b && !found {
                found = true;
            } else {
                cur.insert(*x);
            }
        }
        if !found {
            return None;
        }
    }
    Some(cur)
}

/// Single-premise clause rules over all small premise and conclusion lists.
fn unary_rules(rep: &Report, mode: Mode, alpha: &[L], len: usize) {
    let cl = lists(alpha, len);
    let idx: Vec<usize> = (0..cl.len()).collect();
    par(&idx, |&i| {
        let mut w = W::new();
        let pm = cmask(&cl[i]);
        let count = |c: &[L], l: L| c.iter().filter(|x| **x == l).count();
        for c in &cl {
            let p = &cl[i];
            let contraction = p.iter().all(|l| count(c, *l) >= 1 && count(c, *l) <= count(p, *l))
                && c.iter().all(|l| count(p, *l) >= count(c, *l));
            let reordering = p.len() == c.len() && p.iter().all(|l| count(c, *l) == count(p, *l));
            let weakening = c.len() >= p.len() && c[..p.len()] == p[..];
            for (rule, must) in [("contraction", contraction), ("reordering", reordering), ("weakening", weakening)] {
                let s = w.spec(rule, &[p], c, vec![]);
                w.go(rep, mode, &s, pm, cmask(c), must, false);
            }
        }
        let p = &cl[i];
        let taut = p.iter().any(|l| p.iter().any(|m| m.1 == l.1 && m.0 % 2 != l.0 % 2));
        for a in [3usize, 4] {
            let s = w.spec("tautology", &[p], &[(0, a)], vec![]);
            w.go(rep, mode, &s, pm, cmask(&[(0, a)]), taut && a == 4, false);
        }
        w.tally.flush(rep);
    });
}

// ------------------------------------------------------------------------------------------------
// DRUP / DRAT

type SL = (bool, usize);
fn norm(c: &[L]) -> BTreeSet<SL> {
    c.iter().map(|l| (l.0 % 2 == 0, l.1)).collect()
}
fn rup_ref(db: &[BTreeSet<SL>], goal: &BTreeSet<SL>) -> bool {
    let mut asg: BTreeSet<SL> = BTreeSet::new();
    for l in goal {
        asg.insert((!l.0, l.1));
    }
    if asg.iter().any(|l| asg.contains(&(!l.0, l.1))) {
        return true;
    }
    loop {
        let mut changed = false;
        for c in db {
            if c.iter().any(|l| asg.contains(l)) {
                continue;
            }
            let open: Vec<SL> = c.iter().filter(|l| !asg.contains(&(!l.0, l.1))).copied().collect();
            match open.len() {
                0 => return true,
                1 => {
                    asg.insert(open[0]);
                    changed = true;
                }
                _ => {}
            }
        }
        if !changed {
            return false;
        }
    }
}

#[derive(Clone, Debug)]
enum Act {
    Add(Vec<L>),
    Del(Vec<L>),
}

/// Naive DRUP checker: clauses are kept as written (for deletion and for finding the conclusion).
fn drup_ref(prem: &[&Vec<L>], acts: &[&Act], concl: &[L]) -> bool {
    let mut db: Vec<Vec<L>> = Vec::new();
    let push = |db: &mut Vec<Vec<L>>, c: &Vec<L>| {
        if !db.contains(c) {
            db.push(c.clone());
        }
    };
    for p in prem {
        push(&mut db, p);
    }
    for a in acts {
        match a {
            Act::Del(c) => db.retain(|x| x != c),
            Act::Add(c) => {
                let n: Vec<BTreeSet<SL>> = db.iter().map(|c| norm(c)).collect();
                if !rup_ref(&n, &norm(c)) {
                    return false;
                }
                push(&mut db, c);
            }
        }
    }
    db.iter().any(|c| c[..] == *concl)
}

fn drup(rep: &Report, mode: Mode, cls: &[Vec<L>], nprem: usize, nacts: usize, concls: &[Vec<L>], rules: &[&str], dels: bool) {
    let ids: Vec<usize> = (0..cls.len()).collect();
    let prems = subsets(&ids, nprem);
    let mut acts: Vec<Act> = cls.iter().map(|c| Act::Add(c.clone())).collect();
    if dels {
        acts.extend(cls.iter().map(|c| Act::Del(c.clone())));
    }
    let aids: Vec<usize> = (0..acts.len()).collect();
    let seqs = lists(&aids, nacts);
    let chunks: Vec<&[Vec<usize>]> = prems.chunks(8).collect();
    par(&chunks, |ch| {
        let mut w = W::new();
        for pr in ch.iter() {
            let prem: Vec<&Vec<L>> = pr.iter().map(|&i| &cls[i]).collect();
            let pm = prem.iter().fold(0xffu8, |m, c| m & cmask(c));
            for sq in &seqs {
                let a: Vec<&Act> = sq.iter().map(|&i| &acts[i]).collect();
                let args: Vec<T> = a
                    .iter()
                    .map(|x| {
                        let (c, del) = match x {
                            Act::Add(c) => (c, false),
                            Act::Del(c) => (c, true),
                        };
                        let c = w.clause(c);
                        let t = w.env.op(Operator::Cl, c);
                        if del {
                            w.env.op(Operator::Delete, vec![t])
                        } else {
                            t
                        }
                    })
                    .collect();
                for c in concls {
                    let must = mode == Mode::Complete && drup_ref(&prem, &a, c);
                    if mode == Mode::Complete && !must {
                        continue;
                    }
                    for rule in rules {
                        let s = w.spec(rule, &prem, c, args.clone());
                        w.go(rep, mode, &s, pm, cmask(c), must, false);
                    }
                }
            }
        }
        w.tally.flush(rep);
    });
}

fn sizes(v: &[(usize, &[L])]) -> Vec<Vec<L>> {
    let mut out = Vec::new();
    for (n, a) in v {
        for c in subsets(a, *n) {
            if !out.contains(&c) {
                out.push(c);
            }
        }
    }
    out
}

pub fn run(rep: &Report, mode: Mode, thorough: bool) {
    const P: L = (0, 0);
    const NP: L = (1, 0);
    const NNP: L = (2, 0);
    const NNNP: L = (3, 0);
    const Q: L = (0, 1);
    const NQ: L = (1, 1);
    const R: L = (0, 2);
    const NR: L = (1, 2);
    const F: L = (0, 3);
    const NF: L = (1, 3);
    const TT: L = (0, 4);
    const NT: L = (1, 4);
    let t = |s: &str| {
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{:.1}s {s}", rep.elapsed());
        }
    };
    if mode == Mode::Elaborate {
        plain_resolution(rep, mode, &[P, NP, NNP, Q, NQ], 2, 2, 2);
        plain_resolution(rep, mode, &[P, NP, NNP, Q, NQ], 3, 2, if thorough { 2 } else { 1 });
        arg_resolution(rep, mode, &[P, NP, NNP, Q, NQ], 2, 2, false);
        arg_resolution(rep, mode, &[P, NP, Q, NQ], 3, if thorough { 2 } else { 1 }, false);
        unary_rules(rep, mode, &[P, NP, NNP, Q, F], if thorough { 4 } else { 3 });
        return;
    }
    if mode == Mode::Sound {
        plain_resolution(rep, mode, &[P, NP, NNP, NNNP, Q, NQ, F, TT, NT, NF], 1, 2, 2);
    }
    plain_resolution(rep, mode, &[P, NP, NNP, NNNP, Q, NQ, F, NT], 2, 2, 2);
    t("plain2");
    plain_resolution(rep, mode, &[P, NP, NNP, Q, NQ], 3, 2, if thorough { 3 } else { 2 });
    t("plain3");
    arg_resolution(rep, mode, &[P, NP, NNP, Q, NQ], 2, 2, true);
    arg_resolution(rep, mode, &[P, NP, Q, NQ], 3, 2, false);
    t("args");
    unary_rules(rep, mode, &[P, NP, NNP, Q, F], if thorough { 4 } else { 3 });
    t("unary");
    // clause alphabets for DRUP: all sets over two variables, some with duplicated or doubly
    // negated literals
    let mut two = sizes(&[(2, &[P, NP, Q, NQ])]);
    two.push(vec![P, P]);
    two.push(vec![NNP, Q]);
    two.push(vec![NNNP]);
    let concl2 = vec![vec![], vec![P], vec![NP], vec![Q], vec![P, Q], vec![NP, Q]];
    drup(rep, mode, &two, 3, 1, &concl2, &["drup", "drat"], true);
    t("drup a");
    drup(rep, mode, &sizes(&[(2, &[P, NP, Q, NQ])]), 3, 2, &[vec![], vec![P], vec![P, Q]], &["drup", "drat"], thorough);
    t("drup b");
    let three = sizes(&[(3, &[P, Q, R]), (3, &[NP, NQ, NR]), (3, &[P, NQ, R]), (2, &[NP, Q]), (2, &[P, NR])]);
    drup(rep, mode, &three, if thorough { 4 } else { 3 }, 1, &[vec![], vec![P], vec![Q, R]], &["drup", "drat"], false);
    t("drup c");
    if thorough {
        plain_resolution(rep, mode, &[P, NP, NNP, Q, NQ, F, NT], 3, 2, 2);
        plain_resolution(rep, mode, &[P, NP, Q, NQ], 3, 3, 2);
        plain_resolution(rep, mode, &[P, NP, Q, NQ], 4, 2, 2);
        t("plain thorough");
        arg_resolution(rep, mode, &[P, NP, Q, NQ], 3, 2, true);
        t("args thorough");
        drup(rep, mode, &three, 3, 2, &[vec![], vec![P]], &["drup", "drat"], false);
        t("drup thorough");
    }
}

pub fn family() -> Family {
    let mut c = crate::cat_bool::Cat::new();
    c.f("resolution", &[&["p", "q"], &["(not p)", "r"], &["(not q)", "s"]], &["r", "s"], &[]);
    c.f("th_resolution", &[&["p", "(not (not q))"], &["(not (not (not q)))", "r"]], &["p", "r"], &[]);
    c.f("resolution", &[&["(not (not p))"], &["(not p)", "q"]], &["q"], &["(not p)", "false"]);
    c.f("resolution", &[&["p", "q"], &["(not p)", "r"], &["(not q)", "s"]], &["r", "s"], &["p", "true", "q", "true"]);
    c.f("strict_resolution", &[&["p", "q"], &["(not p)", "r"], &["(not q)", "s"]], &["r", "s"], &["p", "true", "q", "true"]);
    c.f("resolution", &[&["(= a b)", "(P a)"], &["(not (= a b))", "(not (P a))"]], &["(P a)", "(not (P a))"], &["(= a b)", "true"]);
    c.f("resolution", &[&["(not true)"]], &[], &[]);
    c.f("resolution", &[&["p", "q", "false"], &["(not p)"], &["(not q)"]], &[], &[]);
    c.f("resolution", &[&["(not p)"], &["(= (not p) (not (not q)))"], &["(not (= (not p) (not (not q))))", "p", "q"]], &["(not (not q))"], &[]);
    c.p("contraction", &["p", "q", "p", "(not q)"], &["p", "q", "(not q)"]);
    c.p("reordering", &["p", "q", "r"], &["r", "p", "q"]);
    c.p("weakening", &["p", "q"], &["p", "q", "r", "s"]);
    c.p("tautology", &["p", "q", "(not (not (not q)))"], &["true"]);
    c.e("shuffle", "(and p q r)", "(and r q p)");
    c.e("shuffle", "(or p (and q r) p)", "(or p p (and q r))");
    c.e("shuffle", "(+ i j k)", "(+ k i j)");
    c.e("shuffle", "(* u v u)", "(* u u v)");
    c.f("and_intro", &[&["p"], &["q", "r"], &["(not s)"]], &["(and p (or q r) (not s))"], &[]);
    Family {
        name: "clauses",
        decls: crate::cat_bool::DECLS.into(),
        fresh: vec!["p", "q", "r", "true", "false", "(not p)", "i", "0", "u"],
        insts: c.v,
        doms: vec![Doms::std()],
        cap: 12_000,
        opts: EditOpts { max_repl: 10, ..Default::default() },
        cfg: Config::new(),
        depth2: 900,
    }
}
