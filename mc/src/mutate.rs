//! Exhaustive edit neighbourhoods of proof steps: every well-sorted step reachable from a given
//! step by one (or two) syntactic edits over a stated alphabet.
use crate::core::*;
use crate::sem::*;
use carcara::ast::*;
use std::collections::{BTreeMap, HashSet};

pub struct Alphabet {
    pub by_sort: BTreeMap<Srt, Vec<T>>,
}

impl Alphabet {
    pub fn new(env: &mut Env, texts: &[&str]) -> Alphabet {
        let ts = env.terms(texts);
        let mut by_sort: BTreeMap<Srt, Vec<T>> = BTreeMap::new();
        for t in ts {
            let s = sort_of(&t, true).unwrap();
            by_sort.entry(s).or_default().push(t);
        }
        Alphabet { by_sort }
    }
}

#[derive(Clone, Copy)]
pub struct EditOpts {
    /// replace sub-terms by terms of the alphabet and by other sub-terms of the step
    pub replace: bool,
    pub max_repl: usize,
    /// allow mixed Int/Real arithmetic
    pub subtyping: bool,
    /// also build terms that no parser would accept (only for crash checking)
    pub wild: bool,
}
impl Default for EditOpts {
    fn default() -> Self {
        EditOpts { replace: true, max_repl: 14, subtyping: false, wild: false }
    }
}

fn op_group(o: Operator) -> &'static [Operator] {
    use Operator::*;
    const BOOLN: [Operator; 6] = [And, Or, Xor, Implies, Equals, Distinct];
    const ARITH: [Operator; 3] = [Add, Sub, Mult];
    const DIVS: [Operator; 2] = [IntDiv, Mod];
    const CMP: [Operator; 5] = [LessThan, LessEq, GreaterThan, GreaterEq, Equals];
    const BV2: [Operator; 11] = [BvAnd, BvOr, BvXor, BvAdd, BvMul, BvSub, BvXNor, BvNAnd, BvNOr, BvUDiv, BvURem];
    const BVC: [Operator; 9] = [BvULt, BvULe, BvUGt, BvUGe, BvSLt, BvSLe, BvSGt, BvSGe, Equals];
    const BV1: [Operator; 2] = [BvNot, BvNeg];
    const EQ: [Operator; 2] = [Equals, Distinct];
    const RE2: [Operator; 4] = [ReConcat, ReUnion, ReIntersection, ReDiff];
    const RE1: [Operator; 4] = [ReKleeneClosure, ReKleeneCross, ReOption, ReComplement];
    const STRB: [Operator; 3] = [PrefixOf, SuffixOf, Contains];
    match o {
        And | Or | Xor | Implies => &BOOLN,
        Equals | Distinct => &EQ,
        Add | Sub | Mult => &ARITH,
        IntDiv | Mod => &DIVS,
        LessThan | LessEq | GreaterThan | GreaterEq => &CMP,
        BvAnd | BvOr | BvXor | BvAdd | BvMul | BvSub | BvXNor | BvNAnd | BvNOr | BvUDiv | BvURem => &BV2,
        BvULt | BvULe | BvUGt | BvUGe | BvSLt | BvSLe | BvSGt | BvSGe => &BVC,
        BvNot | BvNeg => &BV1,
        ReConcat | ReUnion | ReIntersection | ReDiff => &RE2,
        ReKleeneClosure | ReKleeneCross | ReOption | ReComplement => &RE1,
        PrefixOf | SuffixOf | Contains => &STRB,
        _ => &[],
    }
}

/// All sub-terms of `t` (children only, with the way to put a replacement back).
pub fn children(t: &Term) -> Vec<T> {
    match t {
        Term::App(f, a) => {
            let mut v = vec![f.clone()];
            v.extend(a.iter().cloned());
            v
        }
        Term::Op(_, a) => a.clone(),
        Term::Binder(_, _, b) => vec![b.clone()],
        Term::Let(bl, b) => {
            let mut v: Vec<T> = bl.iter().map(|x| x.1.clone()).collect();
            v.push(b.clone());
            v
        }
        Term::ParamOp { op_args, args, .. } => {
            let mut v = op_args.clone();
            v.extend(args.iter().cloned());
            v
        }
        _ => vec![],
    }
}

pub fn with_children(env: &mut Env, t: &Term, ch: Vec<T>) -> T {
    let n = match t {
        Term::App(_, _) => Term::App(ch[0].clone(), ch[1..].to_vec()),
        Term::Op(o, _) => Term::Op(*o, ch),
        Term::Binder(b, bl, _) => Term::Binder(*b, bl.clone(), ch[0].clone()),
        Term::Let(bl, _) => Term::Let(
            BindingList(bl.iter().zip(&ch).map(|((n, _), v)| (n.clone(), v.clone())).collect()),
            ch.last().unwrap().clone(),
        ),
        Term::ParamOp { op, op_args, .. } => Term::ParamOp {
            op: *op,
            op_args: ch[..op_args.len()].to_vec(),
            args: ch[op_args.len()..].to_vec(),
        },
        t => t.clone(),
    };
    env.pool.add(n)
}

fn collect_sub(t: &T, out: &mut Vec<T>, seen: &mut HashSet<T>) {
    if !matches!(t.as_ref(), Term::Sort(_)) && seen.insert(t.clone()) {
        out.push(t.clone());
    }
    for c in children(t) {
        collect_sub(&c, out, seen);
    }
}

/// Context shared by the edits of one step.
struct Cx<'a> {
    alpha: &'a Alphabet,
    subs: BTreeMap<Srt, Vec<T>>,
    o: EditOpts,
}

/// Local edits of the root of `t` (without recursion).
fn root_edits(env: &mut Env, t: &T, cx: &Cx, out: &mut Vec<T>) {
    use Operator as O;
    let s = sort_of(t, true).ok();
    // replacement by other terms of the same sort
    if cx.o.replace {
        if let Some(s) = &s {
            let mut n = 0;
            for list in [cx.subs.get(s), cx.alpha.by_sort.get(s)].into_iter().flatten() {
                for r in list {
                    if r != t && n < cx.o.max_repl {
                        out.push(r.clone());
                        n += 1;
                    }
                }
            }
        }
    }
    if s == Some(Srt::Bool) {
        out.push(env.not(t));
        if let Term::Op(O::Not, a) = t.as_ref() {
            out.push(a[0].clone());
        }
    }
    match t.as_ref() {
        Term::Const(Constant::Integer(i)) => {
            for d in [-1, 1] {
                let v = i.clone() + d;
                out.push(env.pool.add(Term::new_int(v)));
            }
            if *i != 0 {
                out.push(env.pool.add(Term::new_int(-i.clone())));
            }
        }
        Term::Const(Constant::Real(r)) => {
            for d in [-1, 1] {
                let v = r.clone() + d;
                out.push(env.pool.add(Term::new_real(v)));
            }
            let v = r.clone() / 2;
            out.push(env.pool.add(Term::new_real(v)));
            out.push(env.pool.add(Term::new_real(-r.clone())));
        }
        Term::Const(Constant::BitVec(v, w)) => {
            for i in 0..(*w).min(4) {
                let x = v.clone() ^ (rug::Integer::from(1) << (i as u32));
                out.push(env.pool.add(Term::new_bv(x, *w)));
            }
            if *w > 4 {
                let x = v.clone() ^ (rug::Integer::from(1) << ((*w - 1) as u32));
                out.push(env.pool.add(Term::new_bv(x, *w)));
            }
        }
        Term::Const(Constant::String(s)) => {
            let mut v = vec![format!("{s}a"), format!("a{s}"), format!("{s}b")];
            if !s.is_empty() {
                let c: Vec<char> = s.chars().collect();
                v.push(c[1..].iter().collect());
                v.push(c[..c.len() - 1].iter().collect());
                v.push(c.iter().rev().collect());
            }
            for x in v {
                out.push(env.pool.add(Term::new_string(x)));
            }
        }
        Term::Op(o, a) => {
            for &g in op_group(*o) {
                if g != *o {
                    out.extend(env_add(env, Term::Op(g, a.clone()), cx));
                }
            }
            list_edits(env, a, s.as_ref(), cx, &mut |env, a| env_add(env, Term::Op(*o, a), cx), out);
            // unwrap
            if !a.is_empty() && a.len() <= 3 {
                for x in a {
                    if sort_of(x, true).ok() == s {
                        out.push(x.clone());
                    }
                }
            }
        }
        Term::App(f, a) => {
            // only permutations keep the arity
            for i in 0..a.len() {
                for j in 0..i {
                    let mut b = a.clone();
                    b.swap(i, j);
                    out.extend(env_add(env, Term::App(f.clone(), b), cx));
                }
            }
        }
        Term::Binder(b, bl, body) => {
            let alt = match b {
                Binder::Forall => Some(Binder::Exists),
                Binder::Exists => Some(Binder::Forall),
                _ => None,
            };
            if let Some(x) = alt {
                out.extend(env_add(env, Term::Binder(x, bl.clone(), body.clone()), cx));
            }
            if matches!(b, Binder::Forall | Binder::Exists) {
                out.push(body.clone());
            }
            for i in 0..bl.len() {
                if bl.len() > 1 {
                    let mut v = bl.0.clone();
                    v.remove(i);
                    out.extend(env_add(env, Term::Binder(*b, BindingList(v), body.clone()), cx));
                }
                for j in 0..i {
                    let mut v = bl.0.clone();
                    v.swap(i, j);
                    out.extend(env_add(env, Term::Binder(*b, BindingList(v), body.clone()), cx));
                }
                // rename the binding only
                for n in ["vv", "x", "y", "z"] {
                    if bl[i].0 != n {
                        let mut v = bl.0.clone();
                        v[i].0 = n.to_string();
                        out.extend(env_add(env, Term::Binder(*b, BindingList(v), body.clone()), cx));
                    }
                }
                if matches!(b, Binder::Forall | Binder::Exists) && bl.len() < 4 {
                    for n in ["vv", "y"] {
                        let mut v = bl.0.clone();
                        v.push((n.to_string(), bl[i].1.clone()));
                        out.extend(env_add(env, Term::Binder(*b, BindingList(v), body.clone()), cx));
                    }
                }
            }
        }
        Term::Let(_, body) => out.push(body.clone()),
        _ => {}
    }
}

fn env_add(env: &mut Env, t: Term, cx: &Cx) -> Option<T> {
    if sort_of(&t, cx.o.subtyping).is_ok() {
        Some(env.pool.add(t))
    } else {
        None
    }
}

fn list_edits(
    env: &mut Env,
    a: &[T],
    _s: Option<&Srt>,
    cx: &Cx,
    mk: &mut dyn FnMut(&mut Env, Vec<T>) -> Option<T>,
    out: &mut Vec<T>,
) {
    let mut push = |env: &mut Env, b: Vec<T>, out: &mut Vec<T>| {
        if let Some(t) = mk(env, b) {
            out.push(t);
        }
    };
    for i in 0..a.len() {
        if a.len() > 1 {
            let mut b = a.to_vec();
            b.remove(i);
            push(env, b, out);
        }
        let mut b = a.to_vec();
        b.insert(i, a[i].clone());
        push(env, b, out);
        for j in 0..i {
            let mut b = a.to_vec();
            b.swap(i, j);
            push(env, b, out);
            let mut b = a.to_vec();
            b[i] = a[j].clone();
            push(env, b, out);
            let mut b = a.to_vec();
            b[j] = a[i].clone();
            push(env, b, out);
        }
        // flatten a nested application of an operator
        if let Term::Op(_, inner) = a[i].as_ref() {
            if inner.len() > 1 {
                let mut b = a[..i].to_vec();
                b.extend(inner.iter().cloned());
                b.extend(a[i + 1..].iter().cloned());
                push(env, b, out);
            }
        }
    }
    if let Some(first) = a.first() {
        if let Ok(s) = sort_of(first, true) {
            if let Some(l) = cx.alpha.by_sort.get(&s) {
                for x in l.iter().take(3) {
                    let mut b = a.to_vec();
                    b.push(x.clone());
                    push(env, b, out);
                    let mut b = a.to_vec();
                    b.insert(0, x.clone());
                    push(env, b, out);
                }
            }
        }
    }
}

/// All single edits of a term, at every position.
fn term_edits(env: &mut Env, t: &T, cx: &Cx, out: &mut Vec<T>) {
    root_edits(env, t, cx, out);
    let ch = children(t);
    for i in 0..ch.len() {
        if matches!(ch[i].as_ref(), Term::Sort(_)) {
            continue;
        }
        let mut inner = Vec::new();
        term_edits(env, &ch[i], cx, &mut inner);
        for n in inner {
            if n == ch[i] {
                continue;
            }
            let mut c = ch.clone();
            c[i] = n;
            // the sort check needs the rebuilt node; build it untracked first
            let probe = probe_node(t, &c);
            if let Some(p) = probe {
                if sort_of(&p, cx.o.subtyping).is_ok() {
                    out.push(with_children(env, t, c));
                }
            }
        }
    }
}

fn probe_node(t: &Term, ch: &[T]) -> Option<Term> {
    Some(match t {
        Term::App(_, _) => Term::App(ch[0].clone(), ch[1..].to_vec()),
        Term::Op(o, _) => Term::Op(*o, ch.to_vec()),
        Term::Binder(b, bl, _) => Term::Binder(*b, bl.clone(), ch[0].clone()),
        Term::Let(bl, _) => Term::Let(
            BindingList(bl.iter().zip(ch).map(|((n, _), v)| (n.clone(), v.clone())).collect()),
            ch.last().unwrap().clone(),
        ),
        Term::ParamOp { op, op_args, .. } => Term::ParamOp {
            op: *op,
            op_args: ch[..op_args.len()].to_vec(),
            args: ch[op_args.len()..].to_vec(),
        },
        _ => return None,
    })
}

pub fn neighbors(env: &mut Env, s: &Spec, alpha: &Alphabet, o: EditOpts) -> Vec<Spec> {
    let mut subs_v = Vec::new();
    let mut seen = HashSet::new();
    for p in &s.premises {
        for t in p {
            collect_sub(t, &mut subs_v, &mut seen);
        }
    }
    for t in s.clause.iter().chain(&s.args) {
        collect_sub(t, &mut subs_v, &mut seen);
    }
    let mut subs: BTreeMap<Srt, Vec<T>> = BTreeMap::new();
    for t in subs_v {
        if let Ok(so) = sort_of(&t, true) {
            subs.entry(so).or_default().push(t);
        }
    }
    for l in subs.values_mut() {
        // prefer small terms
        l.sort_by_key(|t| show(t).len());
    }
    let cx = Cx { alpha, subs, o };
    let mut out: Vec<Spec> = Vec::new();
    let bools: Vec<T> = cx
        .subs
        .get(&Srt::Bool)
        .into_iter()
        .chain(alpha.by_sort.get(&Srt::Bool))
        .flatten()
        .cloned()
        .collect();
    // clause list and literals
    clause_edits(env, &s.clause, &cx, &bools, &mut |c| out.push(Spec { clause: c, ..s.clone() }));
    for i in 0..s.premises.len() {
        let base = s.premises[i].clone();
        clause_edits(env, &base, &cx, &bools, &mut |c| {
            let mut n = s.clone();
            n.premises[i] = c;
            out.push(n);
        });
        let mut n = s.clone();
        n.premises.remove(i);
        out.push(n);
        let mut n = s.clone();
        n.premises.insert(i, s.premises[i].clone());
        out.push(n);
        for j in 0..i {
            let mut n = s.clone();
            n.premises.swap(i, j);
            out.push(n);
        }
    }
    for b in bools.iter().take(6) {
        let mut n = s.clone();
        n.premises.push(vec![b.clone()]);
        out.push(n);
    }
    // args
    for i in 0..s.args.len() {
        let mut v = Vec::new();
        let a = s.args[i].clone();
        term_edits(env, &a, &cx, &mut v);
        for t in v {
            let mut n = s.clone();
            n.args[i] = t;
            out.push(n);
        }
        let mut n = s.clone();
        n.args.remove(i);
        out.push(n);
        let mut n = s.clone();
        n.args.insert(i, s.args[i].clone());
        out.push(n);
        for j in 0..i {
            let mut n = s.clone();
            n.args.swap(i, j);
            out.push(n);
        }
    }
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(hash_of(s));
    out.retain(|x| seen.insert(hash_of(x)));
    out
}

fn clause_edits(env: &mut Env, c: &[T], cx: &Cx, bools: &[T], f: &mut dyn FnMut(Vec<T>)) {
    for i in 0..c.len() {
        let mut v = Vec::new();
        term_edits(env, &c[i], cx, &mut v);
        for t in v {
            if sort_of(&t, true) == Ok(Srt::Bool) {
                let mut n = c.to_vec();
                n[i] = t;
                f(n);
            }
        }
        let mut n = c.to_vec();
        n.remove(i);
        f(n);
        let mut n = c.to_vec();
        n.insert(i, c[i].clone());
        f(n);
        for j in 0..i {
            let mut n = c.to_vec();
            n.swap(i, j);
            f(n);
        }
    }
    for b in bools.iter().take(8) {
        let mut n = c.to_vec();
        n.push(b.clone());
        f(n);
    }
    if let Some(b) = bools.first() {
        let mut n = c.to_vec();
        n.insert(0, b.clone());
        f(n);
    }
}
