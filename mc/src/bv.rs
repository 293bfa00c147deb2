//! C05: bit-blasting rules. For every operator, width and operand shape, the circuit the checker
//! accepts is evaluated bit-parallel on every operand value (or, beyond a width limit, on an
//! enumerated set of boundary values) and compared with the operation itself.
use crate::core::*;
use crate::rules::*;
use crate::sem::*;
use carcara::ast::*;
use carcara::checker::error::{CheckerError, EqualityError};
use carcara::checker::Config;
use rug::Integer;
use std::collections::HashMap;

pub struct B<'e> {
    pub env: &'e mut Env,
}

impl B<'_> {
    fn op(&mut self, o: Operator, a: Vec<T>) -> T {
        self.env.pool.add(Term::Op(o, a))
    }
    fn and(&mut self, a: &T, b: &T) -> T {
        self.op(Operator::And, vec![a.clone(), b.clone()])
    }
    fn or(&mut self, a: &T, b: &T) -> T {
        self.op(Operator::Or, vec![a.clone(), b.clone()])
    }
    fn xor(&mut self, a: &T, b: &T) -> T {
        self.op(Operator::Xor, vec![a.clone(), b.clone()])
    }
    fn iff(&mut self, a: &T, b: &T) -> T {
        self.op(Operator::Equals, vec![a.clone(), b.clone()])
    }
    fn not(&mut self, a: &T) -> T {
        self.op(Operator::Not, vec![a.clone()])
    }
    fn bits(&mut self, t: &T, w: usize) -> Vec<T> {
        if let Term::Op(Operator::BvBbTerm, a) = t.as_ref() {
            return a.clone();
        }
        (0..w)
            .map(|i| {
                let i = self.env.pool.add(Term::new_int(i));
                self.env.pool.add(Term::ParamOp { op: ParamOperator::BvBitOf, op_args: vec![i], args: vec![t.clone()] })
            })
            .collect()
    }
    fn bb(&mut self, v: Vec<T>) -> T {
        self.op(Operator::BvBbTerm, v)
    }
    fn param(&mut self, op: ParamOperator, is: &[usize], t: &T) -> T {
        let op_args = is.iter().map(|&i| self.env.pool.add(Term::new_int(i))).collect();
        self.env.pool.add(Term::ParamOp { op, op_args, args: vec![t.clone()] })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Const,
    Var,
    And,
    Or,
    Xor,
    Xnor,
    Not,
    Comp,
    Ult,
    Slt,
    Add,
    Mult,
    Neg,
    Equal,
    Extract(usize, usize),
    Concat,
    SignExtend(usize),
}
use Rule::*;

impl Rule {
    pub fn name(&self) -> &'static str {
        match self {
            Const => "bitblast_const",
            Var => "bitblast_var",
            And => "bitblast_and",
            Or => "bitblast_or",
            Xor => "bitblast_xor",
            Xnor => "bitblast_xnor",
            Not => "bitblast_not",
            Comp => "bitblast_comp",
            Ult => "bitblast_ult",
            Slt => "bitblast_slt",
            Add => "bitblast_add",
            Mult => "bitblast_mult",
            Neg => "bitblast_neg",
            Equal => "bitblast_equal",
            Extract(..) => "bitblast_extract",
            Concat => "bitblast_concat",
            SignExtend(_) => "bitblast_sign_extend",
        }
    }
    /// The left-hand side of the rule.
    fn lhs(&self, b: &mut B, xs: &[T]) -> T {
        let o = match self {
            Const | Var => return xs[0].clone(),
            Extract(i, j) => return b.param(ParamOperator::BvExtract, &[*i, *j], &xs[0]),
            SignExtend(n) => return b.param(ParamOperator::SignExtend, &[*n], &xs[0]),
            And => Operator::BvAnd,
            Or => Operator::BvOr,
            Xor => Operator::BvXor,
            Xnor => Operator::BvXNor,
            Not => Operator::BvNot,
            Comp => Operator::BvComp,
            Ult => Operator::BvULt,
            Slt => Operator::BvSLt,
            Add => Operator::BvAdd,
            Mult => Operator::BvMul,
            Neg => Operator::BvNeg,
            Equal => Operator::Equals,
            Concat => Operator::BvConcat,
        };
        b.op(o, xs.to_vec())
    }
    /// The value of the left-hand side (SMT-LIB semantics), as bits; one bit for predicates.
    fn value(&self, vs: &[u128], ws: &[usize]) -> u128 {
        let w = ws[0];
        let m = mask(w);
        match self {
            Const | Var => vs[0],
            And => vs.iter().fold(m, |a, b| a & b),
            Or => vs.iter().fold(0, |a, b| a | b),
            Xor => vs.iter().fold(0, |a, b| a ^ b),
            Xnor => !(vs[0] ^ vs[1]) & m,
            Not => !vs[0] & m,
            Comp | Equal => (vs[0] == vs[1]) as u128,
            Ult => (vs[0] < vs[1]) as u128,
            Slt => (sgn(vs[0], w) < sgn(vs[1], w)) as u128,
            Add => vs.iter().fold(0u128, |a, b| a.wrapping_add(*b) & m),
            Mult => vs.iter().fold(1u128, |a, b| a.wrapping_mul(*b) & m),
            Neg => vs[0].wrapping_neg() & m,
            Extract(i, j) => (vs[0] >> j) & mask(i - j + 1),
            Concat => {
                let mut r = 0u128;
                for (v, w) in vs.iter().zip(ws) {
                    r = (r << w) | v;
                }
                r
            }
            SignExtend(n) => (sgn(vs[0], w) as u128) & mask(w + n),
        }
    }
    fn out_width(&self, ws: &[usize]) -> usize {
        match self {
            Comp | Equal | Ult | Slt => 1,
            Extract(i, j) => i - j + 1,
            Concat => ws.iter().sum(),
            SignExtend(n) => ws[0] + n,
            _ => ws[0],
        }
    }
    /// The circuit the Alethe specification gives for this operation.
    fn reference(&self, b: &mut B, xs: &[T], ws: &[usize]) -> T {
        let w = ws[0];
        let x0 = b.bits(&xs[0], w);
        let fals = b.env.bool(false);
        let tru = b.env.bool(true);
        match self {
            Const => {
                let (v, n) = xs[0].as_bitvector().unwrap();
                let r = (0..n).map(|i| if v.get_bit(i as u32) { tru.clone() } else { fals.clone() }).collect();
                b.bb(r)
            }
            Var => b.bb(x0),
            And | Or | Xor => {
                let mut acc = x0;
                for x in &xs[1..] {
                    let y = b.bits(x, w);
                    acc = acc
                        .iter()
                        .zip(&y)
                        .map(|(p, q)| match self {
                            And => b.and(p, q),
                            Or => b.or(p, q),
                            _ => b.xor(p, q),
                        })
                        .collect();
                }
                b.bb(acc)
            }
            Xnor => {
                let y = b.bits(&xs[1], w);
                let r = x0.iter().zip(&y).map(|(p, q)| b.iff(p, q)).collect();
                b.bb(r)
            }
            Not => {
                let r = x0.iter().map(|p| b.not(p)).collect();
                b.bb(r)
            }
            Equal | Comp => {
                let y = b.bits(&xs[1], w);
                let r: Vec<T> = x0.iter().zip(&y).map(|(p, q)| b.iff(p, q)).collect();
                let r = if r.len() == 1 { r[0].clone() } else { b.op(Operator::And, r) };
                if *self == Comp {
                    b.bb(vec![r])
                } else {
                    r
                }
            }
            Ult | Slt => {
                let y = b.bits(&xs[1], w);
                let mut acc: Option<T> = None;
                for i in 0..w {
                    let (lo, hi) = if *self == Slt && i == w - 1 { (&y[i], &x0[i]) } else { (&x0[i], &y[i]) };
                    let nl = b.not(lo);
                    // the specification writes the negated literal of the top bit second
                    let here =
                        if *self == Slt && i == w - 1 { b.and(hi, &nl) } else { b.and(&nl, hi) };
                    acc = Some(match acc {
                        None => here,
                        Some(a) => {
                            let e = b.iff(&x0[i], &y[i]);
                            let l = b.and(&e, &a);
                            b.or(&l, &here)
                        }
                    });
                }
                acc.unwrap()
            }
            Add => {
                let mut acc = x0;
                for x in &xs[1..] {
                    let y = b.bits(x, w);
                    let mut c = fals.clone();
                    let mut r = Vec::new();
                    for i in 0..w {
                        let s = b.xor(&acc[i], &y[i]);
                        r.push(b.xor(&s, &c));
                        let g = b.and(&acc[i], &y[i]);
                        let pr = b.and(&s, &c);
                        c = b.or(&g, &pr);
                    }
                    acc = r;
                }
                b.bb(acc)
            }
            Neg => {
                let mut c = tru.clone();
                let mut r = Vec::new();
                for x in &x0 {
                    let n = b.not(x);
                    let s = b.xor(&n, &fals);
                    r.push(b.xor(&s, &c));
                    let g = b.and(&n, &fals);
                    let pr = b.and(&s, &c);
                    c = b.or(&g, &pr);
                }
                b.bb(r)
            }
            Mult => {
                let mut acc = x0;
                for x in &xs[1..] {
                    let y = b.bits(x, w);
                    // rows of the shift-add scheme
                    let mut res: Vec<T> = acc.iter().map(|p| b.and(&y[0], p)).collect();
                    for j in 1..w {
                        let mut c = fals.clone();
                        let prev = res.clone();
                        for i in j..w {
                            let sh = b.and(&y[j], &acc[i - j]);
                            let s = b.xor(&prev[i], &sh);
                            res[i] = b.xor(&s, &c);
                            let g = b.and(&prev[i], &sh);
                            let pr = b.and(&s, &c);
                            c = b.or(&g, &pr);
                        }
                    }
                    acc = res;
                }
                b.bb(acc)
            }
            Extract(i, j) => {
                let r = x0[*j..=*i].to_vec();
                b.bb(r)
            }
            Concat => {
                let mut r = Vec::new();
                for (x, w) in xs.iter().zip(ws).rev() {
                    r.extend(b.bits(x, *w));
                }
                b.bb(r)
            }
            SignExtend(0) => xs[0].clone(),
            SignExtend(n) => {
                let mut r = x0.clone();
                for _ in 0..*n {
                    r.push(x0[w - 1].clone());
                }
                b.bb(r)
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Bit-parallel evaluation

type Lane = Vec<u64>;
#[derive(Clone)]
enum L {
    B(Lane),
    V(Vec<Lane>),
}

struct Lanes {
    n: usize, // words
    vars: HashMap<String, L>,
    memo: HashMap<T, Option<L>>,
}

impl Lanes {
    fn cst(&self, b: bool) -> Lane {
        vec![if b { !0 } else { 0 }; self.n]
    }
    fn ev(&mut self, t: &T) -> Option<L> {
        if let Some(r) = self.memo.get(t) {
            return r.clone();
        }
        let r = self.ev2(t);
        self.memo.insert(t.clone(), r.clone());
        r
    }
    fn b(&mut self, t: &T) -> Option<Lane> {
        match self.ev(t)? {
            L::B(l) => Some(l),
            _ => None,
        }
    }
    fn ev2(&mut self, t: &T) -> Option<L> {
        let n = self.n;
        Some(match t.as_ref() {
            Term::Var(name, _) => self.vars.get(name)?.clone(),
            Term::Const(Constant::BitVec(v, w)) => {
                L::V((0..*w).map(|i| self.cst(v.get_bit(i as u32))).collect())
            }
            Term::ParamOp { op: ParamOperator::BvBitOf, op_args, args } => {
                let i = op_args[0].as_integer()?.to_usize()?;
                match self.ev(&args[0])? {
                    L::V(v) => L::B(v.get(i)?.clone()),
                    _ => return None,
                }
            }
            Term::Op(o, a) => match o {
                Operator::True => L::B(self.cst(true)),
                Operator::False => L::B(self.cst(false)),
                Operator::BvBbTerm => {
                    L::V(a.iter().map(|x| self.b(x)).collect::<Option<Vec<_>>>()?)
                }
                Operator::Not => {
                    let x = self.b(&a[0])?;
                    L::B(x.iter().map(|w| !w).collect())
                }
                Operator::And | Operator::Or | Operator::Xor => {
                    let mut acc = self.b(&a[0])?;
                    for x in &a[1..] {
                        let y = self.b(x)?;
                        for i in 0..n {
                            match o {
                                Operator::And => acc[i] &= y[i],
                                Operator::Or => acc[i] |= y[i],
                                _ => acc[i] ^= y[i],
                            }
                        }
                    }
                    L::B(acc)
                }
                Operator::Implies if a.len() == 2 => {
                    let (x, y) = (self.b(&a[0])?, self.b(&a[1])?);
                    L::B((0..n).map(|i| !x[i] | y[i]).collect())
                }
                Operator::Ite => {
                    let (c, x, y) = (self.b(&a[0])?, self.b(&a[1])?, self.b(&a[2])?);
                    L::B((0..n).map(|i| c[i] & x[i] | !c[i] & y[i]).collect())
                }
                Operator::Equals if a.len() == 2 => {
                    let (x, y) = (self.ev(&a[0])?, self.ev(&a[1])?);
                    match (x, y) {
                        (L::B(x), L::B(y)) => L::B((0..n).map(|i| !(x[i] ^ y[i])).collect()),
                        (L::V(x), L::V(y)) if x.len() == y.len() => {
                            let mut acc = self.cst(true);
                            for (p, q) in x.iter().zip(&y) {
                                for i in 0..n {
                                    acc[i] &= !(p[i] ^ q[i]);
                                }
                            }
                            L::B(acc)
                        }
                        _ => return None,
                    }
                }
                _ => return None,
            },
            _ => return None,
        })
    }
}

/// Operand descriptions: the numeric operand as a function of the enumerated values.
#[derive(Clone, Debug)]
enum Shape {
    Var,         // a bit-vector variable
    Bits,        // @bbterm of Boolean variables
    NegBits,     // @bbterm of negated Boolean variables in reversed roles
    ConstV(u128),
    ConstBits(u128),
    Same(usize), // the same term as operand k
}

fn boundary(w: usize) -> Vec<u128> {
    let m = mask(w);
    let mut v = vec![0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1).wrapping_sub(1) & m, 0x5555_5555_5555_5555_5555_5555_5555_5555 & m, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa & m,
        0x1234_5678_9abc_def0_0fed_cba9_8765_4321 & m];
    for k in 0..w {
        v.push(1u128 << k);
        v.push(m ^ (1u128 << k));
        v.push((1u128 << k) - 1);
    }
    v.iter_mut().for_each(|x| *x &= m);
    v.sort();
    v.dedup();
    v
}

/// The term the checker says it would have accepted, if the error names it.
pub fn feedback(r: &CheckRes) -> Vec<(T, T)> {
    let mut out = Vec::new();
    if let CheckRes::Err(carcara::Error::Checker { inner, .. }) = r {
        if let CheckerError::TermEquality(e) = inner.as_ref_err() {
            match e {
                EqualityError::ExpectedEqual(a, b) => {
                    out.push((a.clone(), b.clone()));
                    out.push((b.clone(), a.clone()));
                }
                EqualityError::ExpectedToBe { expected, got } => out.push((expected.clone(), got.clone())),
            }
        }
    }
    out
}

trait AsErr {
    fn as_ref_err(&self) -> &CheckerError;
}
impl AsErr for CheckerError {
    fn as_ref_err(&self) -> &CheckerError {
        self
    }
}
impl AsErr for Box<CheckerError> {
    fn as_ref_err(&self) -> &CheckerError {
        self
    }
}

struct Case {
    rule: Rule,
    ws: Vec<usize>,
    shapes: Vec<Shape>,
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut out = Vec::new();
    let small: usize = if thorough { 8 } else { 7 };
    let mut widths: Vec<usize> = (1..=small).collect();
    if thorough {
        widths.extend(9..=33);
        widths.extend([40, 63, 64, 65, 100]);
    } else {
        widths.extend([8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65]);
    }
    for &w in &widths {
        let big = w > small;
        let one: Vec<Vec<Shape>> = {
            let mut v = vec![vec![Shape::Var], vec![Shape::Bits], vec![Shape::NegBits]];
            let cs: Vec<u128> = if w <= 4 { (0..=mask(w)).collect() } else { boundary(w).into_iter().step_by(if big { 7 } else { 3 }).collect() };
            for c in cs {
                v.push(vec![Shape::ConstV(c)]);
                v.push(vec![Shape::ConstBits(c)]);
            }
            v
        };
        let mut two: Vec<Vec<Shape>> = Vec::new();
        let base = [Shape::Var, Shape::Bits, Shape::NegBits];
        for a in &base {
            for b in &base {
                two.push(vec![a.clone(), b.clone()]);
            }
            two.push(vec![a.clone(), Shape::Same(0)]);
            for c in [0, 1, mask(w), mask(w) >> 1, 1u128 << (w - 1)] {
                two.push(vec![a.clone(), Shape::ConstV(c)]);
                two.push(vec![Shape::ConstBits(c), a.clone()]);
            }
        }
        for k in one.iter() {
            for r in [Not, Neg] {
                out.push(Case { rule: r, ws: vec![w], shapes: k.clone() });
            }
            match k[0] {
                Shape::ConstV(_) => out.push(Case { rule: Const, ws: vec![w], shapes: k.clone() }),
                _ => {}
            }
            out.push(Case { rule: Var, ws: vec![w], shapes: k.clone() });
            let ns: Vec<usize> = if w <= 6 { (0..=5).collect() } else { vec![0, 1, 7, 8, 31, 32] };
            for n in ns {
                if w + n <= 128 {
                    out.push(Case { rule: SignExtend(n), ws: vec![w], shapes: k.clone() });
                }
            }
            let idx: Vec<(usize, usize)> = if w <= 6 {
                (0..w).flat_map(|j| (j..w).map(move |i| (i, j))).collect()
            } else {
                vec![(w - 1, 0), (w - 1, w - 1), (0, 0), (w - 2, 1), (w / 2, w / 2), (w / 2, 0), (w - 1, w / 2)]
            };
            for (i, j) in idx {
                out.push(Case { rule: Extract(i, j), ws: vec![w], shapes: k.clone() });
            }
        }
        for k in &two {
            for r in [And, Or, Xor, Xnor, Comp, Ult, Slt, Add, Equal] {
                out.push(Case { rule: r, ws: vec![w, w], shapes: k.clone() });
            }
            if w <= if thorough { 10 } else { 9 } {
                out.push(Case { rule: Mult, ws: vec![w, w], shapes: k.clone() });
            }
        }
        // more operands
        let three: Vec<Vec<Shape>> = {
            use Shape::{Bits, Var};
            let mut v = vec![];
            for a in [Var, Bits] {
                for b in [Var, Bits] {
                    for c in [Var, Bits, Shape::Same(0), Shape::Same(1)] {
                        v.push(vec![a.clone(), b.clone(), c]);
                    }
                }
            }
            v.push(vec![Shape::Var, Shape::ConstV(1), Shape::Var]);
            v.push(vec![Shape::ConstV(mask(w)), Shape::Bits, Shape::Var]);
            if w <= 4 {
                v.push(vec![Shape::Var; 4]);
                v.push(vec![Shape::Bits, Shape::Var, Shape::Bits, Shape::Var]);
            }
            if w <= 3 {
                v.push(vec![Shape::Var; 5]);
            }
            v
        };
        for k in &three {
            for r in [And, Or, Xor, Add] {
                out.push(Case { rule: r, ws: vec![w; k.len()], shapes: k.clone() });
            }
            if w <= 5 {
                out.push(Case { rule: Mult, ws: vec![w; k.len()], shapes: k.clone() });
            }
        }
    }
    // concatenations of different widths
    let m = if thorough { 5 } else { 4 };
    for a in 1..=m {
        for b in 1..=m {
            for sa in [Shape::Var, Shape::Bits, Shape::ConstV(1)] {
                for sb in [Shape::Var, Shape::Bits, Shape::ConstBits(1)] {
                    out.push(Case { rule: Concat, ws: vec![a, b], shapes: vec![sa.clone(), sb.clone()] });
                    for c in 1..=3 {
                        for sc in [Shape::Var, Shape::Bits] {
                            out.push(Case { rule: Concat, ws: vec![a, b, c], shapes: vec![sa.clone(), sb.clone(), sc] });
                        }
                    }
                }
            }
        }
    }
    for ws in [vec![1, 1, 1, 1], vec![2, 3, 1, 4], vec![4, 1, 3, 2, 2], vec![16, 16], vec![32, 1], vec![1, 32, 31], vec![64, 64]] {
        for s in [Shape::Var, Shape::Bits] {
            out.push(Case { rule: Concat, shapes: vec![s; ws.len()], ws: ws.clone() });
        }
    }
    out
}

fn operand(b: &mut B, k: usize, w: usize, s: &Shape, done: &[T]) -> T {
    match s {
        Shape::Var => {
            let so = b.env.sort(Sort::BitVec(w));
            b.env.pool.add(Term::Var(format!("x{k}"), so))
        }
        Shape::Bits | Shape::NegBits => {
            let so = b.env.sort(Sort::Bool);
            let v = (0..w)
                .map(|i| {
                    let v = b.env.pool.add(Term::Var(format!("p{k}_{i}"), so.clone()));
                    if matches!(s, Shape::NegBits) {
                        b.not(&v)
                    } else {
                        v
                    }
                })
                .collect();
            b.bb(v)
        }
        Shape::ConstV(c) => b.env.pool.add(Term::new_bv(Integer::from(*c & mask(w)), w)),
        Shape::ConstBits(c) => {
            let v = (0..w).map(|i| b.env.bool(c >> i & 1 == 1)).collect();
            b.bb(v)
        }
        Shape::Same(j) => done[*j].clone(),
    }
}

/// Whether the circuit computes the operation; gives a counterexample otherwise. `None` if the
/// circuit contains something the evaluator does not know.
fn compare(case: &Case, circuit: &T, limit: usize) -> (Option<Result<(), String>>, u64) {
    // free operands
    let free: Vec<usize> =
        (0..case.ws.len()).filter(|&k| matches!(case.shapes[k], Shape::Var | Shape::Bits | Shape::NegBits)).collect();
    let total: usize = free.iter().map(|&k| case.ws[k]).sum();
    let mut assignments: Vec<Vec<u128>> = Vec::new();
    let sets: Vec<Vec<u128>> = if total <= limit {
        free.iter().map(|&k| (0..=mask(case.ws[k])).collect()).collect()
    } else {
        let per = match free.len() {
            1 => 4000,
            2 => 64,
            3 => 16,
            _ => 6,
        };
        free.iter()
            .map(|&k| {
                let b = boundary(case.ws[k]);
                let s = b.len().div_ceil(per);
                b.into_iter().step_by(s.max(1)).collect()
            })
            .collect()
    };
    let mut idx = vec![0usize; free.len()];
    'outer: loop {
        assignments.push((0..free.len()).map(|i| sets[i][idx[i]]).collect());
        let mut d = 0;
        loop {
            if d == free.len() {
                break 'outer;
            }
            idx[d] += 1;
            if idx[d] < sets[d].len() {
                break;
            }
            idx[d] = 0;
            d += 1;
        }
    }
    let mut count = 0;
    for chunk in assignments.chunks(4096) {
        let n = chunk.len().div_ceil(64);
        let mut ls = Lanes { n, vars: HashMap::new(), memo: HashMap::new() };
        for (fi, &k) in free.iter().enumerate() {
            let w = case.ws[k];
            let mut bits = vec![vec![0u64; n]; w];
            for (a, asg) in chunk.iter().enumerate() {
                for (i, b) in bits.iter_mut().enumerate() {
                    if asg[fi] >> i & 1 == 1 {
                        b[a / 64] |= 1 << (a % 64);
                    }
                }
            }
            match case.shapes[k] {
                Shape::Var => {
                    ls.vars.insert(format!("x{k}"), L::V(bits));
                }
                Shape::Bits => {
                    for (i, b) in bits.into_iter().enumerate() {
                        ls.vars.insert(format!("p{k}_{i}"), L::B(b));
                    }
                }
                _ => {
                    for (i, b) in bits.into_iter().enumerate() {
                        ls.vars.insert(format!("p{k}_{i}"), L::B(b.iter().map(|w| !w).collect()));
                    }
                }
            }
        }
        let Some(got) = ls.ev(circuit) else { return (None, count) };
        let outs = match got {
            L::B(l) => vec![l],
            L::V(v) => v,
        };
        let ow = case.rule.out_width(&case.ws);
        for (a, asg) in chunk.iter().enumerate() {
            let mut vs = vec![0u128; case.ws.len()];
            for k in 0..case.ws.len() {
                vs[k] = match &case.shapes[k] {
                    Shape::ConstV(c) | Shape::ConstBits(c) => c & mask(case.ws[k]),
                    Shape::Same(j) => vs[*j],
                    _ => asg[free.iter().position(|f| *f == k).unwrap()],
                };
            }
            let want = case.rule.value(&vs, &case.ws);
            count += 1;
            if outs.len() != ow {
                return (Some(Err(format!("{} bits instead of {ow}", outs.len()))), count);
            }
            let mut have = 0u128;
            for (i, l) in outs.iter().enumerate() {
                if l[a / 64] >> (a % 64) & 1 == 1 {
                    have |= 1 << i;
                }
            }
            if have != want {
                return (Some(Err(format!("operands {vs:?}: the circuit gives {have}, the operation {want}"))), count);
            }
        }
    }
    (Some(Ok(())), count)
}

/// Structurally close variants of a result.
fn variants(b: &mut B, r: &T, rule: &Rule) -> Vec<T> {
    let mut out = Vec::new();
    let tru = b.env.bool(true);
    let fals = b.env.bool(false);
    if let Term::Op(Operator::BvBbTerm, bits) = r.as_ref() {
        let bits = bits.clone();
        let n = bits.len();
        for i in 0..n {
            let mut v = bits.clone();
            v[i] = b.not(&bits[i]);
            out.push(b.bb(v));
            for c in [&tru, &fals] {
                if *c != bits[i] {
                    let mut v = bits.clone();
                    v[i] = c.clone();
                    out.push(b.bb(v));
                }
            }
            if i + 1 < n {
                let mut v = bits.clone();
                v.swap(i, i + 1);
                out.push(b.bb(v));
                let mut v = bits.clone();
                v[i] = bits[i + 1].clone();
                out.push(b.bb(v));
            }
        }
        let mut v = bits.clone();
        v.reverse();
        out.push(b.bb(v));
        if n >= 2 {
            let mut v = bits.clone();
            v.rotate_left(1);
            out.push(b.bb(v));
            if matches!(rule, Rule::Const | Rule::Var) {
                out.push(b.bb(bits[1..].to_vec()));
                out.push(b.bb(bits[..n - 1].to_vec()));
            }
        }
    } else {
        out.push(b.not(r));
        out.push(tru);
        out.push(fals);
        if let Term::Op(o, a) = r.as_ref() {
            let (o, a) = (*o, a.clone());
            for i in 0..a.len() {
                let mut v = a.clone();
                v.remove(i);
                if v.len() >= 2 {
                    out.push(b.op(o, v));
                } else if v.len() == 1 {
                    out.push(v[0].clone());
                }
                let mut v = a.clone();
                if matches!(sort_of(&v[i], false), Ok(Srt::Bool)) {
                    v[i] = b.not(&a[i]);
                    out.push(b.op(o, v));
                }
            }
        }
    }
    out
}

fn describe(case: &Case) -> String {
    format!("{} widths {:?} operands {:?} {:?}", case.rule.name(), case.ws, case.shapes, case.rule)
}

pub fn run(rep: &Report, complete: bool, thorough: bool) {
    let limit = if thorough { 16 } else { 14 };
    let cs = cases(thorough);
    par(&cs, |case| {
        let mut env = Env::new("");
        let mut t = Tally::new();
        let mut b = B { env: &mut env };
        let mut xs: Vec<T> = Vec::new();
        for k in 0..case.ws.len() {
            let x = operand(&mut b, k, case.ws[k], &case.shapes[k], &xs);
            xs.push(x);
        }
        let lhs = case.rule.lhs(&mut b, &xs);
        let reference = case.rule.reference(&mut b, &xs, &case.ws);
        let big = case.ws.iter().sum::<usize>() > 24;
        let mk = |b: &mut B, r: &T| Spec {
            rule: case.rule.name().into(),
            premises: vec![],
            clause: vec![b.env.eq(&lhs, r)],
            args: vec![],
        };
        let cfg = Config::new();
        let s = mk(&mut b, &reference);
        t.inc("evaluations", 1);
        let res = check_spec_err(b.env, &s, &cfg);
        let accepted = matches!(res, CheckRes::Valid | CheckRes::Holey);
        // `bitblast_var` and `bitblast_const` only apply to some operands
        let applies = match case.rule {
            Var => matches!(case.shapes[0], Shape::Var | Shape::Bits | Shape::ConstV(_)),
            _ => true,
        };
        if complete {
            if !accepted && applies {
                rep.violation(&describe(case), &match &res {
                    CheckRes::Err(e) => format!("the circuit of the specification is rejected: {e}").chars().take(2000).collect(),
                    CheckRes::Panic(p) => format!("the circuit of the specification crashes the checker: {p}"),
                    _ => String::new(),
                });
            }
            t.inc("circuits_accepted", accepted as u64);
            t.distinct.insert(hash_of(&describe(case)));
            t.flush(rep);
            return;
        }
        let mut cands: Vec<T> = Vec::new();
        if accepted {
            cands.push(reference.clone());
        }
        // what would the checker have accepted? ask it by giving it something wrong
        let wrong: Vec<T> = variants(&mut b, &reference, &case.rule);
        let lim = if big { 3 } else { 40 };
        let mut seen = std::collections::HashSet::new();
        for w in wrong.into_iter().take(lim) {
            let s = mk(&mut b, &w);
            t.inc("evaluations", 1);
            let r = check_spec_err(b.env, &s, &cfg);
            if matches!(r, CheckRes::Valid | CheckRes::Holey) {
                cands.push(w);
                continue;
            }
            for (e, _) in feedback(&r) {
                // either a whole result, or one bit of it
                let cand = if sort_of(&e, false).ok() == sort_of(&reference, false).ok() { e } else { continue };
                if cand != reference && seen.insert(cand.clone()) {
                    let s = mk(&mut b, &cand);
                    t.inc("evaluations", 1);
                    if matches!(check_spec_err(b.env, &s, &cfg), CheckRes::Valid | CheckRes::Holey) {
                        cands.push(cand);
                    }
                }
            }
        }
        for e in feedback(&res) {
            let s = mk(&mut b, &e.0);
            if matches!(check_spec_err(b.env, &s, &cfg), CheckRes::Valid | CheckRes::Holey) {
                cands.push(e.0);
            }
        }
        t.inc("circuits_accepted", cands.len() as u64);
        for c in cands {
            let (r, n) = compare(case, &c, limit);
            t.inc("operand_values_evaluated", n);
            match r {
                Some(Ok(())) => {
                    t.distinct.insert(hash_of(&(describe(case), c == reference)));
                }
                Some(Err(e)) => {
                    let key = if big { describe(case) } else { format!("{} = {}", describe(case), show(&c)) };
                    rep.violation(&key.chars().take(600).collect::<String>(), &format!("the accepted circuit is wrong: {e}"));
                }
                None => t.inc("accepted_but_undecided", 1),
            }
        }
        if t.distinct.len() % 1000 == 0 {
            rep.sample(describe(case));
        }
        t.flush(rep);
    });
}

/// Canonical steps at width 2, for edit neighbourhoods.
pub fn family(thorough: bool) -> Family {
    let mut v = vec![];
    let mut e = |r: &str, s: &str| v.push(inst(r, &[], &[s], &[]));
    e("bitblast_var", "(= x (@bbterm ((_ @bit_of 0) x) ((_ @bit_of 1) x)))");
    e("bitblast_const", "(= #b01 (@bbterm true false))");
    e("bitblast_const", "(= #b110 (@bbterm false true true))");
    for (r, o, g) in [("and", "bvand", "and"), ("or", "bvor", "or"), ("xor", "bvxor", "xor"), ("xnor", "bvxnor", "=")] {
        e(&format!("bitblast_{r}"), &format!("(= ({o} x y) (@bbterm ({g} ((_ @bit_of 0) x) ((_ @bit_of 0) y)) ({g} ((_ @bit_of 1) x) ((_ @bit_of 1) y))))"));
        e(&format!("bitblast_{r}"), &format!("(= ({o} (@bbterm p q) (@bbterm q r)) (@bbterm ({g} p q) ({g} q r)))"));
    }
    e("bitblast_not", "(= (bvnot (@bbterm p q)) (@bbterm (not p) (not q)))");
    e("bitblast_comp", "(= (bvcomp (@bbterm p q) (@bbterm q r)) (@bbterm (and (= p q) (= q r))))");
    e("bitblast_equal", "(= (= (@bbterm p q) (@bbterm q r)) (and (= p q) (= q r)))");
    e("bitblast_equal", "(= (= (@bbterm p) (@bbterm q)) (= p q))");
    e("bitblast_ult", "(= (bvult (@bbterm p q) (@bbterm r p)) (or (and (= q p) (and (not p) r)) (and (not q) p)))");
    e("bitblast_slt", "(= (bvslt (@bbterm p q) (@bbterm r p)) (or (and (= q p) (and (not p) r)) (and q (not p))))");
    e("bitblast_slt", "(= (bvslt (@bbterm p) (@bbterm q)) (and p (not q)))");
    e("bitblast_add", "(= (bvadd (@bbterm p) (@bbterm q)) (@bbterm (xor (xor p q) false)))");
    e("bitblast_add", "(= (bvadd (@bbterm p q) (@bbterm r p)) (@bbterm (xor (xor p r) false) (xor (xor q p) (or (and p r) (and (xor p r) false)))))");
    e("bitblast_neg", "(= (bvneg (@bbterm p)) (@bbterm (xor (xor (not p) false) true)))");
    e("bitblast_mult", "(= (bvmul (@bbterm p) (@bbterm q)) (@bbterm (and q p)))");
    e("bitblast_extract", "(= ((_ extract 1 0) (@bbterm p q r)) (@bbterm p q))");
    e("bitblast_extract", "(= ((_ extract 1 1) x) (@bbterm ((_ @bit_of 1) x)))");
    e("bitblast_concat", "(= (concat (@bbterm p q) (@bbterm r)) (@bbterm r p q))");
    e("bitblast_concat", "(= (concat x (@bbterm r)) (@bbterm r ((_ @bit_of 0) x) ((_ @bit_of 1) x)))");
    e("bitblast_sign_extend", "(= ((_ sign_extend 1) (@bbterm p q)) (@bbterm p q q))");
    e("bitblast_sign_extend", "(= ((_ sign_extend 0) x) x)");
    e("bitblast_sign_extend", "(= ((_ sign_extend 2) x) (@bbterm ((_ @bit_of 0) x) ((_ @bit_of 1) x) ((_ @bit_of 1) x) ((_ @bit_of 1) x)))");
    Family {
        name: "bitvectors",
        decls: "(declare-const x (_ BitVec 2))(declare-const y (_ BitVec 2))(declare-const z (_ BitVec 1))(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)".into(),
        fresh: vec!["x", "y", "z", "p", "q", "r", "#b0", "#b10", "true", "false", "0", "1", "2"],
        insts: v,
        doms: vec![Doms { u: 1, int: vec![-1, 0, 1, 2], real: vec![Q(0, 1), Q(1, 1)], ..Doms::std() }],
        cap: 3000,
        opts: crate::mutate::EditOpts { max_repl: if thorough { 20 } else { 10 }, ..Default::default() },
        cfg: Config::new(),
        depth2: if thorough { 300 } else { 120 },
    }
}
