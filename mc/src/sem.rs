//! Independent reference semantics for Alethe/SMT-LIB terms: sorts, values, evaluation in finite
//! interpretations, and exhaustive falsification of sequents. Shares no code with carcara beyond
//! the term data type.
use carcara::ast::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type T = Rc<Term>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Srt {
    Bool,
    Int,
    Real,
    Str,
    Re,
    BV(usize),
    U(String),
    Fun(Vec<Srt>),
    Arr(Box<Srt>, Box<Srt>),
    Ty,
    RareList,
    Other(String),
}

pub fn srt(s: &Term) -> Srt {
    match s {
        Term::Sort(s) => match s {
            Sort::Bool => Srt::Bool,
            Sort::Int => Srt::Int,
            Sort::Real => Srt::Real,
            Sort::String => Srt::Str,
            Sort::RegLan => Srt::Re,
            Sort::BitVec(w) => Srt::BV(*w),
            Sort::Atom(n, args) => {
                if args.is_empty() {
                    Srt::U(n.to_string())
                } else {
                    Srt::U(format!("{}{:?}", n, args.iter().map(|a| srt(a)).collect::<Vec<_>>()))
                }
            }
            Sort::Function(v) => Srt::Fun(v.iter().map(|x| srt(x)).collect()),
            Sort::Array(a, b) => Srt::Arr(Box::new(srt(a)), Box::new(srt(b))),
            Sort::Type => Srt::Ty,
            Sort::RareList => Srt::RareList,
            Sort::Var(v) => Srt::Other(format!("var {v}")),
            Sort::ParamSort(v, b) => Srt::Other(format!(
                "par {:?} {:?}",
                v.iter().map(|x| show(x)).collect::<Vec<_>>(),
                show(b)
            )),
        },
        _ => Srt::Other("not a sort".into()),
    }
}

/// Computes the sort of a term from scratch. `Err` if the term is ill-sorted. `sub` allows mixing
/// Int and Real arguments in arithmetic operators.
pub fn sort_of(t: &Term, sub: bool) -> Result<Srt, String> {
    use Operator as O;
    let bad = || -> Result<Srt, String> { Err(format!("ill-sorted: {}", show(t))) };
    Ok(match t {
        Term::Const(c) => match c {
            Constant::Integer(_) => Srt::Int,
            Constant::Real(_) => Srt::Real,
            Constant::String(_) => Srt::Str,
            Constant::BitVec(_, w) => Srt::BV(*w),
        },
        Term::Var(_, s) => srt(s),
        Term::Sort(_) => Srt::Ty,
        Term::App(f, args) => {
            let Srt::Fun(fs) = sort_of(f, sub)? else { return bad() };
            if fs.len() != args.len() + 1 {
                return bad();
            }
            for (a, s) in args.iter().zip(&fs) {
                if sort_of(a, sub)? != *s {
                    return bad();
                }
            }
            fs.last().unwrap().clone()
        }
        Term::Binder(b, bl, body) => {
            if bl.is_empty() {
                return bad();
            }
            let s = sort_of(body, sub)?;
            match b {
                Binder::Forall | Binder::Exists => {
                    if s != Srt::Bool {
                        return bad();
                    }
                    Srt::Bool
                }
                Binder::Choice => {
                    if s != Srt::Bool || bl.len() != 1 {
                        return bad();
                    }
                    srt(&bl[0].1)
                }
                Binder::Lambda => {
                    let mut v: Vec<_> = bl.iter().map(|x| srt(&x.1)).collect();
                    v.push(s);
                    Srt::Fun(v)
                }
            }
        }
        Term::Let(bl, body) => {
            for (_, v) in bl.iter() {
                sort_of(v, sub)?;
            }
            sort_of(body, sub)?
        }
        Term::ParamOp { op, op_args, args } => {
            let ss: Vec<Srt> = args.iter().map(|a| sort_of(a, sub)).collect::<Result<_, _>>()?;
            use ParamOperator as P;
            let n = |i: usize| -> Result<i64, String> {
                match op_args.get(i).map(|x| x.as_ref()) {
                    Some(Term::Const(Constant::Integer(k))) => {
                        if matches!(op, P::RotateLeft | P::RotateRight | P::RePower | P::ReLoop) {
                            return Ok(k.to_i64().unwrap_or(if *k < 0 { -1 } else { i64::MAX }));
                        }
                        k.to_i64().ok_or_else(|| "big index".to_string())
                    }
                    _ => Err("bad index".into()),
                }
            };
            match (op, ss.as_slice()) {
                (P::BvExtract, [Srt::BV(w)]) => {
                    let (i, j) = (n(0)?, n(1)?);
                    if op_args.len() != 2 || j < 0 || i < j || i >= *w as i64 {
                        return bad();
                    }
                    Srt::BV((i - j + 1) as usize)
                }
                (P::BvBitOf, [Srt::BV(w)]) => {
                    if op_args.len() != 1 || n(0)? < 0 || n(0)? >= *w as i64 {
                        return bad();
                    }
                    Srt::Bool
                }
                (P::BvIntOf, [Srt::BV(w)]) => {
                    if op_args.len() != 1 || n(0)? < 0 || n(0)? >= *w as i64 {
                        return bad();
                    }
                    Srt::Int
                }
                (P::ZeroExtend | P::SignExtend, [Srt::BV(w)]) => {
                    if op_args.len() != 1 || n(0)? < 0 {
                        return bad();
                    }
                    Srt::BV(w + n(0)? as usize)
                }
                (P::RotateLeft | P::RotateRight, [Srt::BV(w)]) => {
                    if op_args.len() != 1 || n(0)? < 0 {
                        return bad();
                    }
                    Srt::BV(*w)
                }
                (P::Repeat, [Srt::BV(w)]) => {
                    if op_args.len() != 1 || n(0)? < 1 {
                        return bad();
                    }
                    Srt::BV(w * n(0)? as usize)
                }
                (P::IntToBv, [Srt::Int]) => {
                    if op_args.len() != 1 || n(0)? < 1 {
                        return bad();
                    }
                    Srt::BV(n(0)? as usize)
                }
                (P::RePower, [Srt::Re]) => {
                    if op_args.len() != 1 || n(0)? < 0 {
                        return bad();
                    }
                    Srt::Re
                }
                (P::ReLoop, [Srt::Re]) => {
                    if op_args.len() != 2 || n(0)? < 0 || n(1)? < 0 {
                        return bad();
                    }
                    Srt::Re
                }
                (P::ArrayConst, [v]) => {
                    let s = srt(&op_args[0]);
                    match &s {
                        Srt::Arr(_, b) if **b == *v => s,
                        _ => return bad(),
                    }
                }
                _ => return bad(),
            }
        }
        Term::Op(op, args) => {
            let ss: Vec<Srt> = args.iter().map(|a| sort_of(a, sub)).collect::<Result<_, _>>()?;
            let n = ss.len();
            let all = |s: &Srt| ss.iter().all(|x| x == s);
            let num = |s: &Srt| *s == Srt::Int || *s == Srt::Real;
            match op {
                O::True | O::False => {
                    if n != 0 {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Not => {
                    if n != 1 || !all(&Srt::Bool) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Implies => {
                    if n < 2 || !all(&Srt::Bool) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::And | O::Or | O::Xor => {
                    if n < 1 || !all(&Srt::Bool) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Equals | O::Distinct => {
                    if n < 2 || !all(&ss[0]) || matches!(ss[0], Srt::Ty | Srt::RareList) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Ite => {
                    if n != 3 || ss[0] != Srt::Bool || ss[1] != ss[2] {
                        return bad();
                    }
                    ss[1].clone()
                }
                O::Add | O::Sub | O::Mult => {
                    if n < 1 || (n < 2 && *op != O::Sub) || !ss.iter().all(num) {
                        return bad();
                    }
                    if !all(&ss[0]) {
                        if !sub {
                            return bad();
                        }
                        Srt::Real
                    } else {
                        ss[0].clone()
                    }
                }
                O::IntDiv => {
                    if n < 2 || !all(&Srt::Int) {
                        return bad();
                    }
                    Srt::Int
                }
                O::Mod => {
                    if n != 2 || !all(&Srt::Int) {
                        return bad();
                    }
                    Srt::Int
                }
                O::RealDiv => {
                    if n < 2 || !(all(&Srt::Real) || (sub && ss.iter().all(num))) {
                        return bad();
                    }
                    Srt::Real
                }
                O::Abs => {
                    if n != 1 || !(ss[0] == Srt::Int || (sub && num(&ss[0]))) {
                        return bad();
                    }
                    ss[0].clone()
                }
                O::LessThan | O::GreaterThan | O::LessEq | O::GreaterEq => {
                    if n < 2 || !ss.iter().all(num) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::ToReal => {
                    if n != 1 || ss[0] != Srt::Int {
                        return bad();
                    }
                    Srt::Real
                }
                O::ToInt => {
                    if n != 1 || ss[0] != Srt::Real {
                        return bad();
                    }
                    Srt::Int
                }
                O::IsInt => {
                    if n != 1 || ss[0] != Srt::Real {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Select => match ss.as_slice() {
                    [Srt::Arr(a, b), i] if **a == *i => (**b).clone(),
                    _ => return bad(),
                },
                O::Store => match ss.as_slice() {
                    [Srt::Arr(a, b), i, v] if **a == *i && **b == *v => ss[0].clone(),
                    _ => return bad(),
                },
                O::StrConcat => {
                    if n < 2 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Str
                }
                O::StrLen | O::StrToCode | O::StrToInt => {
                    if n != 1 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Int
                }
                O::StrIsDigit => {
                    if n != 1 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::StrLessThan | O::StrLessEq | O::PrefixOf | O::SuffixOf | O::Contains => {
                    if n != 2 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::ReRange => {
                    if n != 2 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Re
                }
                O::CharAt => {
                    if ss != [Srt::Str, Srt::Int] {
                        return bad();
                    }
                    Srt::Str
                }
                O::Substring => {
                    if ss != [Srt::Str, Srt::Int, Srt::Int] {
                        return bad();
                    }
                    Srt::Str
                }
                O::IndexOf => {
                    if ss != [Srt::Str, Srt::Str, Srt::Int] {
                        return bad();
                    }
                    Srt::Int
                }
                O::Replace | O::ReplaceAll => {
                    if n != 3 || !all(&Srt::Str) {
                        return bad();
                    }
                    Srt::Str
                }
                O::ReplaceRe | O::ReplaceReAll => {
                    if ss != [Srt::Str, Srt::Re, Srt::Str] {
                        return bad();
                    }
                    Srt::Str
                }
                O::StrFromCode | O::StrFromInt => {
                    if ss != [Srt::Int] {
                        return bad();
                    }
                    Srt::Str
                }
                O::StrToRe => {
                    if ss != [Srt::Str] {
                        return bad();
                    }
                    Srt::Re
                }
                O::StrInRe => {
                    if ss != [Srt::Str, Srt::Re] {
                        return bad();
                    }
                    Srt::Bool
                }
                O::ReNone | O::ReAll | O::ReAllChar => {
                    if n != 0 {
                        return bad();
                    }
                    Srt::Re
                }
                O::ReConcat | O::ReUnion | O::ReIntersection | O::ReDiff => {
                    if n < 2 || !all(&Srt::Re) {
                        return bad();
                    }
                    Srt::Re
                }
                O::ReKleeneClosure | O::ReComplement | O::ReKleeneCross | O::ReOption => {
                    if n != 1 || !all(&Srt::Re) {
                        return bad();
                    }
                    Srt::Re
                }
                O::BvNot | O::BvNeg => match ss.as_slice() {
                    [Srt::BV(_)] => ss[0].clone(),
                    _ => return bad(),
                },
                O::BvAnd | O::BvOr | O::BvAdd | O::BvMul | O::BvXor => {
                    if n < 2 || !matches!(ss[0], Srt::BV(_)) || !all(&ss[0]) {
                        return bad();
                    }
                    ss[0].clone()
                }
                O::BvUDiv | O::BvURem | O::BvShl | O::BvLShr | O::BvNAnd | O::BvNOr | O::BvXNor
                | O::BvSub | O::BvSDiv | O::BvSRem | O::BvSMod | O::BvAShr => {
                    if n != 2 || !matches!(ss[0], Srt::BV(_)) || !all(&ss[0]) {
                        return bad();
                    }
                    ss[0].clone()
                }
                O::BvComp => {
                    if n != 2 || !matches!(ss[0], Srt::BV(_)) || !all(&ss[0]) {
                        return bad();
                    }
                    Srt::BV(1)
                }
                O::BvULt | O::BvULe | O::BvUGt | O::BvUGe | O::BvSLt | O::BvSLe | O::BvSGt
                | O::BvSGe => {
                    if n != 2 || !matches!(ss[0], Srt::BV(_)) || !all(&ss[0]) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::BvConcat => {
                    if n < 2 {
                        return bad();
                    }
                    let mut w = 0;
                    for s in &ss {
                        let Srt::BV(k) = s else { return bad() };
                        w += k;
                    }
                    Srt::BV(w)
                }
                O::UBvToInt | O::SBvToInt | O::BvSize => match ss.as_slice() {
                    [Srt::BV(_)] => Srt::Int,
                    _ => return bad(),
                },
                O::BvPBbTerm => {
                    if n < 1 || !all(&Srt::Int) {
                        return bad();
                    }
                    Srt::BV(n)
                }
                O::BvBbTerm => {
                    if n < 1 || !all(&Srt::Bool) {
                        return bad();
                    }
                    Srt::BV(n)
                }
                O::Pow2 | O::Log2 => {
                    if ss != [Srt::Int] {
                        return bad();
                    }
                    Srt::Int
                }
                O::IsPow2 => {
                    if ss != [Srt::Int] {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Cl => {
                    if !all(&Srt::Bool) {
                        return bad();
                    }
                    Srt::Bool
                }
                O::Delete => {
                    if ss != [Srt::Bool] {
                        return bad();
                    }
                    Srt::Bool
                }
                O::BvConst => {
                    let (Some(Term::Const(Constant::Integer(_))), Some(Term::Const(Constant::Integer(w)))) =
                        (args.first().map(|x| x.as_ref()), args.get(1).map(|x| x.as_ref()))
                    else {
                        return bad();
                    };
                    Srt::BV(w.to_usize().ok_or("width")?)
                }
                O::RareList => Srt::RareList,
            }
        }
    })
}

/// Prints a term (own printer, used for keys and reports only).
pub fn show_sort(x: &Sort) -> String {
    let list = |h: &str, a: &[T]| {
        if a.is_empty() {
            h.to_string()
        } else {
            format!("({h} {})", a.iter().map(|x| show(x)).collect::<Vec<_>>().join(" "))
        }
    };
    match x {
        Sort::Bool => "Bool".into(),
        Sort::Int => "Int".into(),
        Sort::Real => "Real".into(),
        Sort::String => "String".into(),
        Sort::RegLan => "RegLan".into(),
        Sort::BitVec(w) => format!("(_ BitVec {w})"),
        Sort::Atom(n, a) => list(n, a),
        Sort::Function(v) => list("->", v),
        Sort::Array(a, b) => list("Array", &[a.clone(), b.clone()]),
        Sort::Type => "Type".into(),
        Sort::RareList => "RareList".into(),
        Sort::Var(v) => format!("?{v}"),
        Sort::ParamSort(v, h) => list(&format!("?{}", show(h)), v),
    }
}
pub fn show(t: &Term) -> String {
    let mut s = String::new();
    show_into(t, &mut s);
    s
}
fn show_list(ts: &[T], s: &mut String) {
    for a in ts {
        s.push(' ');
        show_into(a, s);
    }
}
pub fn show_into(t: &Term, s: &mut String) {
    match t {
        Term::Const(c) => match c {
            Constant::Integer(i) => s.push_str(&i.to_string()),
            Constant::Real(r) => s.push_str(&format!("{}/{}r", r.numer(), r.denom())),
            Constant::String(x) => s.push_str(&format!("{:?}", x)),
            Constant::BitVec(v, w) => s.push_str(&format!("(_ bv{} {})", v, w)),
        },
        Term::Var(n, _) => s.push_str(n),
        Term::App(f, a) => {
            s.push('(');
            show_into(f, s);
            show_list(a, s);
            s.push(')');
        }
        Term::Op(o, a) => {
            if a.is_empty() {
                s.push_str(&o.to_string());
            } else {
                s.push('(');
                s.push_str(&o.to_string());
                show_list(a, s);
                s.push(')');
            }
        }
        Term::Sort(x) => s.push_str(&show_sort(x)),
        Term::Binder(b, bl, body) => {
            s.push_str(&format!("({} (", b));
            for (n, so) in bl.iter() {
                s.push_str(&format!("({} {})", n, show(so)));
            }
            s.push_str(") ");
            show_into(body, s);
            s.push(')');
        }
        Term::Let(bl, body) => {
            s.push_str("(let (");
            for (n, v) in bl.iter() {
                s.push_str(&format!("({} ", n));
                show_into(v, s);
                s.push(')');
            }
            s.push_str(") ");
            show_into(body, s);
            s.push(')');
        }
        Term::ParamOp { op, op_args, args } => {
            s.push_str(&format!("((_ {}", op));
            show_list(op_args, s);
            s.push(')');
            show_list(args, s);
            s.push(')');
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Values

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q(pub i128, pub i128); // normalized, denominator > 0

impl Q {
    pub fn int(n: i128) -> Q {
        Q(n, 1)
    }
    pub fn new(n: i128, d: i128) -> Result<Q, Ev> {
        if d == 0 {
            return Err(Ev::Unknown);
        }
        let mut a = n.checked_abs().ok_or(Ev::Unknown)?;
        let mut b = d.checked_abs().ok_or(Ev::Unknown)?;
        while b != 0 {
            (a, b) = (b, a % b);
        }
        let g = if a == 0 { 1 } else { a };
        let sg = if d < 0 { -1 } else { 1 };
        Ok(Q(sg * (n / g), sg * (d / g)))
    }
    pub fn add(self, o: Q) -> Result<Q, Ev> {
        if self.1 == 1 && o.1 == 1 {
            return Ok(Q(self.0.checked_add(o.0).ok_or(Ev::Unknown)?, 1));
        }
        let a = self.0.checked_mul(o.1).ok_or(Ev::Unknown)?;
        let b = o.0.checked_mul(self.1).ok_or(Ev::Unknown)?;
        Q::new(a.checked_add(b).ok_or(Ev::Unknown)?, self.1.checked_mul(o.1).ok_or(Ev::Unknown)?)
    }
    pub fn neg(self) -> Q {
        Q(-self.0, self.1)
    }
    pub fn mul(self, o: Q) -> Result<Q, Ev> {
        Q::new(
            self.0.checked_mul(o.0).ok_or(Ev::Unknown)?,
            self.1.checked_mul(o.1).ok_or(Ev::Unknown)?,
        )
    }
    pub fn cmp(self, o: Q) -> Result<std::cmp::Ordering, Ev> {
        Ok(self
            .0
            .checked_mul(o.1)
            .ok_or(Ev::Unknown)?
            .cmp(&o.0.checked_mul(self.1).ok_or(Ev::Unknown)?))
    }
    pub fn floor(self) -> i128 {
        self.0.div_euclid(self.1)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    B(bool),
    N(Q),
    BV(u128, usize),
    S(Vec<char>),
    U(usize),
    F(Arc<FunV>),
    A(Arc<FunV>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FunV {
    pub table: BTreeMap<VKey, V>,
    pub default: Option<V>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct VKey(pub String);
pub fn vkey(vs: &[V]) -> VKey {
    VKey(format!("{:?}", vs))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Unknown,
}
type R = Result<V, Ev>;

/// The finite domains used for quantification and for enumerating free symbols.
#[derive(Clone, Debug)]
pub struct Doms {
    pub u: usize,
    pub int: Vec<i128>,
    pub real: Vec<Q>,
    pub strs: Vec<Vec<char>>,
    /// whether quantifiers over Int/Real/String may be evaluated over the (truncated) domain
    pub quant_infinite: bool,
    pub bv_full: usize,
    /// value of (x / 0), (div x 0) ...: None = leave the interpretation undecided
    pub div0: Option<i128>,
    /// give `mod` the sign of the dividend (used only to recognise a recorded finding)
    pub trunc_mod: bool,
    pub fun_cap: usize,
}

impl Doms {
    pub fn std() -> Doms {
        Doms {
            u: 2,
            int: vec![0, 1, -1, 2, -2],
            real: vec![Q(0, 1), Q(1, 1), Q(-1, 1), Q(1, 2), Q(-3, 2)],
            strs: vec![vec![], vec!['a'], vec!['b'], vec!['a', 'b'], vec!['a', 'a']],
            quant_infinite: false,
            bv_full: 4,
            trunc_mod: false, div0: Some(0),
            fun_cap: 300,
        }
    }
    pub fn with_u(mut self, u: usize) -> Doms {
        self.u = u;
        self
    }
    /// All values of a sort, or None if the sort cannot be enumerated (even approximately).
    pub fn values(&self, s: &Srt) -> Option<Vec<V>> {
        Some(match s {
            Srt::Bool => vec![V::B(false), V::B(true)],
            Srt::Int => self.int.iter().map(|&i| V::N(Q::int(i))).collect(),
            Srt::Real => self.real.iter().map(|&q| V::N(q)).collect(),
            Srt::Str => self.strs.iter().map(|s| V::S(s.clone())).collect(),
            Srt::U(_) => (0..self.u).map(V::U).collect(),
            Srt::BV(w) => {
                if *w <= self.bv_full {
                    (0..(1u128 << w)).map(|v| V::BV(v, *w)).collect()
                } else {
                    let m = mask(*w);
                    let mut v: Vec<u128> = vec![0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, 5, 0xAAAA_AAAA_AAAA_AAAA & m];
                    v.dedup();
                    v.into_iter().map(|v| V::BV(v, *w)).collect()
                }
            }
            Srt::Fun(ss) => {
                let (cod, dom) = ss.split_last().unwrap();
                let tuples = self.tuples(dom)?;
                let cvals = self.values(cod)?;
                let mut total: usize = 1;
                for _ in 0..tuples.len() {
                    total = total.saturating_mul(cvals.len());
                    if total > 1 << 40 {
                        break;
                    }
                }
                let infinite = dom.iter().any(|s| matches!(s, Srt::Int | Srt::Real | Srt::Str));
                if total <= self.fun_cap && !infinite {
                    let mut out = Vec::new();
                    for mut k in 0..total {
                        let mut table = BTreeMap::new();
                        for t in &tuples {
                            table.insert(vkey(t), cvals[k % cvals.len()].clone());
                            k /= cvals.len();
                        }
                        out.push(V::F(Arc::new(FunV { table, default: None })));
                    }
                    out
                } else {
                    // Too many tables: constants, projections, and all one-point changes of them
                    let mut out: Vec<V> = Vec::new();
                    for c in &cvals {
                        out.push(V::F(Arc::new(FunV {
                            table: tuples.iter().map(|t| (vkey(t), c.clone())).collect(),
                            default: Some(c.clone()),
                        })));
                    }
                    for i in 0..dom.len() {
                        if dom[i] == *cod {
                            out.push(V::F(Arc::new(FunV {
                                table: tuples.iter().map(|t| (vkey(t), t[i].clone())).collect(),
                                default: Some(cvals[0].clone()),
                            })));
                        }
                    }
                    // a "generic" function: cycle through values
                    for off in 0..2usize {
                        out.push(V::F(Arc::new(FunV {
                            table: tuples
                                .iter()
                                .enumerate()
                                .map(|(i, t)| (vkey(t), cvals[(i * (off + 1) + off) % cvals.len()].clone()))
                                .collect(),
                            default: Some(cvals[off % cvals.len()].clone()),
                        })));
                    }
                    // one-point functions
                    for (i, t) in tuples.iter().enumerate() {
                        if i > 6 {
                            break;
                        }
                        let mut table: BTreeMap<VKey, V> =
                            tuples.iter().map(|t| (vkey(t), cvals[0].clone())).collect();
                        table.insert(vkey(t), cvals[cvals.len() - 1].clone());
                        out.push(V::F(Arc::new(FunV { table, default: Some(cvals[0].clone()) })));
                    }
                    out
                }
            }
            Srt::Arr(a, b) => {
                let Srt::Fun(_) = Srt::Fun(vec![(**a).clone(), (**b).clone()]) else { return None };
                self.values(&Srt::Fun(vec![(**a).clone(), (**b).clone()]))?
                    .into_iter()
                    .map(|v| match v {
                        V::F(f) => V::A(f),
                        v => v,
                    })
                    .collect()
            }
            _ => return None,
        })
    }
    fn tuples(&self, dom: &[Srt]) -> Option<Vec<Vec<V>>> {
        let mut out = vec![vec![]];
        for s in dom {
            let vs = self.values(s)?;
            let mut next = Vec::new();
            for t in &out {
                for v in &vs {
                    let mut t = t.clone();
                    t.push(v.clone());
                    next.push(t);
                }
            }
            if next.len() > 5000 {
                return None;
            }
            out = next;
        }
        Some(out)
    }
}

pub fn mask(w: usize) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sgn(v: u128, w: usize) -> i128 {
    if w == 0 {
        0
    } else if (v >> (w - 1)) & 1 == 1 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}

/// An interpretation: values of free symbols (by name and sort) plus domains.
#[derive(Clone)]
pub struct Model<'d> {
    pub env: Vec<(String, Srt, V)>,
    pub doms: &'d Doms,
}

impl<'d> Model<'d> {
    pub fn new(doms: &'d Doms) -> Self {
        Model { env: Vec::new(), doms }
    }
    pub fn lookup(&self, n: &str, s: &Term) -> Option<&V> {
        let mut so = None;
        self.env
            .iter()
            .rev()
            .find(|(m, ms, _)| m == n && *so.get_or_insert_with(|| srt(s)) == *ms)
            .map(|(_, _, v)| v)
    }
    pub fn boolean(&mut self, t: &Term) -> Result<bool, Ev> {
        match self.eval(t)? {
            V::B(b) => Ok(b),
            _ => Err(Ev::Unknown),
        }
    }
    fn n(&mut self, t: &Term) -> Result<Q, Ev> {
        match self.eval(t)? {
            V::N(q) => Ok(q),
            _ => Err(Ev::Unknown),
        }
    }
    fn int(&mut self, t: &Term) -> Result<i128, Ev> {
        let q = self.n(t)?;
        if q.1 == 1 {
            Ok(q.0)
        } else {
            Err(Ev::Unknown)
        }
    }
    fn bv(&mut self, t: &Term) -> Result<(u128, usize), Ev> {
        match self.eval(t)? {
            V::BV(v, w) => Ok((v, w)),
            _ => Err(Ev::Unknown),
        }
    }
    fn st(&mut self, t: &Term) -> Result<Vec<char>, Ev> {
        match self.eval(t)? {
            V::S(v) => Ok(v),
            _ => Err(Ev::Unknown),
        }
    }
    pub fn quant_domain(&self, s: &Term) -> Result<Vec<V>, Ev> {
        let s = srt(s);
        let infinite = matches!(s, Srt::Int | Srt::Real | Srt::Str) || (matches!(s, Srt::BV(w) if w > self.doms.bv_full));
        if infinite && !self.doms.quant_infinite {
            return Err(Ev::Unknown);
        }
        if let Srt::Fun(ss) = &s {
            // only exact if fully enumerable
            let (c, d) = ss.split_last().unwrap();
            let t = self.doms.tuples(d).ok_or(Ev::Unknown)?;
            let cv = self.doms.values(c).ok_or(Ev::Unknown)?;
            if (cv.len() as f64).powi(t.len() as i32) > self.doms.fun_cap as f64 {
                return Err(Ev::Unknown);
            }
        }
        self.doms.values(&s).ok_or(Ev::Unknown)
    }

    fn quant(&mut self, forall: bool, bl: &[SortedVar], body: &Term) -> Result<bool, Ev> {
        // three-valued: an unknown matters only if no definite witness exists
        let Some(((n, s), rest)) = bl.split_first() else {
            return self.boolean(body);
        };
        let dom = self.quant_domain(s)?;
        let so = srt(s);
        let mut unknown = false;
        for v in dom {
            self.env.push((n.clone(), so.clone(), v));
            let r = self.quant(forall, rest, body);
            self.env.pop();
            match r {
                Ok(b) if b != forall => return Ok(b),
                Ok(_) => {}
                Err(_) => unknown = true,
            }
        }
        if unknown {
            Err(Ev::Unknown)
        } else {
            Ok(forall)
        }
    }

    pub fn eval(&mut self, t: &Term) -> R {
        use Operator as O;
        Ok(match t {
            Term::Const(c) => match c {
                Constant::Integer(i) => V::N(Q::int(i.to_i128().ok_or(Ev::Unknown)?)),
                Constant::Real(r) => V::N(Q::new(
                    r.numer().to_i128().ok_or(Ev::Unknown)?,
                    r.denom().to_i128().ok_or(Ev::Unknown)?,
                )?),
                Constant::String(s) => V::S(s.chars().collect()),
                Constant::BitVec(v, w) => {
                    let m = rug::Integer::from(1) << (*w as u32);
                    let v = rug::Integer::from(v.modulo_ref(&m));
                    if *w > 128 {
                        return Err(Ev::Unknown);
                    }
                    V::BV(v.to_u128().ok_or(Ev::Unknown)?, *w)
                }
            },
            Term::Var(n, s) => self.lookup(n, s).cloned().ok_or(Ev::Unknown)?,
            Term::Sort(_) => return Err(Ev::Unknown),
            Term::App(f, args) => {
                let fv = self.eval(f)?;
                let vs: Vec<V> = args.iter().map(|a| self.eval(a)).collect::<Result<_, _>>()?;
                match fv {
                    V::F(f) => match f.table.get(&vkey(&vs)) {
                        Some(v) => v.clone(),
                        None => f.default.clone().ok_or(Ev::Unknown)?,
                    },
                    _ => return Err(Ev::Unknown),
                }
            }
            Term::Let(bl, body) => {
                let mut vs = Vec::new();
                for (n, v) in bl.iter() {
                    let so = sort_of(v, true).map_err(|_| Ev::Unknown)?;
                    vs.push((n.clone(), so, self.eval(v)?));
                }
                let k = self.env.len();
                self.env.extend(vs);
                let r = self.eval(body);
                self.env.truncate(k);
                r?
            }
            Term::Binder(b, bl, body) => match b {
                Binder::Forall => V::B(self.quant(true, bl, body)?),
                Binder::Exists => V::B(self.quant(false, bl, body)?),
                Binder::Choice => {
                    let (n, s) = &bl[0];
                    let dom = self.quant_domain(s)?;
                    let so = srt(s);
                    let mut res = None;
                    for v in &dom {
                        self.env.push((n.clone(), so.clone(), v.clone()));
                        let r = self.boolean(body);
                        self.env.pop();
                        if r? {
                            res = Some(v.clone());
                            break;
                        }
                    }
                    // an arbitrary but fixed element otherwise (the last, to differ from the first)
                    res.or_else(|| dom.last().cloned()).ok_or(Ev::Unknown)?
                }
                Binder::Lambda => {
                    let mut tuples: Vec<Vec<V>> = vec![vec![]];
                    let mut sorts = Vec::new();
                    for (_, s) in bl.iter() {
                        let so = srt(s);
                        let vs = self.doms.values(&so).ok_or(Ev::Unknown)?;
                        if matches!(so, Srt::Int | Srt::Real | Srt::Str) && !self.doms.quant_infinite {
                            return Err(Ev::Unknown);
                        }
                        sorts.push(so);
                        let mut next = Vec::new();
                        for t in &tuples {
                            for v in &vs {
                                let mut t = t.clone();
                                t.push(v.clone());
                                next.push(t);
                            }
                        }
                        tuples = next;
                    }
                    let mut table = BTreeMap::new();
                    for t in tuples {
                        let k = self.env.len();
                        for (i, (n, _)) in bl.iter().enumerate() {
                            self.env.push((n.clone(), sorts[i].clone(), t[i].clone()));
                        }
                        let r = self.eval(body);
                        self.env.truncate(k);
                        table.insert(vkey(&t), r?);
                    }
                    V::F(Arc::new(FunV { table, default: None }))
                }
            },
            Term::ParamOp { op, op_args, args } => {
                use ParamOperator as P;
                let idx = |i: usize| -> Result<usize, Ev> {
                    match op_args.get(i).map(|x| x.as_ref()) {
                        Some(Term::Const(Constant::Integer(k))) => k.to_usize().ok_or(Ev::Unknown),
                        _ => Err(Ev::Unknown),
                    }
                };
                match op {
                    P::BvExtract => {
                        let (v, w) = self.bv(&args[0])?;
                        let (i, j) = (idx(0)?, idx(1)?);
                        if i < j || i >= w {
                            return Err(Ev::Unknown);
                        }
                        V::BV((v >> j) & mask(i - j + 1), i - j + 1)
                    }
                    P::BvBitOf => {
                        let (v, w) = self.bv(&args[0])?;
                        if idx(0)? >= w {
                            return Err(Ev::Unknown);
                        }
                        V::B((v >> idx(0)?) & 1 == 1)
                    }
                    P::BvIntOf => {
                        let (v, w) = self.bv(&args[0])?;
                        if idx(0)? >= w {
                            return Err(Ev::Unknown);
                        }
                        V::N(Q::int(((v >> idx(0)?) & 1) as i128))
                    }
                    P::ZeroExtend => {
                        let (v, w) = self.bv(&args[0])?;
                        if w + idx(0)? > 120 {
                            return Err(Ev::Unknown);
                        }
                        V::BV(v, w + idx(0)?)
                    }
                    P::SignExtend => {
                        let (v, w) = self.bv(&args[0])?;
                        let nw = w + idx(0)?;
                        if nw > 120 || w == 0 {
                            return Err(Ev::Unknown);
                        }
                        V::BV((sgn(v, w) as u128) & mask(nw), nw)
                    }
                    P::RotateLeft | P::RotateRight => {
                        let (v, w) = self.bv(&args[0])?;
                        let k = idx(0)? % w;
                        let k = if *op == P::RotateLeft { k } else { (w - k) % w };
                        V::BV(if k == 0 { v } else { ((v << k) | (v >> (w - k))) & mask(w) }, w)
                    }
                    P::Repeat => {
                        let (v, w) = self.bv(&args[0])?;
                        let k = idx(0)?;
                        if k == 0 || w * k > 120 {
                            return Err(Ev::Unknown);
                        }
                        let mut r = 0u128;
                        for _ in 0..k {
                            r = (r << w) | v;
                        }
                        V::BV(r, w * k)
                    }
                    P::IntToBv => {
                        let i = self.int(&args[0])?;
                        let w = idx(0)?;
                        if w == 0 || w > 120 {
                            return Err(Ev::Unknown);
                        }
                        V::BV(i.rem_euclid(1i128 << w) as u128, w)
                    }
                    P::ArrayConst => {
                        let v = self.eval(&args[0])?;
                        let Srt::Arr(a, _) = srt(&op_args[0]) else { return Err(Ev::Unknown) };
                        let dom = self.doms.values(&a).ok_or(Ev::Unknown)?;
                        let inf = matches!(*a, Srt::Int | Srt::Real | Srt::Str);
                        V::A(Arc::new(FunV {
                            table: dom.iter().map(|d| (vkey(&[d.clone()]), v.clone())).collect(),
                            default: if inf { Some(v) } else { None },
                        }))
                    }
                    _ => return Err(Ev::Unknown),
                }
            }
            Term::Op(op, args) => match op {
                O::True => V::B(true),
                O::False => V::B(false),
                O::Not => V::B(!self.boolean(&args[0])?),
                O::And | O::Or | O::Cl => {
                    let short = *op != O::And;
                    let mut unk = false;
                    for a in args {
                        match self.boolean(a) {
                            Ok(b) if b == short => return Ok(V::B(short)),
                            Ok(_) => {}
                            Err(_) => unk = true,
                        }
                    }
                    if unk {
                        return Err(Ev::Unknown);
                    }
                    V::B(!short)
                }
                O::Xor => {
                    let mut r = false;
                    for a in args {
                        r ^= self.boolean(a)?;
                    }
                    V::B(r)
                }
                O::Implies => {
                    let mut r = self.boolean(args.last().ok_or(Ev::Unknown)?)?;
                    for a in args[..args.len() - 1].iter().rev() {
                        r = !self.boolean(a)? || r;
                    }
                    V::B(r)
                }
                O::Equals | O::Distinct => {
                    let vs: Vec<V> = args.iter().map(|a| self.eval(a)).collect::<Result<_, _>>()?;
                    // function/array values are comparable only with total tables
                    if vs.iter().any(|v| matches!(v, V::F(f) | V::A(f) if f.default.is_some())) {
                        return Err(Ev::Unknown);
                    }
                    if *op == O::Equals {
                        V::B(vs.windows(2).all(|w| w[0] == w[1]))
                    } else {
                        let mut r = true;
                        for i in 0..vs.len() {
                            for j in 0..i {
                                r &= vs[i] != vs[j];
                            }
                        }
                        V::B(r)
                    }
                }
                O::Ite => {
                    if self.boolean(&args[0])? {
                        self.eval(&args[1])?
                    } else {
                        self.eval(&args[2])?
                    }
                }
                O::Add => {
                    let mut r = Q(0, 1);
                    for a in args {
                        r = r.add(self.n(a)?)?;
                    }
                    V::N(r)
                }
                O::Mult => {
                    let mut r = Q(1, 1);
                    for a in args {
                        r = r.mul(self.n(a)?)?;
                    }
                    V::N(r)
                }
                O::Sub => {
                    let mut r = self.n(&args[0])?;
                    if args.len() == 1 {
                        r = r.neg();
                    }
                    for a in &args[1..] {
                        r = r.add(self.n(a)?.neg())?;
                    }
                    V::N(r)
                }
                O::RealDiv => {
                    let mut r = self.n(&args[0])?;
                    for a in &args[1..] {
                        let d = self.n(a)?;
                        r = if d.0 == 0 {
                            match self.doms.div0 {
                                Some(k) => Q::int(k).add(r)?,
                                None => return Err(Ev::Unknown),
                            }
                        } else {
                            r.mul(Q::new(d.1, d.0)?)?
                        };
                    }
                    V::N(r)
                }
                O::IntDiv | O::Mod => {
                    let mut r = self.int(&args[0])?;
                    for a in &args[1..] {
                        let d = self.int(a)?;
                        r = if d == 0 {
                            match self.doms.div0 {
                                Some(k) => k + 2 * r + (*op == O::Mod) as i128,
                                None => return Err(Ev::Unknown),
                            }
                        } else if *op == O::IntDiv {
                            r.div_euclid(d)
                        } else if self.doms.trunc_mod {
                            r % d
                        } else {
                            r.rem_euclid(d)
                        };
                    }
                    V::N(Q::int(r))
                }
                O::Abs => {
                    let q = self.n(&args[0])?;
                    V::N(Q(q.0.abs(), q.1))
                }
                O::LessThan | O::GreaterThan | O::LessEq | O::GreaterEq => {
                    use std::cmp::Ordering::*;
                    let vs: Vec<Q> = args.iter().map(|a| self.n(a)).collect::<Result<_, _>>()?;
                    let mut r = true;
                    for w in vs.windows(2) {
                        let c = w[0].cmp(w[1])?;
                        r &= match op {
                            O::LessThan => c == Less,
                            O::GreaterThan => c == Greater,
                            O::LessEq => c != Greater,
                            _ => c != Less,
                        };
                    }
                    V::B(r)
                }
                O::ToReal => V::N(self.n(&args[0])?),
                O::ToInt => V::N(Q::int(self.n(&args[0])?.floor())),
                O::IsInt => V::B(self.n(&args[0])?.1 == 1),
                O::Pow2 => {
                    let i = self.int(&args[0])?;
                    if i > 100 {
                        return Err(Ev::Unknown);
                    }
                    V::N(Q::int(if i < 0 { 0 } else { 1i128 << i }))
                }
                O::IsPow2 => {
                    let i = self.int(&args[0])?;
                    V::B(i > 0 && (i & (i - 1)) == 0)
                }
                O::Log2 => {
                    let i = self.int(&args[0])?;
                    if i <= 0 {
                        V::N(Q::int(0))
                    } else {
                        V::N(Q::int(127 - i.leading_zeros() as i128))
                    }
                }
                O::Select => {
                    let a = self.eval(&args[0])?;
                    let i = self.eval(&args[1])?;
                    match a {
                        V::A(f) => match f.table.get(&vkey(&[i])) {
                            Some(v) => v.clone(),
                            None => f.default.clone().ok_or(Ev::Unknown)?,
                        },
                        _ => return Err(Ev::Unknown),
                    }
                }
                O::Store => {
                    let a = self.eval(&args[0])?;
                    let i = self.eval(&args[1])?;
                    let v = self.eval(&args[2])?;
                    match a {
                        V::A(f) => {
                            let mut f = (*f).clone();
                            f.table.insert(vkey(&[i]), v);
                            V::A(Arc::new(f))
                        }
                        _ => return Err(Ev::Unknown),
                    }
                }
                // strings
                O::StrConcat => {
                    let mut r = Vec::new();
                    for a in args {
                        r.extend(self.st(a)?);
                    }
                    V::S(r)
                }
                O::StrLen => V::N(Q::int(self.st(&args[0])?.len() as i128)),
                O::StrLessThan => V::B(self.st(&args[0])? < self.st(&args[1])?),
                O::StrLessEq => V::B(self.st(&args[0])? <= self.st(&args[1])?),
                O::CharAt => {
                    let s = self.st(&args[0])?;
                    let i = self.int(&args[1])?;
                    V::S(if i >= 0 && (i as usize) < s.len() { vec![s[i as usize]] } else { vec![] })
                }
                O::Substring => {
                    let s = self.st(&args[0])?;
                    let i = self.int(&args[1])?;
                    let n = self.int(&args[2])?;
                    V::S(if i < 0 || n <= 0 || i as usize >= s.len() {
                        vec![]
                    } else {
                        let i = i as usize;
                        let e = (i as i128 + n).min(s.len() as i128) as usize;
                        s[i..e].to_vec()
                    })
                }
                O::PrefixOf => V::B(self.st(&args[1])?.starts_with(&self.st(&args[0])?)),
                O::SuffixOf => V::B(self.st(&args[1])?.ends_with(&self.st(&args[0])?)),
                O::Contains => {
                    let (a, b) = (self.st(&args[0])?, self.st(&args[1])?);
                    V::B(find(&a, &b, 0).is_some())
                }
                O::IndexOf => {
                    let (a, b) = (self.st(&args[0])?, self.st(&args[1])?);
                    let i = self.int(&args[2])?;
                    V::N(Q::int(if i < 0 || i as usize > a.len() {
                        -1
                    } else {
                        find(&a, &b, i as usize).map(|x| x as i128).unwrap_or(-1)
                    }))
                }
                O::Replace => {
                    let (a, b, c) = (self.st(&args[0])?, self.st(&args[1])?, self.st(&args[2])?);
                    V::S(match find(&a, &b, 0) {
                        None => a,
                        Some(i) => [&a[..i], &c, &a[i + b.len()..]].concat(),
                    })
                }
                O::ReplaceAll => {
                    let (a, b, c) = (self.st(&args[0])?, self.st(&args[1])?, self.st(&args[2])?);
                    if b.is_empty() {
                        V::S(a)
                    } else {
                        let mut r = Vec::new();
                        let mut p = 0;
                        while let Some(i) = find(&a, &b, p) {
                            r.extend_from_slice(&a[p..i]);
                            r.extend_from_slice(&c);
                            p = i + b.len();
                        }
                        r.extend_from_slice(&a[p..]);
                        V::S(r)
                    }
                }
                O::StrInRe => {
                    let s = self.st(&args[0])?;
                    V::B(self.in_re(&s, &args[1])?)
                }
                O::StrIsDigit => {
                    let s = self.st(&args[0])?;
                    V::B(s.len() == 1 && s[0].is_ascii_digit())
                }
                O::StrToCode => {
                    let s = self.st(&args[0])?;
                    V::N(Q::int(if s.len() == 1 { s[0] as i128 } else { -1 }))
                }
                O::StrToInt => {
                    let s = self.st(&args[0])?;
                    if s.is_empty() || !s.iter().all(|c| c.is_ascii_digit()) {
                        V::N(Q::int(-1))
                    } else {
                        V::N(Q::int(
                            s.iter().collect::<String>().parse::<i128>().map_err(|_| Ev::Unknown)?,
                        ))
                    }
                }
                O::StrFromInt => {
                    let i = self.int(&args[0])?;
                    V::S(if i < 0 { vec![] } else { i.to_string().chars().collect() })
                }
                O::StrFromCode => {
                    let i = self.int(&args[0])?;
                    V::S(if (0..=196607).contains(&i) {
                        vec![char::from_u32(i as u32).ok_or(Ev::Unknown)?]
                    } else {
                        vec![]
                    })
                }
                O::ReplaceRe | O::ReplaceReAll | O::StrToRe | O::ReNone | O::ReAll | O::ReAllChar
                | O::ReConcat | O::ReUnion | O::ReIntersection | O::ReKleeneClosure | O::ReComplement
                | O::ReDiff | O::ReKleeneCross | O::ReOption | O::ReRange => return Err(Ev::Unknown),
                // bit-vectors
                O::BvNot => {
                    let (v, w) = self.bv(&args[0])?;
                    V::BV(!v & mask(w), w)
                }
                O::BvNeg => {
                    let (v, w) = self.bv(&args[0])?;
                    V::BV(v.wrapping_neg() & mask(w), w)
                }
                O::BvAnd | O::BvOr | O::BvXor | O::BvAdd | O::BvMul => {
                    let (mut v, w) = self.bv(&args[0])?;
                    for a in &args[1..] {
                        let (u, w2) = self.bv(a)?;
                        if w != w2 {
                            return Err(Ev::Unknown);
                        }
                        v = match op {
                            O::BvAnd => v & u,
                            O::BvOr => v | u,
                            O::BvXor => v ^ u,
                            O::BvAdd => v.wrapping_add(u),
                            _ => v.wrapping_mul(u),
                        } & mask(w);
                    }
                    V::BV(v, w)
                }
                O::BvUDiv | O::BvURem | O::BvShl | O::BvLShr | O::BvNAnd | O::BvNOr | O::BvXNor
                | O::BvSub | O::BvSDiv | O::BvSRem | O::BvSMod | O::BvAShr | O::BvComp | O::BvULt
                | O::BvULe | O::BvUGt | O::BvUGe | O::BvSLt | O::BvSLe | O::BvSGt | O::BvSGe => {
                    let (a, w) = self.bv(&args[0])?;
                    let (b, w2) = self.bv(&args[1])?;
                    if w != w2 || w == 0 || w > 120 {
                        return Err(Ev::Unknown);
                    }
                    let m = mask(w);
                    let (sa, sb) = (sgn(a, w), sgn(b, w));
                    let udiv = |a: u128, b: u128| if b == 0 { m } else { a / b };
                    let urem = |a: u128, b: u128| if b == 0 { a } else { a % b };
                    let neg = |x: u128| x.wrapping_neg() & m;
                    let msb = |x: u128| (x >> (w - 1)) & 1 == 1;
                    match op {
                        O::BvUDiv => V::BV(udiv(a, b), w),
                        O::BvURem => V::BV(urem(a, b), w),
                        O::BvShl => V::BV(if b >= w as u128 { 0 } else { (a << b) & m }, w),
                        O::BvLShr => V::BV(if b >= w as u128 { 0 } else { a >> b }, w),
                        O::BvAShr => {
                            let k = if b >= w as u128 { w - 1 } else { b as usize };
                            V::BV(((sa >> k) as u128) & m, w)
                        }
                        O::BvNAnd => V::BV(!(a & b) & m, w),
                        O::BvNOr => V::BV(!(a | b) & m, w),
                        O::BvXNor => V::BV(!(a ^ b) & m, w),
                        O::BvSub => V::BV(a.wrapping_sub(b) & m, w),
                        O::BvSDiv => {
                            let (aa, bb) = (if msb(a) { neg(a) } else { a }, if msb(b) { neg(b) } else { b });
                            let q = udiv(aa, bb);
                            V::BV(if msb(a) != msb(b) { neg(q) } else { q }, w)
                        }
                        O::BvSRem => {
                            let (aa, bb) = (if msb(a) { neg(a) } else { a }, if msb(b) { neg(b) } else { b });
                            let r = urem(aa, bb);
                            V::BV(if msb(a) { neg(r) } else { r }, w)
                        }
                        O::BvSMod => {
                            let (aa, bb) = (if msb(a) { neg(a) } else { a }, if msb(b) { neg(b) } else { b });
                            let u = urem(aa, bb);
                            let r = if u == 0 {
                                u
                            } else if !msb(a) && !msb(b) {
                                u
                            } else if msb(a) && !msb(b) {
                                neg(u).wrapping_add(b) & m
                            } else if !msb(a) && msb(b) {
                                u.wrapping_add(b) & m
                            } else {
                                neg(u)
                            };
                            V::BV(r, w)
                        }
                        O::BvComp => V::BV((a == b) as u128, 1),
                        O::BvULt => V::B(a < b),
                        O::BvULe => V::B(a <= b),
                        O::BvUGt => V::B(a > b),
                        O::BvUGe => V::B(a >= b),
                        O::BvSLt => V::B(sa < sb),
                        O::BvSLe => V::B(sa <= sb),
                        O::BvSGt => V::B(sa > sb),
                        _ => V::B(sa >= sb),
                    }
                }
                O::BvConcat => {
                    let (mut v, mut w) = self.bv(&args[0])?;
                    for a in &args[1..] {
                        let (u, k) = self.bv(a)?;
                        if w + k > 120 {
                            return Err(Ev::Unknown);
                        }
                        v = (v << k) | u;
                        w += k;
                    }
                    V::BV(v, w)
                }
                O::UBvToInt => V::N(Q::int(self.bv(&args[0])?.0 as i128)),
                O::SBvToInt => {
                    let (v, w) = self.bv(&args[0])?;
                    V::N(Q::int(sgn(v, w)))
                }
                O::BvSize => V::N(Q::int(self.bv(&args[0])?.1 as i128)),
                O::BvBbTerm => {
                    let mut v = 0u128;
                    for (i, a) in args.iter().enumerate() {
                        if self.boolean(a)? {
                            v |= 1 << i;
                        }
                    }
                    V::BV(v, args.len())
                }
                O::BvPBbTerm => {
                    let mut v = 0u128;
                    for (i, a) in args.iter().enumerate() {
                        match self.int(a)? {
                            0 => {}
                            1 => v |= 1 << i,
                            _ => return Err(Ev::Unknown),
                        }
                    }
                    V::BV(v, args.len())
                }
                O::BvConst => {
                    let v = self.int(&args[0])?;
                    let w = self.int(&args[1])?;
                    if w <= 0 || w > 120 {
                        return Err(Ev::Unknown);
                    }
                    V::BV(v.rem_euclid(1i128 << w) as u128, w as usize)
                }
                O::Delete | O::RareList => return Err(Ev::Unknown),
            },
        })
    }

    /// Regular-expression membership.
    pub fn in_re(&mut self, s: &[char], r: &Term) -> Result<bool, Ev> {
        use Operator as O;
        Ok(match r {
            Term::Op(op, args) => match op {
                O::ReNone => false,
                O::ReAll => true,
                O::ReAllChar => s.len() == 1,
                O::StrToRe => self.st(&args[0])? == s,
                O::ReRange => {
                    let (a, b) = (self.st(&args[0])?, self.st(&args[1])?);
                    a.len() == 1 && b.len() == 1 && s.len() == 1 && a[0] <= s[0] && s[0] <= b[0]
                }
                O::ReUnion => {
                    for a in args {
                        if self.in_re(s, a)? {
                            return Ok(true);
                        }
                    }
                    false
                }
                O::ReIntersection => {
                    for a in args {
                        if !self.in_re(s, a)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                O::ReDiff => {
                    let mut v = self.in_re(s, &args[0])?;
                    for a in &args[1..] {
                        v = v && !self.in_re(s, a)?;
                    }
                    v
                }
                O::ReComplement => !self.in_re(s, &args[0])?,
                O::ReOption => s.is_empty() || self.in_re(s, &args[0])?,
                O::ReKleeneClosure => self.star(s, &args[0], 0)?,
                O::ReKleeneCross => {
                    for i in 0..=s.len() {
                        if self.in_re(&s[..i], &args[0])? && self.star(&s[i..], &args[0], 0)? {
                            return Ok(true);
                        }
                    }
                    false
                }
                O::ReConcat => self.cat(s, args)?,
                O::Ite => {
                    if self.boolean(&args[0])? {
                        self.in_re(s, &args[1])?
                    } else {
                        self.in_re(s, &args[2])?
                    }
                }
                _ => return Err(Ev::Unknown),
            },
            Term::ParamOp { op, op_args, args } => {
                let k = |i: usize| op_args[i].as_integer().and_then(|x| x.to_i64()).ok_or(Ev::Unknown);
                match op {
                    ParamOperator::RePower => self.power(s, &args[0], k(0)?, k(0)?)?,
                    ParamOperator::ReLoop => {
                        if k(0)? > k(1)? {
                            false
                        } else {
                            self.power(s, &args[0], k(0)?, k(1)?)?
                        }
                    }
                    _ => return Err(Ev::Unknown),
                }
            }
            _ => return Err(Ev::Unknown),
        })
    }
    fn power(&mut self, s: &[char], r: &Term, lo: i64, hi: i64) -> Result<bool, Ev> {
        if hi <= 0 {
            return Ok(s.is_empty());
        }
        if lo <= 0 && s.is_empty() {
            return Ok(true);
        }
        if hi > 12 {
            return Err(Ev::Unknown);
        }
        for i in 0..=s.len() {
            if self.in_re(&s[..i], r)? && self.power(&s[i..], r, lo - 1, hi - 1)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn star(&mut self, s: &[char], r: &Term, depth: usize) -> Result<bool, Ev> {
        if s.is_empty() {
            return Ok(true);
        }
        if depth > 12 {
            return Err(Ev::Unknown);
        }
        for i in 1..=s.len() {
            if self.in_re(&s[..i], r)? && self.star(&s[i..], r, depth + 1)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn cat(&mut self, s: &[char], rs: &[T]) -> Result<bool, Ev> {
        let Some((r, rest)) = rs.split_first() else { return Ok(s.is_empty()) };
        for i in 0..=s.len() {
            if self.in_re(&s[..i], r)? && self.cat(&s[i..], rest)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
}

fn find(a: &[char], b: &[char], from: usize) -> Option<usize> {
    if b.len() > a.len() {
        return None;
    }
    (from..=a.len() - b.len()).find(|&i| &a[i..i + b.len()] == b)
}

/// Free variables (name, sort) of a term, in order of first occurrence.
pub fn free_vars(t: &Term, bound: &mut Vec<(String, Srt)>, out: &mut Vec<(String, Srt)>) {
    match t {
        Term::Const(_) | Term::Sort(_) => {}
        Term::Var(n, s) => {
            let k = (n.clone(), srt(s));
            if !bound.contains(&k) && !out.contains(&k) {
                out.push(k);
            }
        }
        Term::App(f, a) => {
            free_vars(f, bound, out);
            a.iter().for_each(|x| free_vars(x, bound, out));
        }
        Term::Op(_, a) | Term::ParamOp { args: a, .. } => a.iter().for_each(|x| free_vars(x, bound, out)),
        Term::Binder(_, bl, b) => {
            let k = bound.len();
            bound.extend(bl.iter().map(|(n, s)| (n.clone(), srt(s))));
            free_vars(b, bound, out);
            bound.truncate(k);
        }
        Term::Let(bl, b) => {
            bl.iter().for_each(|(_, v)| free_vars(v, bound, out));
            let k = bound.len();
            bound.extend(bl.iter().map(|(n, v)| (n.clone(), sort_of(v, true).unwrap_or(Srt::Other("?".into())))));
            free_vars(b, bound, out);
            bound.truncate(k);
        }
    }
}

pub fn fv(ts: &[&T]) -> Vec<(String, Srt)> {
    let mut out = Vec::new();
    let mut b = Vec::new();
    for t in ts {
        free_vars(t, &mut b, &mut out);
    }
    out
}

pub struct Falsify {
    pub counter: Option<String>,
    pub interps: u64,
    pub decided: u64,
    pub truncated: bool,
}

pub fn show_v(v: &V) -> String {
    match v {
        V::B(b) => b.to_string(),
        V::N(Q(n, 1)) => n.to_string(),
        V::N(Q(n, d)) => format!("{n}/{d}"),
        V::BV(v, w) => format!("bv{v}:{w}"),
        V::S(s) => format!("{:?}", s.iter().collect::<String>()),
        V::U(i) => format!("u{i}"),
        V::F(f) | V::A(f) => {
            let mut s = String::from("{");
            for (k, v) in &f.table {
                s.push_str(&format!("{}->{};", k.0, show_v(v)));
            }
            s + "}"
        }
    }
}

/// Enumerates every assignment of the given variables over the domains, calling `f` with the
/// model; stops when `f` returns true. Returns (assignments visited, truncated?, stopped?).
pub fn for_all_models(
    doms: &Doms,
    vars: &[(String, Srt)],
    cap: u64,
    f: &mut dyn FnMut(&mut Model) -> bool,
) -> (u64, bool, bool) {
    let mut lists: Vec<Vec<V>> = Vec::new();
    for (_, s) in vars {
        match doms.values(s) {
            Some(v) => lists.push(v),
            None => lists.push(vec![]),
        }
    }
    // Regular languages and other non-enumerable sorts stay uninterpreted (lookups fail)
    let idxs: Vec<usize> = (0..vars.len()).filter(|&i| !lists[i].is_empty()).collect();
    let mut truncated = false;
    // shrink the largest lists until the product fits in the cap
    loop {
        let prod = idxs.iter().fold(1u64, |a, &i| a.saturating_mul(lists[i].len() as u64));
        if prod <= cap {
            break;
        }
        let &big = idxs.iter().max_by_key(|&&i| lists[i].len()).unwrap();
        let n = lists[big].len();
        if n <= 2 {
            break;
        }
        truncated = true;
        // drop every fourth element (keeps spread)
        let keep: Vec<V> = lists[big]
            .iter()
            .enumerate()
            .filter(|(i, _)| n < 4 || i % 4 != 3)
            .map(|(_, v)| v.clone())
            .collect();
        lists[big] = if keep.len() == n { keep[..n - 1].to_vec() } else { keep };
    }
    let mut ctr = vec![0usize; idxs.len()];
    let mut m = Model::new(doms);
    let mut visited = 0;
    loop {
        m.env.clear();
        for (k, &i) in idxs.iter().enumerate() {
            m.env.push((vars[i].0.clone(), vars[i].1.clone(), lists[i][ctr[k]].clone()));
        }
        visited += 1;
        if f(&mut m) {
            return (visited, truncated, true);
        }
        if visited >= cap {
            return (visited, true, false);
        }
        let mut k = 0;
        loop {
            if k == idxs.len() {
                return (visited, truncated, false);
            }
            ctr[k] += 1;
            if ctr[k] < lists[idxs[k]].len() {
                break;
            }
            ctr[k] = 0;
            k += 1;
        }
    }
}

/// Searches exhaustively (within the domains) for an interpretation that makes every premise
/// clause true and the conclusion clause false.
pub fn falsify(premises: &[Vec<T>], concl: &[T], doms: &[Doms], cap: u64) -> Falsify {
    let mut all: Vec<&T> = Vec::new();
    for p in premises {
        all.extend(p.iter());
    }
    all.extend(concl.iter());
    let vars = fv(&all);
    let mut res = Falsify { counter: None, interps: 0, decided: 0, truncated: false };
    for d in doms {
        let mut counter = None;
        let mut decided = 0;
        let (n, tr, _) = for_all_models(d, &vars, cap, &mut |m| {
            for p in premises {
                let mut ok = false;
                for l in p {
                    match m.boolean(l) {
                        Ok(true) => {
                            ok = true;
                            break;
                        }
                        Ok(false) => {}
                        Err(_) => return false, // undecided: cannot be used
                    }
                }
                if !ok {
                    decided += 1;
                    return false;
                }
            }
            for l in concl {
                match m.boolean(l) {
                    Ok(true) => {
                        decided += 1;
                        return false;
                    }
                    Ok(false) => {}
                    Err(_) => return false,
                }
            }
            decided += 1;
            counter = Some(
                m.env
                    .iter()
                    .map(|(n, _, v)| format!("{n}={}", show_v(v)))
                    .collect::<Vec<_>>()
                    .join(" "),
            );
            true
        });
        res.interps += n;
        res.decided += decided;
        res.truncated |= tr;
        if counter.is_some() {
            res.counter = counter;
            return res;
        }
    }
    res
}
