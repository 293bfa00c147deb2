//! C25: the problems generated for unchecked arithmetic steps. The text of each problem is read by a
//! reader of its own, for plain SMT-LIB only, and compared with what the original texts say, read by
//! the same reader: the declarations must be the same, and in every interpretation the assertions
//! must hold exactly when the clause does not.
use crate::cat_arith::doms;
use crate::core::*;
use crate::rules::Tally;
use crate::sem::{show, Doms, Srt, T};
use carcara::ast::*;
use carcara::parser;
use rug::{Integer, Rational};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
enum X {
    Sym(String),
    /// a word that is not a symbol of SMT-LIB
    Odd(String),
    Key(String),
    Int(Integer),
    Dec(Rational),
    Str(String),
    L(Vec<X>),
}
use X::{Key, L, Odd, Sym};

const RESERVED: &[&str] = &["!", "_", "as", "exists", "forall", "let", "match", "par", "lambda", "BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING"];
const COMMANDS: &[&str] = &[
    "assert", "check-sat", "check-sat-assuming", "declare-const", "declare-datatype", "declare-datatypes", "declare-fun", "declare-sort", "define-fun",
    "define-fun-rec", "define-funs-rec", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-proof",
    "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset", "reset-assertions", "set-info", "set-logic", "set-option",
];

/// With `alethe`, numbers may have signs.
fn read(text: &str, alethe: bool) -> Result<Vec<X>, String> {
    let mut stack: Vec<Vec<X>> = vec![vec![]];
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let mut atom = None;
        match c {
            _ if c.is_whitespace() => i += 1,
            ';' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            '(' => {
                stack.push(vec![]);
                i += 1;
            }
            ')' => {
                let l = stack.pop().unwrap();
                stack.last_mut().ok_or("too many parentheses")?.push(L(l));
                i += 1;
            }
            '|' => {
                let n = cs[i + 1..].iter().position(|c| *c == '|').ok_or("open symbol")?;
                let s: String = cs[i + 1..i + 1 + n].iter().collect();
                if s.contains('\\') {
                    return Err(format!("symbol |{s}|"));
                }
                atom = Some(Sym(s));
                i += n + 2;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match (cs.get(i), cs.get(i + 1)) {
                        (Some('"'), Some('"')) => {
                            s.push('"');
                            i += 2;
                        }
                        (Some('"'), _) => {
                            i += 1;
                            break;
                        }
                        (Some(c), _) => {
                            s.push(*c);
                            i += 1;
                        }
                        (None, _) => return Err("open string".into()),
                    }
                }
                atom = Some(X::Str(s));
            }
            _ => {
                let mut w = String::new();
                while i < cs.len() && !cs[i].is_whitespace() && !"()\"|;".contains(cs[i]) {
                    w.push(cs[i]);
                    i += 1;
                }
                let signed = alethe && w.len() > 1 && w.starts_with('-') && w[1..].starts_with(|c: char| c.is_ascii_digit());
                atom = Some(if signed { Odd(w) } else { word(w) });
            }
        }
        if let Some(a) = atom {
            stack.last_mut().ok_or("too many parentheses")?.push(a);
        }
    }
    if stack.len() != 1 {
        return Err("parentheses do not match".into());
    }
    Ok(stack.pop().unwrap())
}

fn word(w: String) -> X {
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    let numeral = |s: &str| digits(s) && (s == "0" || !s.starts_with('0'));
    if let Some(k) = w.strip_prefix(':') {
        return Key(k.into());
    }
    if numeral(&w) {
        return X::Int(w.parse().unwrap());
    }
    if let Some((a, b)) = w.split_once('.') {
        if numeral(a) && digits(b) {
            let den = Integer::from(Integer::u_pow_u(10, b.len() as u32));
            return X::Dec(Rational::from((format!("{a}{b}").parse::<Integer>().unwrap(), den)));
        }
    }
    let simple = |c: char| c.is_ascii_alphanumeric() || "~!@$%^&*_-+=<>.?/".contains(c);
    let taken = COMMANDS.contains(&w.as_str()) || RESERVED.contains(&w.as_str());
    if !w.starts_with(|c: char| c.is_ascii_digit()) && w.chars().all(simple) && !taken {
        Sym(w)
    } else {
        Odd(w)
    }
}

/// Reads terms; with `alethe`, also the numbers that only Alethe has.
#[derive(Clone, Default)]
struct Reader {
    alethe: bool,
    sorts: BTreeMap<String, usize>,
    funs: BTreeMap<String, T>,
    /// Definitions that are to be expanded: parameters and body.
    macros: HashMap<String, (Vec<(String, T)>, X)>,
    names: HashMap<String, T>,
}

struct Term_<'a> {
    r: &'a mut Reader,
    pool: &'a mut PrimitivePool,
    scope: Vec<(String, T)>,
}

impl Reader {
    fn sort(&self, pool: &mut PrimitivePool, x: &X) -> Result<T, String> {
        let s = match x {
            Sym(s) if self.sorts.get(s) == Some(&0) => Sort::Atom(s.as_str().into(), vec![].into()),
            Sym(s) => match s.as_str() {
                "Bool" => Sort::Bool,
                "Int" => Sort::Int,
                "Real" => Sort::Real,
                _ => return Err(format!("sort {s} is not declared")),
            },
            L(v) => match v.split_first() {
                Some((Sym(h), a)) if a.len() > 0 && self.sorts.get(h) == Some(&a.len()) => {
                    let a = a.iter().map(|y| self.sort(pool, y)).collect::<Result<Vec<_>, _>>()?;
                    Sort::Atom(h.as_str().into(), a.into())
                }
                _ => return Err(format!("sort {x:?}")),
            },
            _ => return Err(format!("sort {x:?}")),
        };
        Ok(pool.add(Term::Sort(s)))
    }

    fn term(&mut self, pool: &mut PrimitivePool, x: &X) -> Result<T, String> {
        Term_ { r: self, pool, scope: vec![] }.term(x)
    }

    fn declare(&mut self, name: &str, sort: T) -> Result<(), String> {
        if self.funs.insert(name.into(), sort).is_some() {
            return Err(format!("{name} is declared twice"));
        }
        Ok(())
    }
}

impl Term_<'_> {
    fn var(&mut self, s: &str) -> Result<T, String> {
        if let Some((_, t)) = self.scope.iter().rev().find(|b| b.0 == s) {
            return Ok(t.clone());
        }
        if let Some(t) = self.r.names.get(s) {
            return Ok(t.clone());
        }
        if let Some((params, body)) = self.r.macros.get(s).cloned() {
            return if params.is_empty() { self.expand(&[], &body, vec![]) } else { Err(format!("{s} without arguments")) };
        }
        match self.r.funs.get(s) {
            Some(sort) => {
                let sort = sort.clone();
                Ok(self.pool.add(Term::Var(s.into(), sort)))
            }
            None => Err(format!("symbol {s} is not declared")),
        }
    }

    /// The body of a definition, for these arguments.
    fn expand(&mut self, params: &[(String, T)], body: &X, args: Vec<T>) -> Result<T, String> {
        let outer = std::mem::take(&mut self.scope);
        self.scope = params.iter().zip(args).map(|(p, a)| (p.0.clone(), a)).collect();
        let t = self.term(body);
        self.scope = outer;
        t
    }

    /// Signs and fractions of numbers are numbers, however they are written.
    fn op(&mut self, o: Operator, args: Vec<T>) -> T {
        let number = |t: &T| match t.as_ref() {
            Term::Const(c @ (Constant::Integer(_) | Constant::Real(_))) => Some(c.clone()),
            _ => None,
        };
        match (o, args.iter().map(number).collect::<Option<Vec<_>>>().as_deref()) {
            (Operator::Sub, Some([Constant::Integer(n)])) => return self.pool.add(Term::Const(Constant::Integer(-n.clone()))),
            (Operator::Sub, Some([Constant::Real(q)])) => return self.pool.add(Term::Const(Constant::Real(-q.clone()))),
            (Operator::RealDiv, Some([Constant::Real(a), Constant::Real(b)])) if *b != 0 => {
                let q = Rational::from(a / b);
                return self.pool.add(Term::Const(Constant::Real(q)));
            }
            _ => {}
        }
        self.pool.add(Term::Op(o, args))
    }

    fn term(&mut self, x: &X) -> Result<T, String> {
        match x {
            X::Int(n) => Ok(self.pool.add(Term::Const(Constant::Integer(n.clone())))),
            X::Dec(q) => Ok(self.pool.add(Term::Const(Constant::Real(q.clone())))),
            Odd(w) if self.r.alethe => {
                // a number with a sign or as a fraction
                let (sign, rest) = w.strip_prefix('-').map_or((1, w.as_str()), |r| (-1, r));
                let c = if let Some((a, b)) = rest.split_once('/') {
                    let (a, b): (Integer, Integer) = (a.parse().map_err(|_| w.clone())?, b.parse().map_err(|_| w.clone())?);
                    Constant::Real(Rational::from((a, b)) * sign)
                } else {
                    match word(rest.to_string()) {
                        X::Int(n) => Constant::Integer(n * sign),
                        X::Dec(q) => Constant::Real(q * sign),
                        _ => return Err(format!("word {w}")),
                    }
                };
                Ok(self.pool.add(Term::Const(c)))
            }
            Sym(s) if ["true", "false"].contains(&s.as_str()) && !self.scope.iter().any(|b| b.0 == *s) && !self.r.funs.contains_key(s) => {
                Ok(self.op(if s == "true" { Operator::True } else { Operator::False }, vec![]))
            }
            Sym(s) => self.var(s),
            L(v) => self.list(v),
            X::Str(_) | Odd(_) | Key(_) => Err(format!("{x:?} is not a term")),
        }
    }

    fn bindings(&mut self, x: &X) -> Result<Vec<(String, T)>, String> {
        let L(v) = x else { return Err("variables".into()) };
        if v.is_empty() {
            return Err("no variables".into());
        }
        v.iter()
            .map(|b| match b {
                L(b) => match b.as_slice() {
                    [Sym(n), s] => Ok((n.clone(), self.r.sort(self.pool, s)?)),
                    _ => Err("a variable".into()),
                },
                _ => Err("a variable".into()),
            })
            .collect()
    }

    fn list(&mut self, v: &[X]) -> Result<T, String> {
        let (head, rest) = v.split_first().ok_or("an empty list")?;
        let h = match head {
            Sym(h) => h,
            Odd(h) if RESERVED.contains(&h.as_str()) => return self.special(h, rest),
            _ => return Err(format!("{head:?} is applied")),
        };
        self.application(h, rest)
    }

    fn special(&mut self, h: &str, rest: &[X]) -> Result<T, String> {
        match (h, rest) {
            ("!", [t, Key(k), Sym(n)]) if k == "named" => {
                let t = self.term(t)?;
                let taken = self.r.funs.contains_key(n) || self.r.names.contains_key(n) || self.r.macros.contains_key(n);
                if taken || self.scope.iter().any(|b| b.0 == *n) || n.starts_with('@') || n.starts_with('.') {
                    return Err(format!("the name {n} is taken or reserved"));
                }
                let bound: Vec<String> = crate::sem::fv(&[&t]).into_iter().map(|v| v.0).collect();
                if bound.iter().any(|b| !self.r.funs.contains_key(b) || self.scope.iter().any(|s| s.0 == *b)) {
                    return Err(format!("{n} names a term that is not closed"));
                }
                self.r.names.insert(n.clone(), t.clone());
                return Ok(t);
            }
            ("!", _) => return Err("an annotation".into()),
            ("forall" | "exists", [b, body]) => {
                let b = self.bindings(b)?;
                let n = self.scope.len();
                for (x, s) in &b {
                    let v = self.pool.add(Term::Var(x.clone(), s.clone()));
                    self.scope.push((x.clone(), v));
                }
                let body = self.term(body)?;
                self.scope.truncate(n);
                let q = if h == "forall" { Binder::Forall } else { Binder::Exists };
                return Ok(self.pool.add(Term::Binder(q, BindingList(b), body)));
            }
            ("let", [L(b), body]) => {
                if b.is_empty() {
                    return Err("an empty let".into());
                }
                let mut values = vec![];
                for x in b {
                    let L(x) = x else { return Err("a let".into()) };
                    let [Sym(n), t] = x.as_slice() else { return Err("a let".into()) };
                    values.push((n.clone(), self.term(t)?));
                }
                // a name is its value, as far as the meaning goes
                let n = self.scope.len();
                self.scope.extend(values);
                let body = self.term(body);
                self.scope.truncate(n);
                return body;
            }
            _ => Err(format!("{h} with {rest:?}")),
        }
    }

    fn application(&mut self, h: &str, rest: &[X]) -> Result<T, String> {
        let args: Vec<T> = rest.iter().map(|y| self.term(y)).collect::<Result<_, _>>()?;
        let hidden = self.scope.iter().any(|b| b.0 == h) || self.r.funs.contains_key(h);
        if !hidden {
            if let Some((params, body)) = self.r.macros.get(h).cloned() {
                return self.expand(&params, &body, args);
            }
        }
        use Operator as O;
        let o = match h {
            _ if hidden => None,
            "not" => Some(O::Not),
            "and" => Some(O::And),
            "or" => Some(O::Or),
            "=>" => Some(O::Implies),
            "xor" => Some(O::Xor),
            "=" => Some(O::Equals),
            "distinct" => Some(O::Distinct),
            "ite" => Some(O::Ite),
            "+" => Some(O::Add),
            "-" => Some(O::Sub),
            "*" => Some(O::Mult),
            "div" => Some(O::IntDiv),
            "/" => Some(O::RealDiv),
            "mod" => Some(O::Mod),
            "abs" => Some(O::Abs),
            "<" => Some(O::LessThan),
            ">" => Some(O::GreaterThan),
            "<=" => Some(O::LessEq),
            ">=" => Some(O::GreaterEq),
            "to_real" => Some(O::ToReal),
            "to_int" => Some(O::ToInt),
            "is_int" => Some(O::IsInt),
            _ => None,
        };
        match o {
            Some(o) => Ok(self.op(o, args)),
            None => {
                let f = self.var(h)?;
                if args.is_empty() {
                    return Err(format!("{h} is applied to nothing"));
                }
                Ok(self.pool.add(Term::App(f, args)))
            }
        }
    }
}

struct Read {
    logic: Option<String>,
    reader: Reader,
    asserts: Vec<T>,
}

/// Reads a problem; the definitions in it are declarations, or expanded.
fn problem(pool: &mut PrimitivePool, text: &str, expand: bool) -> Result<Read, String> {
    let mut out = Read { logic: None, reader: Reader::default(), asserts: vec![] };
    let mut checked = false;
    let mut ended = false;
    for c in read(text, false)? {
        if ended {
            return Err("commands after the end".into());
        }
        let L(c) = c else { return Err(format!("{c:?} is not a command")) };
        let Some((head, rest)) = c.split_first() else { return Err("an empty command".into()) };
        let name = match head {
            Odd(w) | Sym(w) => w.as_str(),
            _ => return Err("not a command".into()),
        };
        let r = &mut out.reader;
        match (name, rest) {
            ("set-logic", [Sym(l)]) if out.logic.is_none() && r.funs.is_empty() && r.sorts.is_empty() => out.logic = Some(l.clone()),
            ("declare-sort", [Sym(s), X::Int(n)]) => {
                if ["Bool", "Int", "Real", "String", "RegLan", "BitVec", "Array"].contains(&s.as_str()) || r.sorts.insert(s.clone(), n.to_usize().unwrap()).is_some() {
                    return Err(format!("sort {s} is declared twice"));
                }
            }
            ("declare-fun", [Sym(f), L(args), s]) => {
                let mut sorts: Vec<T> = args.iter().map(|a| r.sort(pool, a)).collect::<Result<_, _>>()?;
                let s = r.sort(pool, s)?;
                let s = if sorts.is_empty() {
                    s
                } else {
                    sorts.push(s);
                    pool.add(Term::Sort(Sort::Function(sorts)))
                };
                r.declare(f, s)?;
            }
            ("declare-const", [Sym(f), s]) => {
                let s = r.sort(pool, s)?;
                r.declare(f, s)?;
            }
            ("define-fun", [Sym(f), L(params), s, body]) => {
                let mut ps = vec![];
                for p in params {
                    let L(p) = p else { return Err("a parameter".into()) };
                    let [Sym(n), s] = p.as_slice() else { return Err("a parameter".into()) };
                    ps.push((n.clone(), r.sort(pool, s)?));
                }
                let s = r.sort(pool, s)?;
                if expand {
                    r.macros.insert(f.clone(), (ps, body.clone()));
                } else if ps.is_empty() {
                    r.declare(f, s)?;
                } else {
                    let mut sorts: Vec<T> = ps.into_iter().map(|p| p.1).collect();
                    sorts.push(s);
                    let s = pool.add(Term::Sort(Sort::Function(sorts)));
                    r.declare(f, s)?;
                }
            }
            ("assert", [t]) if !checked => {
                let t = r.term(pool, t)?;
                out.asserts.push(t);
            }
            ("check-sat", []) if !checked => checked = true,
            ("exit", []) if checked => ended = true,
            _ => return Err(format!("command {name}")),
        }
    }
    if !checked {
        return Err("nothing is asked".into());
    }
    Ok(out)
}

#[derive(Clone, Copy, Default)]
struct Opt {
    sharing: bool,
    cfg: parser::Config,
    /// Integer and real numbers may be mixed.
    mixed: bool,
    /// The problem may be one that is not well-formed.
    lenient: bool,
}

/// One literal list as a step, compared with its generated problem.
fn one(rep: &Report, t: &mut Tally, decls: &str, expected: &[(String, Vec<String>)], proof: &str, opt: Opt, doms: &[Doms]) {
    let key = format!(
        "{}{}{}{}{} {} | {}",
        if opt.sharing { "sharing " } else { "" },
        if opt.cfg.apply_function_defs { "defs " } else { "" },
        if opt.cfg.expand_lets { "lets " } else { "" },
        if opt.cfg.allow_int_real_subtyping { "subtyping " } else { "" },
        if opt.cfg.strict { "strict " } else { "" },
        decls,
        proof.trim()
    );
    t.inc("evaluations", 1);
    rep.case(|| key.clone());
    let text = format!("{decls}(check-sat)\n");
    let result = guard(|| carcara::generate_lia_smt_instances(text.as_bytes(), proof.as_bytes(), None, opt.cfg, opt.sharing));
    let got = match result {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => {
            // nothing is generated from what does not parse
            t.inc("not a proof", 1);
            t.inc(&format!("not a proof: {}", e.to_string().chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>()), 0);
            return;
        }
        Err(p) => return rep.violation(&key, &format!("generating panics: {p}")),
    };
    t.distinct.insert(hash_of(&key));
    let ids: Vec<&String> = got.iter().map(|g| &g.0).collect();
    let want: Vec<&String> = expected.iter().map(|g| &g.0).collect();
    if ids != want {
        return rep.violation(&key, &format!("problems for the steps {ids:?} instead of {want:?}"));
    }
    let mut pool = PrimitivePool::new();
    let original = match problem(&mut pool, &text, opt.cfg.apply_function_defs) {
        Ok(p) => p,
        // a symbol that is declared twice, or the name of something else
        Err(_) if opt.lenient => return t.inc("not a problem", 1),
        Err(e) => panic!("the reader does not know {text}: {e}"),
    };
    for ((_, new), (id, clause)) in got.iter().zip(expected) {
        t.inc("generated problems", 1);
        let read = match problem(&mut pool, new, false) {
            Ok(r) => r,
            Err(e) => {
                rep.violation(&key, &format!("the problem for `{id}` is not well-formed: {e}\n{new}"));
                continue;
            }
        };
        if read.logic.as_deref() != Some(original.logic.as_deref().unwrap_or("ALL")) {
            rep.violation(&key, &format!("the problem for `{id}` has another logic\n{new}"));
        }
        if read.reader.sorts != original.reader.sorts || read.reader.funs != original.reader.funs {
            rep.violation(&key, &format!("the problem for `{id}` has other declarations\n{new}"));
            continue;
        }
        let mut reader = Reader { alethe: true, ..original.reader.clone() };
        let mut literals = vec![];
        for l in clause {
            let x = self::read(l, true).unwrap_or_else(|e| panic!("{l}: {e}"));
            literals.push(reader.term(&mut pool, &x[0]).unwrap_or_else(|e| panic!("the reader does not know {l}: {e}")));
        }
        for a in read.asserts.iter().chain(&literals) {
            if crate::sem::sort_of(a, opt.mixed) != Ok(Srt::Bool) {
                rep.violation(&key, &format!("the problem for `{id}` asserts an ill-sorted formula {}\n{new}", show(a)));
            }
        }
        let negated: BTreeSet<String> = literals.iter().map(|l| format!("(not {})", show(l))).collect();
        let asserted: BTreeSet<String> = read.asserts.iter().map(|a| show(a)).collect();
        if negated == asserted {
            t.inc("the same formulas", 1);
            continue;
        }
        t.inc("compared by meaning", 1);
        if let Some(m) = differs(&read.asserts, &literals, doms) {
            rep.violation(&key, &format!("the problem for `{id}` differs from the clause {m}\n{new}"));
        }
    }
}

/// An interpretation in which the assertions hold together with the clause, or both do not.
fn differs(asserts: &[T], clause: &[T], doms: &[Doms]) -> Option<String> {
    let all: Vec<&T> = asserts.iter().chain(clause).collect();
    let vars = crate::sem::fv(&all);
    let mut found = None;
    let mut decided = 0;
    for d in doms {
        crate::sem::for_all_models(d, &vars, 20_000, &mut |m| {
            let mut holds = true;
            for a in asserts {
                match m.boolean(a) {
                    Ok(b) => holds &= b,
                    Err(_) => return false,
                }
            }
            let mut clause_holds = false;
            for l in clause {
                match m.boolean(l) {
                    Ok(b) => clause_holds |= b,
                    Err(_) => return false,
                }
            }
            decided += 1;
            if holds == clause_holds {
                found = Some(if holds { "where both hold".to_string() } else { "where neither holds".to_string() });
            }
            found.is_some()
        });
        if found.is_some() {
            break;
        }
    }
    if found.is_none() && decided == 0 {
        return Some("in form, and no interpretation decides them".into());
    }
    found
}

const DECLS: &str = "(declare-sort U 0)\n(declare-const x Int)\n(declare-const y Int)\n(declare-const r Real)\n(declare-const p Bool)\n(declare-const a U)\n\
(declare-fun f (Int) Int)\n(declare-fun P (Int Bool) Bool)\n(declare-fun g (U Real) U)\n";

fn step(id: &str, clause: &[String], rule: &str) -> String {
    format!("(step {id} (cl {}) :rule {rule})\n", clause.join(" "))
}

fn options() -> Vec<Opt> {
    let mut v = vec![];
    for sharing in [false, true] {
        for (defs, lets) in [(false, false), (true, false), (false, true), (true, true)] {
            v.push(Opt {
                sharing,
                cfg: parser::Config { apply_function_defs: defs, expand_lets: lets, ..parser::Config::new() },
                mixed: false,
                lenient: false,
            });
        }
    }
    v
}

pub fn run(rep: &Report, thorough: bool) {
    formulas(rep, thorough);
    names(rep, thorough);
    definitions(rep, thorough);
    places(rep, thorough);
}

/// Every literal of a grammar, alone and in clauses.
fn formulas(rep: &Report, thorough: bool) {
    let strs = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    let int0 = strs(&["x", "y", "0", "7", "-5", "(- 1)", "12345678901234567890123", "-0"]);
    let real0 = strs(&["r", "0.0", "1.50", "1/3", "-1/2", "-2.0", "(- 0.5)", "0.125", "4/2", "100000000000000000000.000001"]);
    let mut int1 = vec![];
    let mut real1 = vec![];
    for a in &int0 {
        for op in ["-", "abs", "f"] {
            int1.push(format!("({op} {a})"));
        }
        real1.push(format!("(to_real {a})"));
        for b in &int0 {
            for op in ["+", "-", "*", "div", "mod"] {
                int1.push(format!("({op} {a} {b})"));
            }
        }
        int1.push(format!("(+ {a} y 1)"));
        int1.push(format!("(- {a} 1 x)"));
        int1.push(format!("(ite p {a} x)"));
    }
    for a in &real0 {
        real1.push(format!("(- {a})"));
        int1.push(format!("(to_int {a})"));
        for b in &real0 {
            for op in ["+", "-", "*", "/"] {
                real1.push(format!("({op} {a} {b})"));
            }
        }
    }
    let mut atoms: Vec<String> = strs(&["p", "true", "false", "(P x p)", "(= a a)", "(= (g a r) a)", "(distinct a (g a 1.5))"]);
    for (zero, one) in [(&int0, &int1), (&real0, &real1)] {
        for op in ["<", "<=", ">", ">=", "=", "distinct"] {
            for a in zero.iter() {
                for b in zero.iter() {
                    atoms.push(format!("({op} {a} {b})"));
                }
                atoms.push(format!("({op} {a} {} {a})", zero[0]));
            }
            for (i, a) in one.iter().enumerate() {
                atoms.push(format!("({op} {a} {})", zero[0]));
                if thorough {
                    for b in one.iter() {
                        atoms.push(format!("({op} {a} {b})"));
                    }
                } else {
                    atoms.push(format!("({op} {a} {})", one[(i * 7 + 3) % one.len()]));
                }
            }
        }
    }
    for a in &real1 {
        atoms.push(format!("(is_int {a})"));
    }
    let few: Vec<String> = strs(&["p", "(< x y)", "(= r 0.5)", "(P (f x) (< x y))"]);
    let mut bools: Vec<String> = vec![];
    for a in &few {
        for op in ["forall", "exists"] {
            for b in ["((x Int))", "((x Int) (y Int))", "((x Bool))", "((z Int) (p Bool))", "((r Real) (z U))"] {
                if b != "((x Bool))" || a == "p" {
                    bools.push(format!("({op} {b} {a})"));
                    bools.push(format!("({op} {b} (or {a} (not {a}) (= x x)))"));
                    bools.push(format!("(and {a} ({op} {b} (=> {a} {a})) {a})"));
                }
            }
        }
        bools.push(format!("(let ((z {a})) (and z z))"));
        bools.push(format!("(let ((x (f x)) (y x)) {a})"));
        bools.push(format!("(let ((x (f (f x)))) (and {a} (< x (f (f x)))))"));
        bools.push(format!("(not (not {a}))"));
        for b in &few {
            for op in ["and", "or", "=>", "xor", "=", "distinct"] {
                bools.push(format!("({op} {a} {b})"));
                bools.push(format!("({op} (not {a}) {b} {a})"));
            }
            bools.push(format!("(ite {a} {b} p)"));
            bools.push(format!("(P (ite {a} x y) {b})"));
        }
    }
    let mut clauses: Vec<Vec<String>> = vec![vec![]];
    for a in atoms.iter().chain(&bools) {
        clauses.push(vec![a.clone()]);
        clauses.push(vec![format!("(not {a})"), a.clone()]);
    }
    let mut some: Vec<String> = bools.iter().step_by(if thorough { 3 } else { 9 }).cloned().collect();
    some.extend(atoms.iter().step_by(atoms.len() / if thorough { 60 } else { 24 }).cloned());
    for a in &some {
        for b in &some {
            clauses.push(vec![a.clone(), b.clone()]);
            clauses.push(vec![a.clone(), format!("(not {b})"), format!("(and {a} {b})")]);
        }
    }
    rep.add("clauses", clauses.len() as u64);
    rep.sample(clauses[clauses.len() / 2].join(" "));
    let doms = doms();
    let logics = ["", "(set-logic QF_LIRA)\n"];
    let chunks: Vec<&[Vec<String>]> = clauses.chunks(64).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for c in chunk.iter() {
            for opt in options() {
                if opt.cfg.apply_function_defs || opt.cfg.expand_lets && !c.iter().any(|l| l.contains("(let ")) {
                    continue;
                }
                for logic in if thorough { &logics[..] } else { &logics[..1] } {
                    one(rep, &mut t, &format!("{logic}{DECLS}"), &[("t".into(), c.clone())], &step("t", c, "lia_generic"), opt, &doms);
                }
            }
        }
        t.flush(rep);
    });
    // integers and reals together, where that is allowed
    let mut mixed: Vec<Vec<String>> = vec![];
    let nums: Vec<String> = int0.iter().chain(&real0).cloned().collect();
    for op in ["<", "=", "+", "*", "/", "-"] {
        for a in &nums {
            for b in &nums {
                let t = format!("({op} {a} {b})");
                mixed.push(vec![if op == "<" || op == "=" { t } else { format!("(< {t} r)") }]);
            }
        }
    }
    let chunks: Vec<&[Vec<String>]> = mixed.chunks(64).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for c in chunk.iter() {
            for logic in ["", "(set-logic QF_LRA)\n", "(set-logic QF_LIA)\n"] {
                for sharing in [false, true] {
                    for sub in [true, false] {
                        let cfg = parser::Config { allow_int_real_subtyping: sub, ..parser::Config::new() };
                        one(rep, &mut t, &format!("{logic}{DECLS}"), &[("t".into(), c.clone())], &step("t", c, "lia_generic"), Opt { sharing, cfg, mixed: true, lenient: false }, &doms);
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// Every symbol as a constant, function, sort, bound variable and step.
fn names(rep: &Report, thorough: bool) {
    let all: Vec<String> = crate::print::symbols(thorough).into_iter().filter(|s| !s.contains('\\') && s != "cl" && s != "Type").collect();
    let all: BTreeSet<String> = all.into_iter().chain(COMMANDS.iter().chain(RESERVED).map(|s| s.to_string())).collect();
    let all: Vec<String> = all.into_iter().collect();
    rep.add("symbols", all.len() as u64);
    let doms = doms();
    par(&all, |s| {
        let mut t = Tally::new();
        let q = format!("|{s}|");
        let v = |c: &[&str]| -> Vec<String> { c.iter().map(|l| l.replace('%', &q)).collect() };
        let texts: Vec<(String, Vec<String>)> = vec![
            (format!("(declare-const {q} Int)\n"), v(&["(< % x)", "(= (+ % 1) (+ % 1))", "(< (+ % 1) (* 2 (+ % 1)))"])),
            (format!("(declare-const {q} Bool)\n"), v(&["%", "(not %)", "(and % (not %))"])),
            (format!("(declare-fun {q} (Int) Int)\n"), v(&["(< (% x) (% (% x)))", "(< (% x) (% (% x)))"])),
            (format!("(declare-fun {q} (Int Int) Bool)\n"), v(&["(% x y)", "(not (% x y))"])),
            (format!("(declare-sort {q} 0)\n(declare-const k {q})\n"), v(&["(= k k)", "(forall ((z %)) (= z k))"])),
            (format!("(declare-sort {q} 1)\n(declare-const k ({q} Int))\n"), v(&["(= k k)", "(forall ((z (% Int))) (= z k))"])),
            (String::new(), v(&["(forall ((% Int)) (< (f %) x))", "(exists ((% Int) (z Bool)) (and (P % z) (P % z)))"])),
            (String::new(), v(&["(let ((% (f x))) (< % (f x)))", "(let ((% p) (z x)) (P z %))"])),
            (format!("(declare-const {q} Int)\n"), v(&["(forall ((% Int)) (< (f %) x))", "(< (f %) (+ (f %) (f (f x)) (f (f x))))"])),
        ];
        for (d, c) in texts {
            for opt in options() {
                let opt = Opt { lenient: true, ..opt };
                if !opt.cfg.apply_function_defs && (!opt.cfg.expand_lets || c[0].starts_with("(let")) {
                    one(rep, &mut t, &format!("{DECLS}{d}"), &[("t".into(), c.clone())], &step("t", &c, "lia_generic"), opt, &doms);
                }
            }
        }
        let c = v(&["(< x x)", "(P (f x) p)"]);
        for sharing in [false, true] {
            let opt = Opt { sharing, ..Opt::default() };
            one(rep, &mut t, DECLS, &[(s.clone(), c.clone())], &step(&q, &c, "lia_generic"), opt, &doms);
        }
        t.flush(rep);
    });
}

/// Definitions in the problem, kept or expanded, and in the proof.
fn definitions(rep: &Report, thorough: bool) {
    let defs = [
        "(define-fun d () Int (+ x 1))",
        "(define-fun d () Bool (P x p))",
        "(define-fun d ((y Int)) Int (+ x y))",
        "(define-fun d ((x Int) (p Bool)) Bool (P (f x) p))",
        "(define-fun d () Int (f (f x)))\n(define-fun e () Int (+ d (f d)))",
        "(define-fun d ((y Int)) Int (f y))\n(define-fun e ((x Int)) Int (d (d x)))",
        "(define-fun d () Bool (forall ((x Int)) (< x y)))",
    ];
    let bodies = [
        "(< d x)", "d", "(not d)", "(< (d x) (d (d y)))", "(d x p)", "(d (f x) (d y p))", "(< e d)", "(= (+ e e) (+ e e))", "(< (e (d x)) (e y))",
        "(forall ((x Int)) (< (d x) y))", "(forall ((x Int)) (< x d))", "(forall ((y Int)) (or d (< y x)))", "(let ((x d)) (< x d))", "(exists ((d Int)) (< d x))",
        "(forall ((y Int)) (< (d y) (d x)))", "(let ((y (d x))) (< (d y) y))",
    ];
    let doms = doms();
    let mut work = vec![];
    for d in defs {
        for (i, a) in bodies.iter().enumerate() {
            work.push((d, vec![a.to_string()]));
            for b in &bodies[if thorough { 0 } else { i }..] {
                work.push((d, vec![a.to_string(), b.to_string()]));
            }
        }
    }
    par(&work, |(d, c)| {
        let mut t = Tally::new();
        for opt in options() {
            // a bound variable must not capture what the definition mentions; the reader would
            let captured = d.contains("(+ x") || d.contains("(f (f x))") || d.contains("x 1");
            if opt.cfg.apply_function_defs && captured && c.iter().any(|l| l.contains("((x ") || l.contains("((d ")) {
                continue;
            }
            one(rep, &mut t, &format!("{DECLS}{d}\n"), &[("t".into(), c.clone())], &step("t", c, "lia_generic"), opt, &doms);
        }
        t.flush(rep);
    });
}

/// Several steps, at every place of a proof.
fn places(rep: &Report, thorough: bool) {
    #[derive(Clone)]
    enum Item {
        Lia(usize),
        Other,
        Sub(Vec<Item>),
    }
    fn lists(n: usize, nest: usize) -> Vec<Vec<Item>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for k in 1..=n {
            let mut first = vec![];
            if k == 1 {
                first.extend([Item::Lia(0), Item::Lia(1), Item::Lia(2), Item::Other]);
            }
            if nest > 0 {
                first.extend(lists(k - 1, nest - 1).into_iter().map(Item::Sub));
            }
            for rest in lists(n - k, nest) {
                for f in &first {
                    out.push([vec![f.clone()], rest.clone()].concat());
                }
            }
        }
        out
    }
    let clauses: [Vec<String>; 3] = [
        vec!["(< (f (f x)) (f (f x)))".into(), "(not (< (f x) y))".into()],
        vec!["(< (f (f x)) (f (f x)))".into(), "(P (f (f x)) (< (f x) y))".into()],
        vec![],
    ];
    fn write(items: &[Item], prefix: &str, clauses: &[Vec<String>; 3], out: &mut String, top: &mut Vec<(String, Vec<String>)>) {
        for (i, it) in items.iter().enumerate() {
            let id = format!("{prefix}t{i}");
            match it {
                Item::Lia(k) => {
                    *out += &step(&id, &clauses[*k], "lia_generic");
                    if prefix.is_empty() {
                        top.push((id, clauses[*k].clone()));
                    }
                }
                Item::Other => *out += &step(&id, &clauses[0], "hole"),
                Item::Sub(body) => {
                    *out += &format!("(anchor :step {id})\n(assume {id}.h p)\n");
                    write(body, &format!("{id}."), clauses, out, top);
                    *out += &format!("(step {id}.e (cl (= a a)) :rule refl)\n(step {id} (cl (not p) (= a a)) :rule subproof :discharge ({id}.h))\n");
                }
            }
        }
    }
    let n = if thorough { 5 } else { 4 };
    let all: Vec<Vec<Item>> = (0..=n).flat_map(|k| lists(k, 2)).collect();
    rep.add("proofs with several steps", all.len() as u64);
    let doms = doms();
    let chunks: Vec<&[Vec<Item>]> = all.chunks(64).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for items in chunk.iter() {
            let (mut proof, mut top) = (String::new(), vec![]);
            write(items, "", &clauses, &mut proof, &mut top);
            for sharing in [false, true] {
                one(rep, &mut t, DECLS, &top, &proof, Opt { sharing, ..Opt::default() }, &doms);
            }
        }
        t.flush(rep);
    });
    // a step that ends a subproof is inside it
    let mut t = Tally::new();
    let proof = "(anchor :step s)\n(assume s.h p)\n(step s.t (cl (< x x)) :rule lia_generic)\n(step s (cl (not p) (< x x)) :rule lia_generic)\n(step u (cl (< y y)) :rule lia_generic)\n";
    one(rep, &mut t, DECLS, &[("u".into(), vec!["(< y y)".into()])], proof, Opt::default(), &doms);
    t.flush(rep);
}
