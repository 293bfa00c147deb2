//! aci_simp and ac_simp: all pairs of small terms of every operator that the rules normalize (C01,
//! C11). The oracles are the values of both sides, and a reference normal form.
use crate::core::*;
use crate::rules::*;
use crate::sem::*;
use carcara::checker::Config;

const DECLS: &str = "(declare-const p Bool)(declare-const q Bool)(declare-const x (_ BitVec 2))(declare-const y (_ BitVec 2))(declare-const z (_ BitVec 1))\
(declare-const i Int)(declare-const j Int)(declare-const u Real)(declare-const v Real)";

struct Group {
    op: &'static str,
    other: &'static str,
    leaves: &'static [&'static str],
    identity: Option<&'static str>,
    idempotent: bool,
    commutative: bool,
}

const BV: &[&str] = &["x", "y", "#b00", "#b01", "#b11"];
const GROUPS: &[Group] = &[
    Group { op: "and", other: "(or p q)", leaves: &["p", "q", "true", "false"], identity: Some("true"), idempotent: true, commutative: true },
    Group { op: "or", other: "(and p q)", leaves: &["p", "q", "true", "false"], identity: Some("false"), idempotent: true, commutative: true },
    Group { op: "bvand", other: "(bvor x y)", leaves: BV, identity: Some("#b11"), idempotent: true, commutative: true },
    Group { op: "bvor", other: "(bvand x y)", leaves: BV, identity: Some("#b00"), idempotent: true, commutative: true },
    Group { op: "bvxor", other: "(bvor x y)", leaves: BV, identity: Some("#b00"), idempotent: false, commutative: true },
    Group { op: "bvadd", other: "(bvmul x y)", leaves: BV, identity: Some("#b00"), idempotent: false, commutative: true },
    Group { op: "bvmul", other: "(bvadd x y)", leaves: BV, identity: Some("#b01"), idempotent: false, commutative: true },
    Group { op: "concat", other: "(bvnot x)", leaves: &["x", "y", "z", "#b0"], identity: None, idempotent: false, commutative: false },
    Group { op: "+", other: "(* i j)", leaves: &["i", "j", "0", "1"], identity: Some("0"), idempotent: false, commutative: true },
    Group { op: "*", other: "(+ i j)", leaves: &["i", "j", "0", "1"], identity: Some("1"), idempotent: false, commutative: true },
    Group { op: "+", other: "(* u v)", leaves: &["u", "v", "0.0", "1.0"], identity: Some("0.0"), idempotent: false, commutative: true },
    Group { op: "*", other: "(+ u v)", leaves: &["u", "v", "0.0", "1.0"], identity: Some("1.0"), idempotent: false, commutative: true },
    // not associative and commutative: nothing may happen
    Group { op: "xor", other: "(or p q)", leaves: &["p", "q", "true"], identity: None, idempotent: false, commutative: false },
    Group { op: "bvsub", other: "(bvor x y)", leaves: &["x", "y", "#b00"], identity: None, idempotent: false, commutative: false },
    Group { op: "-", other: "(+ i j)", leaves: &["i", "j", "0"], identity: None, idempotent: false, commutative: false },
    Group { op: "=>", other: "(or p q)", leaves: &["p", "q", "true"], identity: None, idempotent: false, commutative: false },
];

/// A term, and the leaves below it if all the operators in it are the group's.
struct X {
    text: String,
    leaves: Vec<String>,
    is_op: bool,
    simple: bool,
}

fn terms(g: &Group) -> Vec<X> {
    let leaf = |t: &str, simple: bool| X { text: t.into(), leaves: vec![t.into()], is_op: false, simple };
    let mut leaves: Vec<X> = g.leaves.iter().map(|l| leaf(l, true)).collect();
    leaves.push(leaf(g.other, false));
    let op = |xs: &[&X]| X {
        text: format!("({} {})", g.op, xs.iter().map(|x| x.text.as_str()).collect::<Vec<_>>().join(" ")),
        leaves: xs.iter().flat_map(|x| x.leaves.clone()).collect(),
        is_op: true,
        simple: xs.iter().all(|x| x.simple),
    };
    let three = !["bvsub"].contains(&g.op);
    let mut out = vec![];
    for a in &leaves {
        for b in &leaves {
            let ab = op(&[a, b]);
            for c in &leaves {
                if three {
                    out.push(op(&[a, b, c]));
                }
                out.push(op(&[&ab, c]));
                out.push(op(&[c, &ab]));
            }
            out.push(ab);
        }
    }
    out.extend(leaves);
    out
}

/// What aci_simp makes of a term, as the sequence (or multiset) of what remains.
fn normal(g: &Group, x: &X) -> Vec<String> {
    if !x.is_op {
        return x.leaves.clone();
    }
    let mut v: Vec<String> = vec![];
    for l in &x.leaves {
        if g.identity == Some(l.as_str()) || (g.idempotent && v.contains(l)) {
            continue;
        }
        v.push(l.clone());
    }
    if v.is_empty() {
        v.push(g.identity.unwrap().into());
    }
    if g.commutative {
        v.sort();
    }
    v
}

pub fn run(rep: &Report, complete: bool, thorough: bool) {
    let mut jobs: Vec<(&Group, usize)> = vec![];
    for g in GROUPS {
        jobs.extend((0..terms(g).len()).map(|i| (g, i)));
    }
    par(&jobs, |(g, i)| {
        let mut t = Tally::new();
        let ts = terms(g);
        let mut env = Env::new(DECLS);
        let left = &ts[*i];
        let doms = [Doms { u: 1, int: vec![-1, 0, 1, 2], real: vec![Q(-1, 1), Q(0, 1), Q(1, 2), Q(2, 1)], ..Doms::std() }];
        for right in &ts {
            let size = |x: &X| x.leaves.len();
            if !thorough && size(left) + size(right) > 5 {
                continue;
            }
            let text = format!("(= {} {})", left.text, right.text);
            let Ok(cl) = env.try_terms(&[&text]) else { continue };
            for rule in ["aci_simp", "ac_simp"] {
                if complete && rule == "ac_simp" {
                    continue;
                }
                t.inc("pairs of terms", 1);
                t.inc("evaluations", 1);
                let s = Spec { rule: rule.into(), premises: vec![], clause: cl.clone(), args: vec![] };
                rep.case(|| format!("{rule} {text}"));
                let key = format!("{rule} {text}");
                match check_spec(&mut env, &s, &Config::new()) {
                    Out::Panic(p) => rep.violation(&key, &format!("panics: {p}")),
                    Out::Accept if !complete => {
                        t.inc("pairs accepted", 1);
                        t.distinct.insert(hash_of(&key));
                        let f = falsify(&[], &cl, &doms, 20_000);
                        if let Some(m) = f.counter {
                            rep.violation(&key, &format!("accepted, but false in {m:?}"));
                        }
                    }
                    Out::Reject(e) if complete && g.commutative && left.simple && right.simple => {
                        if left.is_op && normal(g, left) == normal(g, right) && (right.is_op || size(left) > 1) {
                            rep.violation(&key, &format!("both sides have the normal form {:?}, but the step is rejected {e}", normal(g, left)));
                        }
                    }
                    _ => {
                        if complete {
                            t.distinct.insert(hash_of(&key));
                        }
                    }
                }
            }
        }
        t.flush(rep);
    });
}
