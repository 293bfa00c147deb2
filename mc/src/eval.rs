//! C09: the ground evaluator, on every operator and every operand in small sorts (and boundary
//! operands in larger ones), against the reference semantics.
use crate::core::*;
use crate::rules::Tally;
use crate::sem::*;
use carcara::ast::*;
use carcara::checker::Config;

const DECLS: &str = "(declare-const p Bool)(declare-const i Int)(declare-const u Real)(declare-const s String)\
(declare-const x (_ BitVec 1))(declare-const y (_ BitVec 2))(declare-const z (_ BitVec 3))";

fn bits(v: u128, w: usize) -> String {
    let mut s = String::from("#b");
    for i in (0..w).rev() {
        s.push(if (v >> i) & 1 == 1 { '1' } else { '0' });
    }
    s
}

fn boundary(w: usize) -> Vec<String> {
    let m = mask(w);
    let h = 1u128 << (w - 1);
    let mut v = vec![0, 1, 2, 3, w as u128 - 1, w as u128, w as u128 + 1, h - 1, h, h + 1, m - 1, m];
    v.sort();
    v.dedup();
    v.iter().map(|x| bits(*x & m, w)).collect()
}

fn prod(lists: &[&[String]]) -> Vec<Vec<String>> {
    let mut out = vec![vec![]];
    for l in lists {
        out = out
            .iter()
            .flat_map(|p: &Vec<String>| {
                l.iter().map(move |x| {
                    let mut p = p.clone();
                    p.push(x.clone());
                    p
                })
            })
            .collect();
    }
    out
}

struct Job {
    name: String,
    head: String,
    args: Vec<Vec<String>>,
    /// values to claim as the result, one after the other
    claims: Vec<String>,
}

const BV2: [&str; 25] = [
    "bvand", "bvor", "bvxor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvnand", "bvnor", "bvxnor", "bvcomp",
    "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt",
];

fn jobs(thorough: bool) -> Vec<Job> {
    let mut out = Vec::new();
    let strs = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let b = strs(&["true", "false"]);
    let mut ints: Vec<String> = (-9..=9i64).map(|k| if k < 0 { format!("(- {})", -k) } else { k.to_string() }).collect();
    ints.extend(strs(&["-5", "63", "64", "100", "18446744073709551615", "18446744073709551616", "(- 18446744073709551616)", "4294967296"]));
    let small_ints: Vec<String> = strs(&["0", "1", "2", "3", "7", "(- 1)", "-2", "(- 3)", "(- 7)"]);
    let reals = strs(&["0.0", "1.0", "2.0", "0.5", "1.5", "(- 1.0)", "(- 0.5)", "(- 1.5)", "-2.5", "(/ 1.0 3.0)", "(/ (- 7.0) 3.0)", "7.25"]);
    let bools = strs(&["true", "false"]);
    let int_claims: Vec<String> = (-9..=9i64).map(|k| k.to_string()).collect();
    let real_claims = strs(&["0.0", "1.0", "-1.0", "0.5", "-0.5", "1/2", "-1/2", "2.0", "-2.0", "3.0", "-3.0"]);
    let none: Vec<String> = vec![];
    let mut add = |head: &str, lists: &[&[String]], claims: &[String]| {
        out.push(Job {
            name: format!("{head}/{}", lists.len()),
            head: head.to_string(),
            args: prod(lists),
            claims: claims.to_vec(),
        })
    };
    add("not", &[&b], &bools);
    for op in ["=>", "and", "or", "xor", "=", "distinct"] {
        for n in 1..=4 {
            let l: Vec<&[String]> = vec![&b; n];
            add(op, &l, &bools);
        }
    }
    add("ite", &[&b, &b, &b], &bools);
    // arithmetic
    for op in ["+", "-", "*", "div", "mod", "<", "<=", ">", ">=", "=", "distinct", "/"] {
        let cl = if matches!(op, "+" | "-" | "*" | "div" | "mod") { &int_claims } else if op == "/" { &none } else { &bools };
        add(op, &[&ints, &ints], cl);
        add(op, &[&small_ints, &small_ints, &small_ints], cl);
        if op == "div" || op == "mod" || op == "/" {
            continue;
        }
        let cl = if matches!(op, "+" | "-" | "*") { &real_claims } else { &bools };
        add(op, &[&reals, &reals], cl);
        add(op, &[&ints, &reals], cl);
        add(op, &[&reals, &ints], cl);
    }
    add("/", &[&reals, &reals], &real_claims);
    add("/", &[&reals, &ints], &real_claims);
    add("/", &[&reals, &reals, &reals], &real_claims);
    add("ite", &[&b, &ints, &ints], &none);
    add("ite", &[&b, &reals, &reals], &none);
    for op in ["-", "abs", "to_real", "int.log2", "int.ispow2"] {
        add(op, &[&ints], if op == "int.ispow2" { &bools } else { &int_claims });
    }
    let mut pow = small_ints.clone();
    pow.extend(strs(&["64", "90", "1000", "18446744073709551616", "1000000000000000000", "99999999999"]));
    add("int.pow2", &[&pow], &int_claims);
    for op in ["-", "abs", "to_int", "is_int"] {
        add(op, &[&reals], if op == "is_int" { &bools } else if op == "to_int" { &int_claims } else { &real_claims });
    }
    // bit-vectors, every value
    let maxw = if thorough { 5 } else { 4 };
    let all = |w: usize| (0..1u128 << w).map(|v| bits(v, w)).collect::<Vec<_>>();
    let vs: Vec<Vec<String>> = (0..=6).map(|w| if w == 0 { vec![] } else { all(w) }).collect();
    for w in 1..=maxw {
        let v = &vs[w];
        let cl: &[String] = if w <= 3 { v } else { &none };
        for op in BV2.iter().chain(&["bvsge", "=", "distinct"]) {
            let pred = matches!(*op, "=" | "distinct") || op.starts_with("bvu") && op.len() == 5 || op.starts_with("bvs") && op.len() == 5;
            let c: &[String] = if pred { &bools } else if *op == "bvcomp" { &vs[1] } else { cl };
            add(op, &[v, v], c);
        }
        if w <= 3 {
            for op in ["bvand", "bvor", "bvxor", "bvadd", "bvmul", "distinct", "="] {
                add(op, &[v, v, v], cl);
            }
        }
        add("ite", &[&b, v, v], cl);
        for op in ["bvnot", "bvneg", "ubv_to_int", "sbv_to_int", "@bvsize"] {
            add(op, &[v], if op.starts_with("bv") { cl } else { &int_claims });
        }
        for w2 in 1..=maxw {
            if w + w2 <= if thorough { 8 } else { 6 } {
                add("concat", &[v, &vs[w2]], if w + w2 <= 4 { &vs[w + w2] } else { &none });
            }
        }
        for k in 0..=(2 * w + 1) {
            for op in ["zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat", "@bit_of", "@int_of"] {
                add(&format!("(_ {op} {k})"), &[v], &[]);
            }
            for j in 0..=k {
                let n = k - j + 1;
                add(&format!("(_ extract {k} {j})"), &[v], if n <= 3 { &vs[n] } else { &none });
            }
        }
        add(&format!("(_ int_to_bv {w})"), &[&ints], cl);
        let ws = strs(&["1", "2", "3", "8", "(- 1)", "0"]);
        add("@bv", &[&small_ints, &ws], &[]);
        let bl: Vec<&[String]> = vec![&b; w];
        add("@bbterm", &bl, cl);
        let zo = strs(&["0", "1"]);
        let bl: Vec<&[String]> = vec![&zo; w];
        add("@pbbterm", &bl, cl);
    }
    add("concat", &[&vs[1], &vs[2], &vs[1]], &vs[4]);
    for w in [8, 31, 32, 33, 63, 64, 65, 100] {
        let v = boundary(w);
        for op in BV2.iter().chain(&["bvsge", "=", "distinct"]) {
            add(op, &[&v, &v], &[]);
        }
        for op in ["bvnot", "bvneg", "ubv_to_int", "sbv_to_int", "@bvsize"] {
            add(op, &[&v], &[]);
        }
        for k in [0, 1, w - 1, w, w + 1, 2 * w, 3 * w + 1] {
            for op in ["zero_extend", "sign_extend", "rotate_left", "rotate_right"] {
                add(&format!("(_ {op} {k})"), &[&v], &[]);
            }
        }
        for (i, j) in [(0, 0), (w - 1, 0), (w - 1, w - 1), (w - 1, 1), (w / 2, w / 3), (1, 1)] {
            add(&format!("(_ extract {i} {j})"), &[&v], &[]);
        }
        add(&format!("(_ int_to_bv {w})"), &[&ints], &[]);
    }
    // huge indices and widths
    let one = strs(&["#b1", "#b10", "#b0"]);
    for k in ["4294967295", "4294967296", "18446744073709551616", "99999999999999", "-1", "(- 1)", "1000"] {
        for op in ["zero_extend", "sign_extend", "rotate_left", "rotate_right", "@bit_of", "@int_of"] {
            add(&format!("(_ {op} {k})"), &[&one], &[]);
        }
        add(&format!("(_ extract {k} 0)"), &[&one], &[]);
        add(&format!("(_ extract {k} {k})"), &[&one], &[]);
    }
    // strings and arrays: left alone or right
    let ss = strs(&["\"\"", "\"a\"", "\"ab\"", "\"7\"", "\"a7\""]);
    for op in ["str.++", "str.<", "str.<=", "str.prefixof", "str.suffixof", "str.contains", "=", "distinct"] {
        add(op, &[&ss, &ss], &bools);
    }
    for op in ["str.len", "str.is_digit", "str.to_code", "str.to_int"] {
        add(op, &[&ss], &int_claims);
    }
    add("str.at", &[&ss, &small_ints], &ss);
    add("str.substr", &[&ss, &small_ints, &small_ints], &ss);
    add("str.from_code", &[&small_ints], &ss);
    add("str.from_int", &[&small_ints], &ss);
    add("str.replace", &[&ss, &ss, &ss], &ss);
    add("str.replace_all", &[&ss, &ss, &ss], &ss);
    add("str.indexof", &[&ss, &ss, &small_ints], &int_claims);
    // operators under operators, over constants and variables
    let a1: Vec<String> = vec!["i".into(), "2".into(), "(- 3)".into(), "(+ 1 2)".into(), "(- (- 1))".into(), "(* i 0)".into(), "(mod (- 7) 2)".into(),
        "(div 1 0)".into(), "(abs (- 4))".into(), "(ite p 1 2)".into(), "(to_int (- 0.5))".into()];
    for op in ["+", "-", "*", "div", "mod", "<", "<=", "=", "distinct"] {
        add(op, &[&a1, &a1], &[]);
    }
    let a2: Vec<String> = vec!["u".into(), "0.0".into(), "(- 1.5)".into(), "(/ 1.0 0.0)".into(), "(/ 2.0 4.0)".into(), "(to_real 3)".into(), "(+ u 0.0)".into(), "(/ 3 2)".into()];
    for op in ["+", "-", "*", "/", "<", "<=", "=", "distinct"] {
        add(op, &[&a2, &a2], &[]);
        add(op, &[&a1, &a2], &[]);
    }
    let bv2: Vec<String> = vec!["y".into(), "#b00".into(), "#b10".into(), "(bvneg #b01)".into(), "(bvnot #b00)".into(), "(concat #b1 #b0)".into(), "(bvsub #b00 #b01)".into(), "(bvand y #b00)".into(),
        "((_ extract 2 1) #b101)".into(), "(bvsmod #b10 #b01)".into(), "(bvmul #b10 #b11)".into(), "(bvsdiv #b10 #b00)".into(), "(_ bv9 2)".into(), "(_ bv2 2)".into()];
    for op in BV2.iter().chain(&["bvsge", "=", "distinct"]) {
        add(op, &[&bv2, &bv2], &[]);
    }
    let bl: Vec<String> = vec!["p".into(), "true".into(), "(not false)".into(), "(= 1 2)".into(), "(< 1 2 3)".into(), "(and p false)".into(), "(= y #b00)".into(),
        "(forall ((p Bool)) (or p (= 1 1)))".into(), "(let ((p true)) (and p (= 1 2)))".into(), "(= 0.5 (/ 1.0 2.0))".into()];
    for op in ["and", "or", "=>", "xor", "=", "distinct"] {
        add(op, &[&bl, &bl], &[]);
        add(op, &[&bl, &bl, &bl], &[]);
    }
    add("ite", &[&bl, &bl, &bl], &[]);
    add("not", &[&bl], &[]);
    out
}

pub fn run(rep: &Report, thorough: bool) {
    let js = jobs(thorough);
    let ds: Vec<Doms> = [0, 5]
        .iter()
        .map(|k| {
            let mut d = Doms::std();
            d.div0 = Some(*k);
            d
        })
        .collect();
    // The equality holds under truncating `mod`, and only under it
    const MOD_KEY: &str = "class evaluate gives mod the sign of the dividend";
    let trunc: Vec<Doms> = ds
        .iter()
        .map(|d| {
            let mut d = d.clone();
            d.trunc_mod = true;
            d
        })
        .collect();
    par(&js, |j| {
        let mut t = Tally::new();
        let mut env = Env::new(DECLS);
        let claims: Vec<T> = j.claims.iter().filter_map(|c| env.try_terms(&[c]).ok()).flatten().collect();
        let mut texts: Vec<String> = j.args.iter().map(|a| format!("({} {})", j.head, a.join(" "))).collect();
        texts.sort();
        texts.dedup();
        for x in &texts {
            let term = match guard(|| env.try_terms(&[x])) {
                Ok(Ok(v)) => v[0].clone(),
                Ok(Err(_)) => {
                    t.inc("texts_rejected_by_parser", 1);
                    continue;
                }
                Err(p) => {
                    rep.violation(x, &format!("parsing panics: {p}"));
                    continue;
                }
            };
            t.inc("evaluations", 1);
            let r = match guard(|| term.evaluate(&mut env.pool)) {
                Ok(r) => r,
                Err(p) => {
                    rep.violation(&format!("evaluate {x}"), &format!("panics: {p}"));
                    continue;
                }
            };
            let mut goals = vec![r.clone()];
            if term == r {
                t.inc("left_unevaluated", 1);
            } else {
                t.distinct.insert(hash_of(&show(&term)));
                t.inc(&format!("evaluated_{}", j.head.split(' ').nth(1).unwrap_or(&j.head)), 1);
            }
            if sort_of(&term, true).is_err() {
                t.inc("ill_sorted_skipped", 1);
                continue;
            }
            let s = sort_of(&term, true);
            goals.extend(claims.iter().filter(|c| **c != r && sort_of(c, true) == s).cloned());
            for g in goals {
                let eq = env.eq(&term, &g);
                let spec = Spec { rule: "evaluate".into(), premises: vec![], clause: vec![eq.clone()], args: vec![] };
                t.inc("steps_checked", 1);
                let out = check_spec(&mut env, &spec, &Config::new());
                match out {
                    Out::Panic(p) => rep.violation(&spec.key(), &format!("panics: {p}")),
                    Out::Reject(e) => {
                        if g == r && term != r {
                            rep.violation(&spec.key(), &format!("the value is not accepted: {e}"));
                        }
                    }
                    Out::Accept => {
                        t.inc("steps_accepted", 1);
                        if g == term {
                            continue;
                        }
                        let f = falsify(&[], &[eq.clone()], &ds, 20000);
                        t.inc("interpretations_evaluated", f.interps);
                        if f.decided == 0 {
                            t.inc("undecided", 1);
                            if std::env::var("MC_UNDEC").is_ok() {
                                eprintln!("undecided {}", spec.key().chars().take(300).collect::<String>());
                            }
                        }
                        if let Some(c) = f.counter {
                            let key = match falsify(&[], &[eq], &trunc, 20000) {
                                g if g.decided > 0 && g.counter.is_none() => MOD_KEY.to_string(),
                                _ => spec.key(),
                            };
                            rep.violation(&key, &format!("accepted, but the sides differ {c}: {}", spec.key()));
                        }
                    }
                }
            }
        }
        t.flush(rep);
    });
    rep.sample(format!("{} operator/width groups, e.g. {} over {} operand tuples", js.len(), js[0].name, js[0].args.len()));
}
