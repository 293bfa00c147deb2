#![allow(dead_code, unused_imports)]
mod aci;
mod binder;
mod bv;
mod cat_arith;
mod cat_bool;
mod cat_eq;
mod cat_quant;
mod clauses;
mod cli;
mod core;
mod crash;
mod elab;
mod equality;
mod eval;
mod explore;
mod lia;
mod metrics;
mod mutate;
mod names;
mod parallel;
mod parse;
mod pb;
mod print;
mod rare;
mod rules;
mod sem;
mod strict;
mod strs;
mod slices;
mod solver;
mod structure;
use crate::core::*;

fn c01(thorough: bool) -> i32 {
    let r = Report::new("C01", tier(thorough), "exploration");
    r.rule("distinct accepted steps (rule, premises, conclusion, arguments) decided by evaluating every interpretation in the finite space");
    rules::run_family(&r, &cat_bool::bool_family(thorough), thorough);
    aci::run(&r, false, thorough);
    r.finish()
}

fn c02(thorough: bool) -> i32 {
    let r = Report::new("C02", tier(thorough), "exploration");
    r.rule("every step over the stated clause alphabets (plus edit neighbourhoods of canonical steps); non-trivial = accepted, with premises or arguments, decided by its full truth table");
    clauses::run(&r, clauses::Mode::Sound, thorough);
    rules::run_family(&r, &clauses::family(), thorough);
    r.finish()
}

fn families(thorough: bool) -> Vec<rules::Family> {
    vec![
        cat_bool::bool_family(thorough),
        clauses::family(),
        cat_eq::family(thorough),
        cat_arith::family(thorough),
        cat_quant::family(thorough),
        bv::family(thorough),
        pb::family(thorough),
        pb::cp_family(thorough),
        strs::family(thorough),
    ]
}

fn c19(thorough: bool) -> i32 {
    let r = Report::new("C19", tier(thorough), "exploration");
    r.rule("every step within edit distance 1 (2 where small) of the canonical instances of every rule, including ill-sorted and mixed-sort steps; non-trivial = distinct steps of the distance-1 neighbourhoods");
    for f in families(thorough) {
        rules::run_crash(&r, &f, thorough);
    }
    crash::run(&r, thorough);
    r.finish()
}

fn c11(thorough: bool) -> i32 {
    let r = Report::new("C11", tier(thorough), "exploration");
    r.rule("every correct instance (by a reference implementation of the rule) in the stated spaces must be accepted");
    clauses::run(&r, clauses::Mode::Complete, thorough);
    cat_arith::la_generic(&r, true, thorough);
    bv::run(&r, true, thorough);
    pb::cutting_planes(&r, true, thorough);
    pb::widths(&r, true, thorough);
    binder::complete(&r);
    equality::run_alpha(&r, thorough);
    strs::explore(&r, true, thorough);
    aci::run(&r, true, thorough);
    for f in families(thorough) {
        rules::run_canonical(&r, &f);
    }
    r.finish()
}

fn c03(thorough: bool) -> i32 {
    let r = Report::new("C03", tier(thorough), "exploration");
    r.rule(NEIGH);
    rules::run_family(&r, &cat_eq::family(thorough), thorough);
    r.finish()
}

fn c04(thorough: bool) -> i32 {
    let r = Report::new("C04", tier(thorough), "exploration");
    r.rule(NEIGH);
    cat_arith::la_generic(&r, false, thorough);
    rules::run_family(&r, &cat_arith::family(thorough), thorough);
    r.finish()
}

fn c05(thorough: bool) -> i32 {
    let r = Report::new("C05", tier(thorough), "exploration");
    r.rule("distinct (operator, widths, operand shapes) cases whose accepted circuit was compared with the operation on every operand value (boundary values for large widths)");
    bv::run(&r, false, thorough);
    rules::run_family(&r, &bv::family(thorough), thorough);
    r.finish()
}

fn c06(thorough: bool) -> i32 {
    let r = Report::new("C06", tier(thorough), "exploration");
    r.rule("every cutting-planes step over the stated coefficient, literal and bound grids, and edit neighbourhoods of canonical steps; non-trivial = distinct accepted steps, each decided on every 0/1 assignment and operand value");
    r.assume("the bits listed in an explicit @pbbterm, the operands of the ith_bit rules and the literals of inequalities range over {0, 1}");
    pb::cutting_planes(&r, false, thorough);
    pb::widths(&r, false, thorough);
    rules::run_family(&r, &pb::family(thorough), thorough);
    rules::run_family(&r, &pb::cp_family(thorough), thorough);
    r.finish()
}

fn c09(thorough: bool) -> i32 {
    let r = Report::new("C09", tier(thorough), "exploration");
    r.rule("every operator on every tuple of operands from the stated sorts, and operators under operators; non-trivial = distinct ground terms the evaluator changes, whose value is compared with the reference semantics");
    eval::run(&r, thorough);
    r.finish()
}

fn c10(thorough: bool) -> i32 {
    let r = Report::new("C10", tier(thorough), "exploration");
    r.rule("every rule of the set with every tuple of arguments of the pools and every single edit of its instance, and every rule file with one token changed; non-trivial = distinct accepted steps, compared with an independent instantiation and, for valid rules, with the semantics");
    rare::run(&r, thorough);
    r.finish()
}

fn c23(thorough: bool) -> i32 {
    let r = Report::new("C23", tier(thorough), "exploration");
    r.rule("every combination of up to the stated number of command-line options on every case of the corpus, run as a process; non-trivial = distinct (command, options, case), whose output, exit status and files are compared with the library's answer");
    cli::run(&r, thorough);
    r.finish()
}

fn c16(thorough: bool) -> i32 {
    let r = Report::new("C16", tier(thorough), "fault_enumeration");
    r.rule("every step that calls a solver under every behaviour of a stand-in program: every way to exit and every kind of output, proofs of many shapes, and every cut and every edit of one token in them; non-trivial = distinct (step, pass, behaviour)");
    r.assume("the solver ends, and reads its input unless it ends without doing so");
    solver::run(&r, thorough);
    r.finish()
}

fn c25(thorough: bool) -> i32 {
    let r = Report::new("C25", tier(thorough), "exploration");
    r.rule("every clause of the grammar, every symbol in every position, every definition and every proof tree up to the stated size; non-trivial = distinct (declarations, proof, options) whose generated problems were read back by an independent reader and compared with the clause, literally or in every interpretation of the finite spaces");
    lia::run(&r, thorough);
    r.finish()
}

fn c14(thorough: bool) -> i32 {
    let r = Report::new("C14", tier(thorough), "model_checking");
    r.rule("every proof tree up to the stated size, distributed over every number of threads and checked under every schedule with at most the stated number of preemptions; non-trivial = distinct (proof, thread count, preemption bound) explorations");
    parallel::run(&r, thorough);
    r.finish()
}

fn c18(thorough: bool) -> i32 {
    let r = Report::new("C18", tier(thorough), "exploration");
    r.rule("every text of the stated grammars is parsed by the real parser and by a reference; non-trivial = distinct well-formed texts whose meaning was compared");
    parse::run(&r, thorough);
    r.finish()
}

fn c17(thorough: bool) -> i32 {
    let r = Report::new("C17", tier(thorough), "exploration");
    r.rule("every proof text of the stated grammars is parsed, printed with and without sharing, parsed again in the same and in another pool, and printed again; non-trivial = distinct texts that are proofs");
    print::run(&r, thorough);
    r.finish()
}

fn c26(thorough: bool) -> i32 {
    let r = Report::new("C26", tier(thorough), "exploration");
    r.rule("every history of measurements up to the stated length, every distribution of it over the workers, and every shape and order of merging; non-trivial = distinct (history, distribution, merge tree) triples");
    metrics::run(&r, thorough);
    r.finish()
}

fn c24(thorough: bool) -> i32 {
    let r = Report::new("C24", tier(thorough), "exploration");
    r.rule("every step of the edit neighbourhoods, every resolution step over small alphabets, every assumption, context and proof of the stated spaces in both modes of the parser and the checker; non-trivial = distinct cases that a strict mode accepts");
    strict::run(&r, thorough);
    r.finish()
}

fn c12(thorough: bool) -> i32 {
    let r = Report::new("C12", tier(thorough), "model_checking");
    r.rule("states are proof prefixes of the structural model; every transition, accepting or rejecting, is replayed as text against the real parser and checker");
    structure::run(&r, false, thorough);
    r.finish()
}

fn c13(thorough: bool) -> i32 {
    let r = Report::new("C13", tier(thorough), "model_checking");
    r.rule("states are proof prefixes of the structural model with unchecked steps, under every combination of --ignore-unknown-rules and --allowed-rules; every transition is replayed as text against the real parser and both checkers");
    structure::run(&r, true, thorough);
    r.finish()
}

fn c07(thorough: bool) -> i32 {
    let r = Report::new("C07", tier(thorough), "exploration");
    r.rule("every step over the stated concatenations, regular expressions and forms of conclusion, and the edit neighbourhoods of canonical steps; non-trivial = distinct accepted steps, each decided on every assignment of the strings over {a, b} up to length 3 (and integers from -2 to 7), in the order and up to the number stated");
    r.assume("integers bound by quantifiers range over -2..7, which includes every length of the strings of the space");
    strs::explore(&r, false, thorough);
    rules::run_family(&r, &strs::family(thorough), thorough);
    r.finish()
}

fn c08(thorough: bool) -> i32 {
    let r = Report::new("C08", tier(thorough), "exploration");
    r.rule("every nest of at most two contexts over the stated anchor arguments, inner refl steps and closing steps, and edit neighbourhoods of canonical quantifier steps; non-trivial = distinct accepted proofs whose exported conclusion was evaluated in every interpretation");
    binder::run(&r, thorough);
    binder::edits(&r, thorough);
    rules::run_family(&r, &cat_quant::family(thorough), thorough);
    r.finish()
}

fn c15(thorough: bool) -> i32 {
    let r = Report::new("C15", tier(thorough), "exploration");
    r.rule("every accepted proof of the stated spaces under every sequence of elaboration passes of the stated lengths; non-trivial = distinct accepted proofs that were elaborated");
    for f in families(thorough) {
        elab::family(&r, &f, thorough);
    }
    elab::binders(&r);
    elab::chains(&r, thorough);
    elab::structures(&r, thorough);
    clauses::run(&r, clauses::Mode::Elaborate, thorough);
    r.finish()
}

fn c22(thorough: bool) -> i32 {
    let r = Report::new("C22", tier(thorough), "exploration");
    r.rule("every accepted proof of the stated spaces sliced at every command and at every stated depth, written, read back and checked; non-trivial = distinct accepted proofs that were sliced");
    slices::long(&r);
    slices::binders(&r);
    slices::structures(&r, thorough);
    for f in families(thorough) {
        slices::family(&r, &f);
    }
    r.finish()
}

fn c20(thorough: bool) -> i32 {
    let r = Report::new("C20", tier(thorough), "exploration");
    r.rule("every ordered pair of terms of the stated universes under all 16 comparison modes, and every history of up to three constructions over three pools; non-trivial = distinct pairs of different terms judged equal, and pool histories");
    equality::run_pairs(&r, thorough);
    equality::run_pools(&r, thorough);
    r.finish()
}

fn c21(thorough: bool) -> i32 {
    let r = Report::new("C21", tier(thorough), "exploration");
    r.rule("every term of the stated nesting grammar under every listed substitution, with a fresh substitution and with one whose cache has seen all previous terms; non-trivial = distinct (substitution, term) pairs whose result differs from the term");
    names::run_subst(&r, thorough);
    r.finish()
}

const NEIGH: &str = "every step within edit distance 1 (2 where small) of the canonical instances; non-trivial = distinct accepted steps, decided by evaluating every interpretation in the finite space";

pub fn tier(t: bool) -> &'static str {
    if t { "thorough" } else { "quick" }
}

/// Runs the exploration in a child process, so that an abort or stack overflow of the code under
/// test is reported as what it is.
fn supervise() -> ! {
    use std::os::unix::process::ExitStatusExt;
    let args: Vec<String> = std::env::args().collect();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("MC_CHILD", "1")
        .status()
        .expect("child");
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let sig = st.signal().unwrap_or(0);
    if ![4, 6, 7, 8, 11].contains(&sig) {
        eprintln!("child ended by signal {sig}");
        std::process::exit(3);
    }
    let dir = format!("{VERIF}/work/violations");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.txt");
    let _ = std::fs::write(&path, format!("the code under test ended the whole process with signal {sig}\n"));
    println!("case: the code under test ended the whole process with signal {sig}");
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
}

fn main() {
    if std::env::var("MC_CHILD").is_err() {
        supervise();
    }
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let thorough = args.get(2).is_some_and(|t| t == "thorough");
    let run = move || match id.as_str() {
        "C01" => c01(thorough),
        "C03" => c03(thorough),
        "C04" => c04(thorough),
        "C05" => c05(thorough),
        "C06" => c06(thorough),
        "C19" => c19(thorough),
        "C11" => c11(thorough),
        "C02" => c02(thorough),
        "C07" => c07(thorough),
        "C08" => c08(thorough),
        "C20" => c20(thorough),
        "C21" => c21(thorough),
        "C09" => c09(thorough),
        "C10" => c10(thorough),
        "C24" => c24(thorough),
        "C14" => c14(thorough),
        "C23" => c23(thorough),
        "C25" => c25(thorough),
        "C16" => c16(thorough),
        "C22" => c22(thorough),
        "C15" => c15(thorough),
        "C17" => c17(thorough),
        "C18" => c18(thorough),
        "C26" => c26(thorough),
        "C12" => c12(thorough),
        "C13" => c13(thorough),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    };
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
    std::process::exit(h.join().unwrap_or(1));
}
