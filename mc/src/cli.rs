//! C23: the command-line program against the library. Every combination of up to a number of options
//! is run on every case of a corpus; what it prints, how it exits and which files it writes are
//! compared with what the library, called directly, decides for the same texts and settings.
use crate::core::*;
use crate::print;
use crate::rare::{sexprs, S};
use crate::rules::Tally;
use carcara::ast::*;
use carcara::checker::{Config as CheckerConfig, ProofChecker};
use carcara::elaborator::{self, ElaborationStep, Elaborator};
use carcara::parser;
use std::collections::HashMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Case {
    name: &'static str,
    problem: String,
    proof: String,
    /// For the smaller combinations only.
    rare: &'static str,
}

const DECLS: &str = "(set-logic ALL)\n(declare-sort U 0)\n(declare-const a U)\n(declare-const b U)\n(declare-fun f (U) U)\n\
(declare-fun P (U) Bool)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-const x Int)\n(declare-const y Int)\n(declare-const r Real)\n";
const RARE: &str = "(declare-rare-rule and-true ((t Bool))\n :args (t)\n :premises ()\n :conclusion (= (and t true) t))\n";

fn corpus() -> Vec<Case> {
    let pq = "(assert p)\n(assert (not p))\n";
    let close = "(assume h1 p)\n(assume h2 (not p))\n(step e (cl) :rule resolution :premises (h1 h2) :args (p true))\n";
    let mut v = vec![];
    let mut add = |name, asserts: &str, proof: String| {
        v.push(Case {
            name,
            problem: format!("{DECLS}{asserts}(check-sat)\n"),
            proof,
            rare: RARE,
        })
    };
    add("valid", pq, close.into());
    add("no pivots", pq, close.replace(" :args (p true)", ""));
    add("hole", pq, "(assume h1 p)\n(step e (cl) :rule hole :premises (h1))\n".into());
    add("hole and valid end", pq, format!("(step t (cl q) :rule hole)\n{close}"));
    add("wrong step", pq, format!("(step t (cl (= a b)) :rule refl)\n{close}"));
    add("wrong step after the end", pq, format!("{close}(step t (cl (= a b)) :rule refl)\n"));
    add("wrong step and hole", pq, format!("(step s (cl q) :rule hole)\n(step t (cl (= a b)) :rule refl)\n{close}"));
    add("proof does not parse", pq, format!("(step t (cl (= a c)) :rule refl)\n{close}"));
    add("proof is cut off", pq, close[..close.len() - 3].into());
    add("proof is empty", pq, String::new());
    add("problem does not parse", "(assert (and p undeclared))\n", close.into());
    add("no empty clause", pq, "(assume h1 p)\n(step t (cl (= a a)) :rule refl)\n".into());
    add("not an assertion", "(assert p)\n", close.into());
    add("unary and", pq, format!("(step t (cl (= (and p) (and p))) :rule refl)\n{close}"));
    add("sorts mixed in the problem", "(assert (< x r))\n(assert p)\n(assert (not p))\n", close.into());
    add("sorts mixed in the proof", pq, format!("(step t (cl (= (+ x r) (+ x r))) :rule refl)\n{close}"));
    let def = "(define-fun d () Bool (or p q))\n(assert (not d))\n(assert (or p q))\n";
    add(
        "definition applied",
        def,
        "(assume h1 (not (or p q)))\n(assume h2 (or p q))\n(step e (cl) :rule resolution :premises (h1 h2) :args ((or p q) false))\n".into(),
    );
    add(
        "definition asserted",
        def,
        "(assume h0 (= d (or p q)))\n(assume h1 (not d))\n(assume h2 (or p q))\n(step t (cl d (not (or p q))) :rule equiv2 :premises (h0))\n\
         (step e (cl) :rule resolution :premises (t h1 h2) :args (d true (or p q) false))\n"
            .into(),
    );
    let lets = "(assert (let ((z p)) (and z z)))\n(assert (not p))\n";
    add(
        "let kept",
        lets,
        "(assume h1 (let ((z p)) (and z z)))\n(assume h2 (not p))\n(step e (cl) :rule hole :premises (h1 h2))\n".into(),
    );
    add(
        "let expanded",
        lets,
        "(assume h1 (and p p))\n(assume h2 (not p))\n(step t (cl p) :rule and :premises (h1) :args (0))\n\
         (step e (cl) :rule resolution :premises (t h2) :args (p true))\n"
            .into(),
    );
    add("let in a step", pq, format!("(step t (cl (= (let ((z a)) (f z)) (f a))) :rule refl)\n{close}"));
    add("hole arguments", pq, "(step e (cl) :rule hole :args (undeclared (something else)))\n".into());
    add("good hole arguments", pq, "(step e (cl) :rule hole :args (p (f a)))\n".into());
    add("rule foo", pq, format!("(step t (cl q) :rule foo)\n{close}"));
    add("rules foo and bar", pq, format!("(step t (cl q) :rule foo)\n(step s (cl (not q)) :rule bar :premises (t))\n{close}"));
    add("rule all_simplify", pq, format!("(step t (cl (= (and p p) p)) :rule all_simplify)\n{close}"));
    add("rewrite rule", pq, format!("(step t (cl (= (and q true) q)) :rule rare_rewrite :args (\"and-true\" q))\n{close}"));
    add("wrong rewrite", pq, format!("(step t (cl (= (and q true) p)) :rule rare_rewrite :args (\"and-true\" q))\n{close}"));
    add(
        "subproof",
        pq,
        format!("(anchor :step t)\n(assume t.h q)\n(step t.t (cl (= a a)) :rule refl)\n(step t (cl (not q) (= a a)) :rule subproof :discharge (t.h))\n{close}"),
    );
    add(
        "hole in a subproof",
        pq,
        format!("(anchor :step t)\n(assume t.h q)\n(step t.t (cl (= a b)) :rule hole)\n(step t (cl (not q) (= a b)) :rule subproof :discharge (t.h))\n{close}"),
    );
    add(
        "wrong step in a subproof",
        pq,
        format!("(anchor :step t)\n(assume t.h q)\n(step t.t (cl (= a b)) :rule refl)\n(step t (cl (not q) (= a b)) :rule subproof :discharge (t.h))\n{close}"),
    );
    add(
        "binder",
        pq,
        format!(
            "(anchor :step t :args ((v U) (:= (w U) v)))\n(step t.t (cl (= (P w) (P v))) :rule refl)\n\
             (step t (cl (= (forall ((w U)) (P w)) (forall ((v U)) (P v)))) :rule bind)\n{close}"
        ),
    );
    add("reordered equality", "(assert (= a b))\n(assert (not (= b a)))\n",
        "(assume h1 (= b a))\n(assume h2 (not (= b a)))\n(step e (cl) :rule resolution :premises (h1 h2) :args ((= b a) true))\n".into());
    add("reflexivity up to symmetry", pq, format!("(step t (cl (= (= a b) (= b a))) :rule refl)\n{close}"));
    add("linear arithmetic", pq, format!("(step t (cl (not (< x y)) (not (< y x))) :rule la_generic :args (1 1))\n{close}"));
    add("unchecked arithmetic", pq, format!("(step t (cl (not (< x y)) (<= (+ x 1) y)) :rule lia_generic)\n(step u (cl (= x y) (< x y) (< y x)) :rule lia_generic)\n{close}"));
    add(
        "unchecked arithmetic in a subproof",
        pq,
        format!("(anchor :step t)\n(assume t.h q)\n(step t.t (cl (<= x x)) :rule lia_generic)\n(step t (cl (not q) (<= x x)) :rule subproof :discharge (t.h))\n(step u (cl (< x (+ x 1))) :rule lia_generic)\n{close}"),
    );
    let big = "(= (f (f (f a))) (f (f (f b))))";
    add(
        "shared terms",
        &format!("(assert {big})\n(assert (not {big}))\n"),
        format!("(assume h1 {big})\n(assume h2 (not {big}))\n(step t (cl (and {big} {big}) (not {big}) (not {big})) :rule and_neg)\n(step e (cl) :rule resolution :premises (h1 h2) :args ({big} true))\n"),
    );
    let deep = format!("{}a{}", "(f ".repeat(300), ")".repeat(300));
    add("deep terms", pq, format!("(step t (cl (= {deep} {deep})) :rule refl)\n(step u (cl (= (= {deep} b) (= b {deep}))) :rule refl)\n{close}"));
    add(
        "crowding literals",
        "(assert (or p q))\n(assert (not p))\n(assert (not q))\n",
        "(assume h (or p q))\n(step h1 (cl p q) :rule or :premises (h))\n(assume h2 (not p))\n(assume h3 (not q))\n\
         (step e (cl) :rule resolution :premises (h1 h2 h3) :args (p true q true))\n"
            .into(),
    );
    add(
        "crowding and reordering",
        "(assert (or p q))\n(assert (or p (not q)))\n(assert (not p))\n",
        "(assume a1 (or p q))\n(assume a2 (or p (not q)))\n(assume a3 (not p))\n(step s1 (cl q p) :rule or :premises (a1))\n(step s2 (cl p (not q)) :rule or :premises (a2))\n\
         (step s3 (cl p) :rule resolution :premises (s1 s2) :args (q true))\n(step e (cl) :rule resolution :premises (s3 a3) :args (p true))\n"
            .into(),
    );
    v
}

/// The settings that can change what the library decides.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Settings {
    defs: bool,
    lets: bool,
    subtyping: bool,
    strict: bool,
    hole_args: bool,
    elaborated: bool,
    ignore: bool,
    allowed: Vec<&'static str>,
    rare: bool,
    /// A rule file that does not exist or does not parse.
    bad_rare: bool,
    no_sharing: bool,
    rotate: bool,
    pipeline: Option<&'static str>,
    mode: Mode,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
enum Mode {
    #[default]
    Explicit,
    Inferred,
    ProofStdin,
    ProblemStdin,
    BothStdin,
    OnlyStdin,
    NoProof,
    NoProblem,
}

impl Settings {
    fn parser(&self) -> parser::Config {
        parser::Config {
            apply_function_defs: self.defs,
            expand_lets: self.lets,
            allow_int_real_subtyping: self.subtyping,
            strict: self.strict,
            parse_hole_args: self.hole_args,
        }
    }
    fn checker(&self) -> CheckerConfig {
        CheckerConfig {
            elaborated: self.elaborated,
            ignore_unknown_rules: self.ignore,
            allowed_rules: self.allowed.iter().map(|s| s.to_string()).collect(),
        }
    }
    fn fails(&self) -> bool {
        self.bad_rare || matches!(self.mode, Mode::BothStdin | Mode::OnlyStdin | Mode::NoProof | Mode::NoProblem)
    }
    fn pipeline(&self) -> Vec<ElaborationStep> {
        let default = "polyeq lia-generic local uncrowd reordering hole";
        self.pipeline
            .unwrap_or(default)
            .split(' ')
            .map(|s| match s {
                "polyeq" => ElaborationStep::Polyeq,
                "lia-generic" => ElaborationStep::LiaGeneric,
                "local" => ElaborationStep::Local,
                "uncrowd" => ElaborationStep::Uncrowd,
                "reordering" => ElaborationStep::Reordering,
                "hole" => ElaborationStep::Hole,
                _ => unreachable!(),
            })
            .collect()
    }
}

type Apply = fn(&mut Settings);
#[derive(Clone, Copy)]
struct Choice {
    args: &'static [&'static str],
    apply: Apply,
}
/// An option and its values other than the default.
type Dimension = Vec<Choice>;

fn ch(args: &'static [&'static str], apply: Apply) -> Choice {
    Choice { args, apply }
}

fn parsing(buffer: bool) -> Vec<Dimension> {
    let mut v = vec![
        vec![ch(&["--apply-function-defs"], |s| s.defs = true)],
        vec![ch(&["--expand-let-bindings"], |s| s.lets = true)],
        vec![ch(&["--allow-int-real-subtyping"], |s| s.subtyping = true)],
        vec![ch(&["-s"], |s| s.strict = true), ch(&["--strict-parsing"], |s| s.strict = true)],
        vec![ch(&["--parse-hole-args"], |s| s.hole_args = true)],
    ];
    if buffer {
        v.push(vec![ch(&["--buffer-entire-file"], |_| ())]);
    }
    v
}

fn checking() -> Vec<Dimension> {
    vec![
        vec![
            ch(&["-i"], |s| s.ignore = true),
            ch(&["--ignore-unknown-rules"], |s| s.ignore = true),
            ch(&["--skip-unknown-rules"], |s| s.ignore = true),
        ],
        vec![
            ch(&["--allowed-rules", "foo"], |s| s.allowed = vec!["foo"]),
            ch(&["--allowed-rules", "foo", "bar"], |s| s.allowed = vec!["foo", "bar"]),
            ch(&["--allowed-rules", "bar", "refl"], |s| s.allowed = vec!["bar", "refl"]),
        ],
        vec![
            ch(&["--check-granularity", "elaborated"], |s| s.elaborated = true),
            ch(&["--check-granularity", "normal"], |_| ()),
        ],
    ]
}

fn printing() -> Vec<Dimension> {
    vec![
        vec![ch(&["--log", "off"], |_| ()), ch(&["--log", "error"], |_| ()), ch(&["--log", "info"], |_| ())],
        vec![ch(&["--no-color"], |_| ())],
        vec![ch(&["-v"], |s| s.no_sharing = true), ch(&["--no-print-with-sharing"], |s| s.no_sharing = true)],
    ]
}

fn input() -> Vec<Dimension> {
    vec![
        vec![
            ch(&["--rare-file", "rules.rare"], |s| s.rare = true),
            ch(&["--rare-file", "missing.rare"], |s| s.bad_rare = true),
            ch(&["--rare-file", "broken.rare"], |s| s.bad_rare = true),
        ],
        vec![
            ch(&[], |s| s.mode = Mode::Inferred),
            ch(&[], |s| s.mode = Mode::ProofStdin),
            ch(&[], |s| s.mode = Mode::ProblemStdin),
            ch(&[], |s| s.mode = Mode::BothStdin),
            ch(&[], |s| s.mode = Mode::OnlyStdin),
            ch(&[], |s| s.mode = Mode::NoProof),
            ch(&[], |s| s.mode = Mode::NoProblem),
        ],
    ]
}

fn speed() -> Vec<Dimension> {
    vec![
        vec![ch(&["-u", "2"], |_| ()), ch(&["-u", "3"], |_| ()), ch(&["--num-threads", "8"], |_| ()), ch(&["-u", "1"], |_| ())],
        vec![ch(&["--stats"], |_| ())],
        vec![ch(&["--stack-size", "8000000"], |_| ())],
    ]
}

fn elaboration() -> Vec<Dimension> {
    vec![
        vec![ch(&["--uncrowd-rotate"], |s| s.rotate = true)],
        vec![
            ch(&["--pipeline", "polyeq"], |s| s.pipeline = Some("polyeq")),
            ch(&["--pipeline", "local", "uncrowd"], |s| s.pipeline = Some("local uncrowd")),
            ch(&["--pipeline", "uncrowd", "reordering", "polyeq"], |s| s.pipeline = Some("uncrowd reordering polyeq")),
            ch(&["--pipeline", "reordering", "local", "hole", "lia-generic"], |s| s.pipeline = Some("reordering local hole lia-generic")),
        ],
        vec![ch(&["--stats"], |_| ())],
    ]
}

/// Every way to give at most `k` of the options.
fn combinations(dims: &[Dimension], k: usize) -> Vec<Vec<Choice>> {
    let mut out = vec![vec![]];
    if k == 0 {
        return out;
    }
    for (i, d) in dims.iter().enumerate() {
        for rest in combinations(&dims[i + 1..], k - 1) {
            for c in d {
                let mut v = vec![*c];
                v.extend(rest.iter().copied());
                out.push(v);
            }
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Valid,
    Holey,
    Invalid,
}

impl Verdict {
    fn word(&self) -> &'static str {
        match self {
            Verdict::Valid => "valid",
            Verdict::Holey => "holey",
            Verdict::Invalid => "invalid",
        }
    }
}

/// What the library makes of a case.
struct Library {
    /// What parsing and printing gives, if it parses.
    parsed: Option<String>,
    verdict: Verdict,
    /// The text of the elaborated proof, unless the proof is invalid.
    elaborated: Option<String>,
    /// Identifiers and contents.
    lia: Option<Vec<(String, String)>>,
}

fn library(case: &Case, s: &Settings, elaborate: bool, lia: bool) -> Library {
    let bad = Library {
        parsed: None,
        verdict: Verdict::Invalid,
        elaborated: None,
        lia: None,
    };
    if s.fails() {
        return bad;
    }
    let rare = s.rare.then_some(case.rare.as_bytes());
    let Ok(Ok((problem, proof, rules, mut pool))) = guard(|| parser::parse_instance(case.problem.as_bytes(), case.proof.as_bytes(), rare, s.parser()))
    else {
        return bad;
    };
    let sharing = !s.no_sharing;
    let parsed = print::print_proof(&mut pool, &problem.prelude, &proof, sharing).ok();
    let verdict = match guard(|| ProofChecker::new(&mut pool, &rules, s.checker()).check(&problem, &proof)) {
        Ok(Ok(false)) => Verdict::Valid,
        Ok(Ok(true)) => Verdict::Holey,
        _ => Verdict::Invalid,
    };
    let mut elaborated = None;
    if elaborate && verdict != Verdict::Invalid {
        let config = elaborator::Config {
            lia_options: None,
            hole_options: None,
            uncrowd_rotation: s.rotate,
        };
        let commands = proof.commands.clone();
        elaborated = guard(|| {
            let forest = ProofNodeForest::from_commands(commands);
            Elaborator::new(&mut pool, &problem, config).elaborate(forest, s.pipeline()).into_commands()
        })
        .ok()
        .and_then(|commands| {
            let proof = Proof { commands, ..proof };
            print::print_proof(&mut pool, &problem.prelude, &proof, sharing).ok()
        });
    }
    let lia = if lia {
        guard(|| carcara::generate_lia_smt_instances(case.problem.as_bytes(), case.proof.as_bytes(), rare, s.parser(), sharing))
            .ok()
            .and_then(|r| r.ok())
    } else {
        None
    };
    Library { parsed, verdict, elaborated, lia }
}

struct Run {
    /// None if it was killed by a signal.
    code: Option<i32>,
    stdout: String,
    stderr: String,
}

struct Lab {
    bin: PathBuf,
    root: PathBuf,
    next: AtomicUsize,
}

impl Lab {
    /// A fresh directory with the files of a case in it.
    fn dir(&self) -> PathBuf {
        let d = self.root.join(format!("d{}", self.next.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&d).expect("scratch directory");
        d
    }

    fn fill(&self, dir: &Path, case: &Case, stem: &str) {
        fs::write(dir.join(format!("{stem}.smt2")), &case.problem).unwrap();
        fs::write(dir.join(format!("{stem}.smt2.alethe")), &case.proof).unwrap();
        fs::write(dir.join("rules.rare"), case.rare).unwrap();
        fs::write(dir.join("broken.rare"), "(declare-rare-rule oops (").unwrap();
    }

    fn run(&self, dir: &Path, args: &[String], stdin: Option<&str>) -> Run {
        let mut c = Command::new("timeout");
        c.args(["-s", "KILL", "60"]).arg(&self.bin).args(args).current_dir(dir).env_remove("RUST_BACKTRACE");
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
        c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
        let mut child = c.spawn().expect("the command-line program starts");
        if let Some(text) = stdin {
            let mut pipe = child.stdin.take().unwrap();
            // the program may end without reading its input
            let _ = pipe.write_all(text.as_bytes());
        }
        let out = child.wait_with_output().unwrap();
        Run {
            code: out.status.code(),
            stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
            stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
        }
    }
}

/// The arguments of a command on a case, and what it reads from its standard input.
fn command<'a>(name: &str, case: &'a Case, s: &Settings, choices: &[Choice], extra: &[&str]) -> (Vec<String>, Option<&'a str>) {
    let mut args: Vec<String> = vec![name.into()];
    let (proof, problem) = ("c.smt2.alethe", "c.smt2");
    let files: &[&str] = match s.mode {
        Mode::Explicit => &[proof, problem],
        Mode::Inferred => &[proof],
        Mode::ProofStdin => &["-", problem],
        Mode::ProblemStdin => &[proof, "-"],
        Mode::BothStdin => &["-", "-"],
        Mode::OnlyStdin => &["-"],
        Mode::NoProof => &["missing.alethe", problem],
        Mode::NoProblem => &[proof, "missing.smt2"],
    };
    args.extend(files.iter().map(|x| x.to_string()));
    args.extend(choices.iter().flat_map(|c| c.args).chain(extra).map(|x| x.to_string()));
    let stdin = match s.mode {
        Mode::ProofStdin => Some(case.proof.as_str()),
        Mode::ProblemStdin => Some(case.problem.as_str()),
        _ => None,
    };
    (args, stdin)
}

fn settings(choices: &[Choice]) -> Settings {
    let mut s = Settings::default();
    for c in choices {
        (c.apply)(&mut s);
    }
    s
}

fn show(args: &[String], case: &str, out: &Run) -> String {
    let tail: String = out.stderr.chars().take(200).collect();
    format!("{} on case `{case}`: exit {:?}, stdout `{}`, stderr `{tail}`", args.join(" "), out.code, out.stdout.chars().take(200).collect::<String>())
}

/// The text with every name given to a term replaced by it, so that it does not matter which terms
/// the printer chose to share; None if the parentheses do not match.
fn unshared(text: &str) -> Option<String> {
    fn go(x: &S, names: &mut HashMap<String, S>) -> S {
        match x {
            S::A(a) => names.get(a).cloned().unwrap_or_else(|| x.clone()),
            S::L(v) => match v.as_slice() {
                [S::A(bang), t, S::A(kw), S::A(n)] if bang == "!" && kw == ":named" => {
                    let t = go(t, names);
                    names.insert(n.clone(), t.clone());
                    t
                }
                _ => S::L(v.iter().map(|y| go(y, names)).collect()),
            },
        }
    }
    let mut depth = 0i64;
    let mut string = false;
    for c in text.chars() {
        match c {
            '"' => string = !string,
            '(' if !string => depth += 1,
            ')' if !string => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            return None;
        }
    }
    if depth != 0 || string {
        return None;
    }
    let mut names = HashMap::new();
    let lines: Vec<String> = sexprs(text).iter().map(|x| go(x, &mut names).to_string()).collect();
    Some(lines.join("\n"))
}

/// Equal up to sharing; equal to the letter without it.
fn same(got: &str, want: &str, s: &Settings) -> bool {
    if s.no_sharing {
        got.trim_end() == want.trim_end()
    } else {
        let g = unshared(got);
        g.is_some() && g == unshared(want)
    }
}

fn verdict_lines(out: &str) -> Vec<&str> {
    out.lines().filter(|l| ["valid", "holey", "invalid"].contains(l)).collect()
}

pub fn run(rep: &Report, thorough: bool) {
    let bin = PathBuf::from("/verif/target/cli/release/carcara");
    assert!(bin.exists(), "the command-line program was not built");
    let root = PathBuf::from(format!("/verif/work/cli.{}", std::process::id()));
    fs::create_dir_all(&root).unwrap();
    let lab = Lab { bin, root: root.clone(), next: AtomicUsize::new(0) };
    let cases = corpus();
    let k = if thorough { 3 } else { 2 };
    single(rep, &lab, &cases, k, thorough);
    bench(rep, &lab, &cases, thorough);
    fs::remove_dir_all(&root).unwrap();
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Check,
    Elaborate,
    Parse,
    Lia,
    Slice,
}

fn single(rep: &Report, lab: &Lab, cases: &[Case], k: usize, thorough: bool) {
    let all = |parts: Vec<Vec<Dimension>>| -> Vec<Dimension> { parts.into_iter().flatten().collect() };
    let check = combinations(&all(vec![parsing(true), checking(), speed(), input(), printing()]), k);
    let elaborate = combinations(&all(vec![parsing(true), checking(), elaboration(), input(), printing()]), k);
    let parse = combinations(&all(vec![parsing(true), input(), printing()]), k);
    let lia = combinations(&all(vec![parsing(true), input(), printing()]), k.min(2));
    let slice = combinations(&all(vec![parsing(false), input(), printing()]), 1);
    let mut work: Vec<(Cmd, &Case, &Vec<Choice>)> = vec![];
    for (cmd, list) in [(Cmd::Check, &check), (Cmd::Elaborate, &elaborate), (Cmd::Parse, &parse), (Cmd::Lia, &lia), (Cmd::Slice, &slice)] {
        rep.add(&format!("option combinations of {cmd:?}").to_lowercase(), list.len() as u64);
        for c in cases {
            work.extend(list.iter().map(|o| (cmd, c, o)));
        }
    }
    let dirs: HashMap<&str, PathBuf> = cases
        .iter()
        .map(|c| {
            let d = lab.dir();
            lab.fill(&d, c, "c");
            (c.name, d)
        })
        .collect();
    type Memo = HashMap<(bool, &'static str, Settings), std::sync::Arc<Library>>;
    let memo: Mutex<Memo> = Mutex::new(HashMap::new());
    let chunks: Vec<&[(Cmd, &Case, &Vec<Choice>)]> = work.chunks(64).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for (cmd, case, choices) in chunk.iter() {
            let s = settings(choices);
            let mut basis = s.clone();
            basis.mode = if s.fails() { Mode::NoProof } else { Mode::Explicit };
            let key = (*cmd == Cmd::Elaborate, case.name, basis.clone());
            let known = memo.lock().unwrap().get(&key).cloned();
            let lib = known.unwrap_or_else(|| {
                let lib = std::sync::Arc::new(library(case, &basis, *cmd == Cmd::Elaborate, true));
                memo.lock().unwrap().insert(key, lib.clone());
                lib
            });
            t.inc("evaluations", 1);
            t.distinct.insert(hash_of(&(format!("{cmd:?}"), case.name, format!("{:?}", choices.iter().map(|c| c.args).collect::<Vec<_>>()), s.mode)));
            rep.case(|| format!("{cmd:?} {} {:?}", case.name, choices.iter().map(|c| c.args).collect::<Vec<_>>()));
            match cmd {
                Cmd::Check => {
                    t.inc(&format!("checked: {}", lib.verdict.word()), 1);
                    let (args, stdin) = command("check", case, &s, choices, &[]);
                    let out = lab.run(&dirs[case.name], &args, stdin);
                    let stats = args.iter().any(|a| a == "--stats");
                    let right = if stats {
                        verdict_lines(&out.stdout) == [lib.verdict.word()] && out.stdout.ends_with(&format!("{}\n", lib.verdict.word()))
                    } else {
                        out.stdout == format!("{}\n", lib.verdict.word())
                    };
                    let code = if lib.verdict == Verdict::Invalid { 1 } else { 0 };
                    if !right || out.code != Some(code) {
                        rep.violation(&show(&args, case.name, &out), &format!("the library says {}", lib.verdict.word()));
                    }
                }
                Cmd::Elaborate => {
                    let (args, stdin) = command("elaborate", case, &s, choices, &[]);
                    let out = lab.run(&dirs[case.name], &args, stdin);
                    let stats = args.iter().any(|a| a == "--stats");
                    let right = match &lib.elaborated {
                        Some(text) => {
                            t.inc("elaborated proofs compared", 1);
                            let first = format!("{}\n", lib.verdict.word());
                            // the statistics come before the verdict
                            let from = if stats { out.stdout.find(&format!("\n{first}")).map_or(0, |i| i + 1) } else { 0 };
                            let proof = out.stdout[from..].strip_prefix(&first);
                            out.code == Some(0) && proof.is_some_and(|p| same(p, text, &s))
                        }
                        None => {
                            let quiet = out.stdout.lines().all(|l| l.is_empty() || l == "invalid");
                            out.code == Some(1) && (quiet || stats && !out.stdout.contains("(step") && verdict_lines(&out.stdout).iter().all(|w| *w == "invalid"))
                        }
                    };
                    if !right {
                        rep.violation(&show(&args, case.name, &out), &format!("the library says {} and gives {:?}", lib.verdict.word(), lib.elaborated));
                    }
                }
                Cmd::Parse => {
                    let (args, stdin) = command("parse", case, &s, choices, &[]);
                    let out = lab.run(&dirs[case.name], &args, stdin);
                    let right = match &lib.parsed {
                        Some(text) => out.code == Some(0) && same(&out.stdout, text, &s),
                        None => out.code == Some(1) && !out.stdout.contains('('),
                    };
                    if !right {
                        rep.violation(&show(&args, case.name, &out), &format!("the library gives {:?}", lib.parsed));
                    }
                }
                Cmd::Lia => {
                    let (args, stdin) = command("generate-lia-problems", case, &s, choices, &[]);
                    let dir = lab.dir();
                    lab.fill(&dir, case, "c");
                    let out = lab.run(&dir, &args, stdin);
                    let got = new_files(&dir, ".lia_smt2");
                    let root = if s.mode == Mode::ProofStdin { "-" } else { "c.smt2.alethe" };
                    let mut want: Vec<(String, String)> =
                        lib.lia.iter().flatten().map(|(id, text)| (format!("{root}-{id}.lia_smt2"), text.clone())).collect();
                    want.sort();
                    let code = if lib.lia.is_some() { 0 } else { 1 };
                    t.inc("problem files compared", want.len() as u64);
                    let equal = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && same(&g.1, &w.1, &s));
                    if out.code != Some(code) || !equal {
                        rep.violation(&show(&args, case.name, &out), &format!("files {got:?}, but the library gives {want:?}"));
                    }
                    fs::remove_dir_all(&dir).unwrap();
                }
                Cmd::Slice => slices(rep, lab, &mut t, case, &s, choices, thorough),
            }
        }
        t.flush(rep);
    });
    for d in dirs.values() {
        fs::remove_dir_all(d).unwrap();
    }
}

fn new_files(dir: &Path, suffix: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().file_name().into_string().unwrap())
        .filter(|n| n.ends_with(suffix))
        .map(|n| {
            let text = fs::read_to_string(dir.join(&n)).unwrap();
            (n, text)
        })
        .collect();
    v.sort();
    v
}

fn ids(commands: &[ProofCommand], out: &mut Vec<String>) {
    for c in commands {
        if let ProofCommand::Subproof(s) = c {
            ids(&s.commands, out);
        } else {
            out.push(c.id().to_string());
        }
    }
}

/// The texts of a slice as the library gives them: problem and proof.
fn sliced(case: &Case, s: &Settings, from: &str, depth: usize) -> Option<(String, String)> {
    let rare = s.rare.then_some(case.rare.as_bytes());
    let (problem, proof, _, mut pool) = parser::parse_instance(case.problem.as_bytes(), case.proof.as_bytes(), rare, s.parser()).ok()?;
    let (slice, asserts) = guard(|| carcara::slice::slice(&proof, from, &mut pool, depth)).ok()??;
    let mut text = format!("{}", problem.prelude).into_bytes();
    write_asserts(&mut pool, &problem.prelude, &mut text, &asserts, false).ok()?;
    text.extend(b"(check-sat)\n(exit)\n");
    let proof_text = print::print_proof(&mut pool, &problem.prelude, &slice, !s.no_sharing).ok()?;
    Some((String::from_utf8(text).unwrap(), proof_text))
}

fn slices(rep: &Report, lab: &Lab, t: &mut Tally, case: &Case, s: &Settings, choices: &[Choice], thorough: bool) {
    let mut steps = vec!["missing".to_string()];
    if !s.fails() {
        let rare = s.rare.then_some(case.rare.as_bytes());
        if let Ok((_, proof, _, _)) = parser::parse_instance(case.problem.as_bytes(), case.proof.as_bytes(), rare, s.parser()) {
            ids(&proof.commands, &mut steps);
        }
    }
    let depths: &[Option<&str>] = if thorough { &[None, Some("0"), Some("1"), Some("2")] } else { &[None, Some("1")] };
    for from in &steps {
        for depth in depths {
            for named in [false, true] {
                let mut extra = vec!["--from", from.as_str()];
                if let Some(d) = depth {
                    extra.extend(["-d", d]);
                }
                if named {
                    extra.extend(["--sliced-output", "out.problem", "out.proof"]);
                }
                let (args, stdin) = command("slice", case, s, choices, &extra);
                let dir = lab.dir();
                lab.fill(&dir, case, "c");
                let out = lab.run(&dir, &args, stdin);
                t.inc("evaluations", 1);
                let depth = depth.map_or(0, |d| d.parse().unwrap());
                let want = if s.fails() { None } else { sliced(case, s, from, depth) };
                let (problem, proof) = if named {
                    ("out.problem".to_string(), "out.proof".to_string())
                } else {
                    let base = if s.mode == Mode::ProofStdin { "-" } else { "c.smt2" };
                    (format!("{base}-{from}.smt2"), format!("{base}-{from}.alethe"))
                };
                let read = |n: &str| fs::read_to_string(dir.join(n)).ok();
                let right = match &want {
                    None => out.code == Some(1) && out.stdout.is_empty() && read(&problem).is_none() && read(&proof).is_none(),
                    Some((problem_text, proof_text)) => {
                        t.inc("slices compared", 1);
                        out.code == Some(0)
                            && same(&out.stdout, proof_text, s)
                            && read(&problem).is_some_and(|x| same(&x, problem_text, s))
                            && read(&proof).is_some_and(|x| same(&x, proof_text, s))
                    }
                };
                if !right {
                    rep.violation(
                        &show(&args, case.name, &out),
                        &format!("files {:?} and {:?}, but the library gives {want:?}", read(&problem), read(&proof)),
                    );
                }
                fs::remove_dir_all(&dir).unwrap();
            }
        }
    }
}

/// `bench`: every list of files up to a length, as files and as a directory.
fn bench(rep: &Report, lab: &Lab, cases: &[Case], thorough: bool) {
    let pick = |names: &[&str]| -> Vec<&Case> { names.iter().map(|n| cases.iter().find(|c| c.name == *n).unwrap()).collect() };
    let few = pick(&["valid", "hole", "wrong step", "proof does not parse"]);
    let most = pick(&["valid", "hole", "wrong step", "proof does not parse", "rule foo", "unary and", "no pivots", "crowding literals", "proof is empty", "no empty clause"]);
    let mut lists: Vec<Vec<&Case>> = cases.iter().map(|c| vec![c]).collect();
    for a in &most {
        for b in &most {
            lists.push(vec![a, b]);
        }
    }
    for a in &few {
        for b in &few {
            for c in &few {
                lists.push(vec![a, b, c]);
            }
        }
    }
    let jobs: Vec<Dimension> = vec![
        vec![ch(&["-j", "2"], |_| ()), ch(&["--num-jobs", "3"], |_| ()), ch(&["-j", "0"], |s| s.bad_rare = true)],
        vec![ch(&["-n", "2"], |_| ()), ch(&["--num-runs", "3"], |_| ()), ch(&["-n", "0"], |s| s.bad_rare = true)],
        vec![ch(&["--elaborate"], |_| ())],
        vec![ch(&["--dump-to-csv"], |_| ())],
        vec![ch(&["-t"], |_| ()), ch(&["--sort-by-total"], |_| ())],
        vec![ch(&[], |s| s.mode = Mode::Inferred)],
    ];
    let mut small = combinations(&jobs, if thorough { 3 } else { 2 });
    let mut wide: Vec<Dimension> = jobs.clone();
    wide.extend(parsing(true));
    wide.extend(checking());
    wide.extend(elaboration().into_iter().take(2));
    wide.extend(printing());
    let wide = combinations(&wide, 2);
    let mut work: Vec<(&Vec<&Case>, &Vec<Choice>)> = vec![];
    small.sort_by_key(|c| c.len());
    for l in &lists {
        let options = if l.len() == 1 { &wide } else { &small };
        work.extend(options.iter().map(|o| (l, o)));
    }
    rep.add("option combinations of bench", (small.len() + wide.len()) as u64);
    rep.add("file lists of bench", lists.len() as u64);
    let memo: Mutex<HashMap<(&'static str, Settings), Verdict>> = Mutex::new(HashMap::new());
    let chunks: Vec<&[(&Vec<&Case>, &Vec<Choice>)]> = work.chunks(32).collect();
    par(&chunks, |chunk| {
        let mut t = Tally::new();
        for (list, choices) in chunk.iter() {
            let mut s = settings(choices);
            let directory = s.mode == Mode::Inferred;
            let unusable = s.bad_rare;
            s.mode = Mode::Explicit;
            s.bad_rare = false;
            let dir = lab.dir();
            let mut args: Vec<String> = vec!["bench".into()];
            if directory {
                fs::create_dir(dir.join("in")).unwrap();
                fs::create_dir(dir.join("in/deep")).unwrap();
            }
            let mut names = vec![];
            for (i, c) in list.iter().enumerate() {
                let place = match (directory, i) {
                    (true, 0) => "in/deep/",
                    (true, _) => "in/",
                    _ => "",
                };
                fs::write(dir.join(format!("{place}c{i}.smt2")), &c.problem).unwrap();
                fs::write(dir.join(format!("{place}c{i}.smt2.alethe")), &c.proof).unwrap();
                names.push(format!("{place}c{i}.smt2.alethe"));
            }
            if directory {
                fs::write(dir.join("in/notes.txt"), "not a proof").unwrap();
                args.push("in".into());
            } else {
                args.extend(names.iter().cloned());
            }
            args.extend(choices.iter().flat_map(|c| c.args).map(|x| x.to_string()));
            let out = lab.run(&dir, &args, None);
            t.inc("evaluations", 1);
            t.inc("runs of bench", 1);
            let case_names: Vec<&str> = list.iter().map(|c| c.name).collect();
            t.distinct.insert(hash_of(&(&args, &case_names)));
            let verdicts: Vec<Verdict> = list
                .iter()
                .map(|c| {
                    let key = (c.name, s.clone());
                    let known = memo.lock().unwrap().get(&key).cloned();
                    known.unwrap_or_else(|| {
                        let v = library(c, &s, false, false).verdict;
                        memo.lock().unwrap().insert(key, v.clone());
                        v
                    })
                })
                .collect();
            let want = if verdicts.contains(&Verdict::Invalid) {
                Verdict::Invalid
            } else if verdicts.contains(&Verdict::Holey) {
                Verdict::Holey
            } else {
                Verdict::Valid
            };
            let key = show(&args, &case_names.join("`, `"), &out);
            let said = verdict_lines(&out.stdout);
            if unusable {
                // nothing can be run, so nothing may be reported
                if out.code.is_none_or(|c| c == 101) || !said.is_empty() {
                    rep.violation(&key, "a benchmark without runs or jobs reports a verdict or crashes");
                }
            } else {
                if out.code != Some(0) || said != [want.word()] {
                    rep.violation(&key, &format!("the library says {verdicts:?}"));
                }
                if args.iter().any(|a| a == "--dump-to-csv") {
                    tables(rep, &mut t, &dir, &key, list, &names, &s, &args);
                }
            }
            fs::remove_dir_all(&dir).unwrap();
        }
        t.flush(rep);
    });
}

/// The tables list each run of each file that parses once, and the steps of the files if all are accepted.
#[allow(clippy::too_many_arguments)]
fn tables(rep: &Report, t: &mut Tally, dir: &Path, key: &str, list: &[&Case], names: &[String], s: &Settings, args: &[String]) {
    let runs = match args.iter().position(|a| a == "-n" || a == "--num-runs") {
        Some(i) => args[i + 1].parse::<usize>().unwrap(),
        None => 1,
    };
    let mut want = vec![];
    let mut steps: HashMap<String, usize> = HashMap::new();
    let mut exact = true;
    for (c, n) in list.iter().zip(names) {
        if let Ok((_, proof, _, _)) = parser::parse_instance(c.problem.as_bytes(), c.proof.as_bytes(), None, s.parser()) {
            want.extend((0..runs).map(|i| format!("{n},{i}")));
            if library(c, s, false, false).verdict == Verdict::Invalid {
                exact = false;
                continue;
            }
            fn count(commands: &[ProofCommand], n: usize, out: &mut HashMap<String, usize>) {
                for c in commands {
                    match c {
                        ProofCommand::Assume { .. } => *out.entry("assume".into()).or_default() += n,
                        ProofCommand::Step(s) => *out.entry(s.rule.clone()).or_default() += n,
                        ProofCommand::Subproof(s) => count(&s.commands, n, out),
                    }
                }
            }
            count(&proof.commands, runs, &mut steps);
        }
    }
    let read = |n: &str| fs::read_to_string(dir.join(n)).unwrap_or_default();
    let mut got: Vec<String> = read("runs.csv").lines().skip(1).map(|l| l.split(',').take(2).collect::<Vec<_>>().join(",")).collect();
    got.sort();
    want.sort();
    if got != want {
        rep.violation(key, &format!("runs.csv lists {got:?} instead of {want:?}"));
    }
    let mut found: HashMap<String, usize> = HashMap::new();
    for l in read("steps.csv").lines().skip(1) {
        *found.entry(l.split(',').next().unwrap().to_string()).or_default() += 1;
    }
    t.inc("tables compared", 1);
    // some commands are not measured, but none is measured more than once per run
    let fine = !exact || found.get("resolution") == steps.get("resolution") && found.iter().all(|(r, n)| r.starts_with("anchor") || steps.get(r).is_some_and(|m| n <= m));
    if !fine {
        rep.violation(key, &format!("steps.csv lists {found:?} instead of {steps:?}"));
    }
}
