#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

RT="The unit tests check a few hand-written accept/reject strings per rule; soundness quantifies over every step the rule accepts."
p("C01","Boolean rules accept only consequences",
  "Whenever the checker accepts a step justified by a propositional tautology, clausification or Boolean simplification rule, the clause it concludes is true in every interpretation that makes its premises true. This includes and/or/xor/implies/equiv/ite/not introduction and elimination, connective definitions, n-ary elimination, and the *_simplify, ac_simp and aci_simp rules.",
  ["inputs"],"for all clauses, premises and arguments given to these rules", RT,
  ["carcara/src/checker/rules/tautology.rs","carcara/src/checker/rules/clausification.rs","carcara/src/checker/rules/simplification.rs"],
  [("tautology and clausification schemas","carcara/src/checker/rules/tautology.rs"),("generic_simplify_rule and per-operator simplifiers","carcara/src/checker/rules/simplification.rs")],"verdict of checking a step")
p("C02","Resolution and clause rules accept only consequences",
  "Whenever the checker accepts a resolution step (with or without explicit pivots, in normal or strict form) or a contraction, weakening, reordering, shuffle, tautology-elimination or DRUP step, every interpretation that satisfies all its premise clauses satisfies its conclusion clause. A DRAT step that concludes the empty clause is accepted only if its premise clauses are unsatisfiable.",
  ["inputs"],"for all premise clauses, pivots, polarities and conclusions", RT+" Greedy pivot inference in particular is only sampled.",
  ["carcara/src/resolution.rs","carcara/src/drup.rs","carcara/src/checker/rules/resolution.rs","carcara/src/checker/rules/extras.rs","carcara/src/checker/rules/drup.rs"],
  [("greedy and explicit-pivot resolution","carcara/src/resolution.rs"),("reverse unit propagation with clause deletion","carcara/src/drup.rs")],"verdict of checking a step")
p("C03","Equality rules accept only consequences",
  "Whenever the checker accepts a reflexivity, symmetry, transitivity, congruence (first or higher order, clause or premise form) or distinct-elimination step, its conclusion is true in every interpretation, whatever domains and function tables it uses, that makes its premises true.",
  ["inputs"],"for all equality chains, function applications, premises and finite interpretations", RT,
  ["carcara/src/checker/rules/reflexivity.rs","carcara/src/checker/rules/transitivity.rs","carcara/src/checker/rules/congruence.rs","carcara/src/checker/rules/extras.rs","carcara/src/checker/rules/clausification.rs"],
  [("equality chain search","carcara/src/checker/rules/transitivity.rs"),("argument matching","carcara/src/checker/rules/congruence.rs")],"verdict of checking a step")
p("C04","Arithmetic rules accept only valid facts",
  "Whenever the checker accepts a linear arithmetic step (certificate-based, disequality, totality, tautology, multiplication) or an arithmetic or polynomial simplification step, its conclusion is true for every integer and real value of its variables, with integers and reals kept apart as SMT-LIB does.",
  ["inputs"],"for all linear clauses, coefficients, sorts and integer or rational assignments", RT,
  ["carcara/src/checker/rules/linear_arithmetic.rs","carcara/src/checker/rules/polynomial.rs","carcara/src/checker/rules/extras.rs","carcara/src/checker/rules/simplification.rs"],
  [("Farkas combination with integer strengthening","carcara/src/checker/rules/linear_arithmetic.rs"),("polynomial normal form","carcara/src/checker/rules/polynomial.rs"),("sum/prod/minus/div/comp simplification","carcara/src/checker/rules/simplification.rs")],"verdict of checking a step")
p("C05","Bit-blasting rules are exact for every width and value",
  "Whenever the checker accepts a bit-blasting step for a bit-vector operation, the bits it gives are exactly those of the operation under SMT-LIB semantics, for every width and every value of the operands.",
  ["inputs"],"for all operators, widths and operand values", RT,
  ["carcara/src/checker/rules/bitvectors.rs"],[("per-operator circuit construction","carcara/src/checker/rules/bitvectors.rs")],"verdict of checking a step")
p("C06","Pseudo-Boolean and cutting-plane rules are sound",
  "Whenever the checker accepts a pseudo-Boolean blasting step, the constraint it introduces is equivalent to the bit-vector predicate for all operand values; whenever it accepts a cutting-planes step, every 0/1 assignment satisfying the premise inequalities satisfies the concluded inequality.",
  ["inputs"],"for all constraints, coefficients, literals, widths and 0/1 assignments", RT,
  ["carcara/src/checker/rules/pb_blasting.rs","carcara/src/checker/rules/cutting_planes.rs"],
  [("weighted bit sums","carcara/src/checker/rules/pb_blasting.rs"),("addition, multiplication, division, saturation, normalization of inequalities","carcara/src/checker/rules/cutting_planes.rs")],"verdict of checking a step")
p("C07","String and regular-expression rules are sound",
  "Whenever the checker accepts a string or regular-expression step, its conclusion is true for all string values of its variables that make its premises true.",
  ["inputs"],"for all concatenations, constants, regular expressions and string values", RT,
  ["carcara/src/checker/rules/strings.rs"],[("concatenation flattening, prefix/suffix stripping and overlap","carcara/src/checker/rules/strings.rs"),("regular expression unfolding","carcara/src/checker/rules/strings.rs")],"verdict of checking a step")
p("C08","Quantifier and binder rules accept only consequences",
  "Whenever the checker accepts a quantifier step (instantiation, joining, unused-variable removal, clausal form, miniscoping) or closes a subproof with a binder, let, skolemization or one-point rule, the exported conclusion is true in every interpretation in which the steps inside the subproof are true for all values of its local variables that agree with the anchor.",
  ["inputs"],"for all quantified terms, anchors, substitutions and finite interpretations", RT,
  ["carcara/src/checker/rules/quantifier.rs","carcara/src/checker/rules/subproof.rs","carcara/src/ast/context.rs","carcara/src/ast/substitution.rs"],
  [("instantiation and clausal form","carcara/src/checker/rules/quantifier.rs"),("anchor contexts","carcara/src/ast/context.rs"),("end-of-subproof rules","carcara/src/checker/rules/subproof.rs")],"verdict of checking a proof with subproofs")
p("C09","Constant evaluation agrees with SMT-LIB",
  "Whenever a constant-evaluation step is accepted, both sides denote the same value under SMT-LIB semantics, for every operator the evaluator interprets and every operand value, sign and width. Evaluation of an operation on well-sorted constants never crashes.",
  ["inputs"],"for all operators, constants and widths", "Tests evaluate a few dozen ground terms; boundary values (negative numbers, most significant bits, shifts past the width, division by zero) are not covered.",
  ["carcara/src/ast/evaluate.rs","carcara/src/checker/rules/extras.rs"],[("ground term evaluator","carcara/src/ast/evaluate.rs")],"verdict of an evaluate step")
p("C10","Rewrite-rule steps are exact instances of their rule",
  "A rewrite step that cites a user-supplied rewrite rule is accepted only if its conclusion is the rule's conclusion, and its premises are the rule's premises in order, after replacing the rule's parameters by the step's arguments, with list parameters spliced into the surrounding operator.",
  ["inputs"],"for all rule files, arguments, premises and conclusions", "Only a handful of fixed rule/step pairs are tested.",
  ["carcara/src/checker/rules/rare.rs","carcara/src/rare/mod.rs","carcara/src/parser/rare/mod.rs"],[("rule instantiation and list splicing","carcara/src/rare/mod.rs")],"verdict of a rare_rewrite step")
p("C11","Well-formed instances of every supported rule are accepted",
  "Every step that is a correct instance of a supported rule as the Alethe specification describes it (any arity, nesting, argument order and sort the rule allows) is accepted, so that valid proofs are not reported invalid.",
  ["inputs"],"for all instances of each supported rule within the documented shape", "Tests accept a few fixed instances per rule; acceptance must hold for every arity, position, width and constant.",
  ["carcara/src/checker/rules","carcara/src/checker/shared.rs"],[("rule table","carcara/src/checker/shared.rs"),("rule implementations","carcara/src/checker/rules/*.rs")],"verdict of checking a step")
p("C12","An accepted proof is a real refutation of the problem",
  "The checker declares a proof valid only if every top-level assumption is an assertion of the problem, every step uses only earlier steps visible from its position, every local assumption of a subproof is discharged by the step that closes it, no conclusion depends on an assumption or variable that is out of scope, and an empty clause is derived outside all subproofs. It accepts every proof built this way from correct steps.",
  ["programs","histories"],"for all sequences of assume, step, anchor and closing commands", "Tests check single rules in fixed wrappers; almost no test varies the command structure (nesting, scoping, discharge, order, missing conclusion).",
  ["carcara/src/checker/mod.rs","carcara/src/checker/shared.rs","carcara/src/ast/iter.rs","carcara/src/checker/rules/subproof.rs","carcara/src/parser/mod.rs"],
  [("proof traversal","carcara/src/ast/iter.rs"),("assume matching and discharge","carcara/src/checker/shared.rs"),("premise id resolution","carcara/src/parser/mod.rs")],"valid / invalid verdict")
p("C13","Unchecked steps are always reported as holes",
  "If any step of an accepted proof was not verified (a hole, an unsupported arithmetic step, a rule the user told the checker to allow, or an unknown rule it was told to ignore), the verdict is holey, wherever that step occurs and whichever checker ran; a proof with none of these is never reported holey. A step with an unknown rule is an error unless the user asked to ignore unknown rules, and an ignored or allowed step still obeys every structural restriction on the proof.",
  ["programs","configurations"],"for all placements of unverified steps, checker options and checkers", "Tests do not look at the valid/holey distinction of whole proofs under the different options.",
  ["carcara/src/checker/mod.rs","carcara/src/checker/shared.rs","carcara/src/checker/parallel/mod.rs"],[("holey flag","carcara/src/checker/shared.rs"),("thread verdict merge","carcara/src/checker/parallel/mod.rs")],"valid / holey / invalid verdict")
p("C14","Parallel checking gives the sequential verdict on every schedule",
  "Checking a proof with any number of threads terminates without deadlock or crash and returns the same verdict (valid, holey or invalid) as checking it sequentially, under every interleaving of the threads; every command of the proof is checked by exactly one thread, in an order compatible with its subproof.",
  ["schedules"],"for all thread interleavings and thread counts, for all proofs", "No test runs the parallel checker under more than whatever schedule the machine happens to pick.",
  ["carcara/src/checker/parallel/mod.rs","carcara/src/checker/parallel/scheduler.rs","carcara/src/ast/context.rs","carcara/src/ast/pool/advanced.rs"],
  [("work distribution","carcara/src/checker/parallel/scheduler.rs"),("shared context stack","carcara/src/ast/context.rs"),("shared and local term pools","carcara/src/ast/pool/advanced.rs")],"verdict of the parallel checker","cfg flag `carcara_mc` that routes locks, atomics and thread start/join of the parallel checker through a controlled scheduler")
p("C15","Elaboration turns accepted proofs into accepted proofs",
  "Elaborating any proof the checker accepts, with any selection and order of elaboration passes, produces without crashing a proof of the same problem that the checker accepts again, that is holey only if the original was, and that still ends in the empty clause using only assertions of the problem. After the full pipeline the result is also accepted by the strict checker for elaborated proofs.",
  ["programs","configurations"],"for all accepted proofs and all pipelines of elaboration passes", "Elaboration is tested on single steps with fixed expected output; whole proofs, nested subproofs and pass combinations are not.",
  ["carcara/src/elaborator"],[("pass pipeline","carcara/src/elaborator/mod.rs"),("per-rule elaborators","carcara/src/elaborator/*.rs"),("proof graph to command list","carcara/src/ast/node.rs")],"result of checking the elaborated proof")
p("C16","External solvers are never trusted",
  "When elaboration calls an external solver, no behaviour of that program (wrong verdict, malformed, truncated or incorrect proof, failing exit, no output, missing binary) leads to an accepted wrong step, to a lost or changed conclusion, or to a crash: the step is either replaced by a proof that the checker accepts, concludes the same clause from the same problem and is holey where it uses rules the checker does not know, or left as the hole it was. This is stated for solvers that terminate.",
  ["fault_sequences"],"for all outputs and exit behaviours of the external solver", "No test runs elaboration with a misbehaving solver.",
  ["carcara/src/elaborator/hole.rs","carcara/src/elaborator/lia_generic.rs"],[("solver invocation and proof import","carcara/src/elaborator/lia_generic.rs"),("hole elaboration","carcara/src/elaborator/hole.rs")],"elaborated proof and its verdict")
p("C17","Printing a proof and parsing it back is lossless",
  "Any parsed proof, printed with or without term sharing, parses back in the context of the same problem into the same sequence of commands with equal identifiers, clauses, rules, premises, arguments and discharges, and printing that without sharing gives the same text as before.",
  ["programs","inputs"],"for all proofs and terms the parser can produce", "Printer tests cover a few small terms; symbols needing quotes, literals, indexed and qualified operators and shared subterms interact in ways they do not enumerate.",
  ["carcara/src/ast/printer.rs","carcara/src/parser/lexer.rs","carcara/src/parser/mod.rs"],[("proof and term printer with sharing","carcara/src/ast/printer.rs"),("symbol and literal lexing","carcara/src/parser/lexer.rs")],"printed text and reparsed proof")
p("C18","Parsing preserves the meaning of the input",
  "A problem or proof that parses is well sorted, and each term denotes what the SMT-LIB and Alethe syntax says: names resolve to the innermost enclosing binder, definitions and let bindings (expanded or not) mean their bodies, literals denote their exact values. Undeclared names, ill-sorted applications, wrong arities, duplicate step names and references to invisible steps are rejected.",
  ["inputs","configurations"],"for all input texts and parser options", "Parser tests use fixed strings; the guarantee quantifies over every nesting of binders, definitions and options.",
  ["carcara/src/parser/mod.rs","carcara/src/parser/lexer.rs","carcara/src/ast/pool/mod.rs"],[("scopes and definitions","carcara/src/parser/mod.rs"),("sort computation","carcara/src/ast/pool/mod.rs")],"parsed terms or parser error")
p("C19","No input makes the program crash",
  "For every problem text, proof text and rule file, parsing and checking end with a verdict or an error message; they never panic, overflow or abort, whatever the shape, number and sorts of the terms, premises, arguments and indices a step carries. (Running out of memory or time on an input whose terms or error messages are exponentially large when written out is not meant here, nor nesting beyond 500 levels.)",
  ["inputs"],"for all texts and all combinations of rule, clause, premises and arguments", "Tests feed each rule terms of the shape it expects; a crash needs a shape the rule's author did not think of.",
  ["carcara/src/checker/rules","carcara/src/parser","carcara/src/ast"],[("rule argument destructuring","carcara/src/checker/rules/*.rs"),("parser","carcara/src/parser/mod.rs")],"process outcome")
p("C20","Terms judged equal mean the same; sharing is canonical",
  "Two terms are treated as the same (by identity, modulo bound-variable names, or modulo the documented reorderings and n-ary normalizations) only if they have the same value in every interpretation; structurally equal terms built in any order, in any mixture of shared and thread-local term pools, are identical, with the same sort and free variables.",
  ["inputs","histories"],"for all pairs of terms and all sequences of term constructions", "Tests compare a few pairs; equality must be right on every pair, including binders of different lengths and shadowed names.",
  ["carcara/src/ast/polyeq.rs","carcara/src/ast/pool/mod.rs","carcara/src/ast/pool/advanced.rs","carcara/src/ast/pool/storage.rs"],[("equality modulo","carcara/src/ast/polyeq.rs"),("hash consing, sorts and free variables","carcara/src/ast/pool")],"comparison results")
p("C21","Substitution never captures variables",
  "Applying a substitution to a term gives a term whose value in every interpretation is the value of the original term with the substituted variables replaced by the values of their images, for every nesting of binders and let terms and every overlap between bound names, substituted names and names free in the images. It never crashes.",
  ["inputs"],"for all terms, substitutions and finite interpretations", "Tests cover a dozen substitutions; capture depends on coincidences of names across nested binders.",
  ["carcara/src/ast/substitution.rs"],[("substitution with renaming","carcara/src/ast/substitution.rs")],"resulting term")
p("C22","Slices are accepted and contain what they claim",
  "Slicing an accepted proof at any step gives, without crashing, a proof that the checker accepts for the sliced problem, that keeps the chosen step with its rule, clause and arguments together with the premises it needs to be checked, and whose assertions come from the original problem or proof.",
  ["programs"],"for all accepted proofs, all steps and all slice depths", "There are almost no tests of slicing; it must work for every step position, depth and subproof nesting.",
  ["carcara/src/slice.rs","cli/src/main.rs"],[("slice construction","carcara/src/slice.rs")],"sliced problem and proof")
p("C23","The command line reports the library's verdict",
  "For every combination of command-line options and every way of giving the input files, `check` prints exactly one verdict (valid, holey or invalid), the one the library reaches for those files and settings, and exits with success if and only if it is not invalid; `elaborate` and `parse` print the proof the library produces (after the verdict, for `elaborate`), or fail without printing a proof; `bench` prints invalid if any of its files is invalid or can't be read, else holey if any is holey, else valid; `slice` and `generate-lia-problems` write exactly the texts the library produces to the files they name. Options that only change speed, statistics, logging or sharing do not change a verdict, and no command crashes.",
  ["configurations","programs"],"for all option combinations and all proofs", "There are no tests of the command-line program.",
  ["cli/src/main.rs","cli/src/benchmarking.rs","cli/src/path_args.rs","carcara/src/lib.rs","carcara/src/benchmarking/mod.rs"],[("command dispatch and exit status","cli/src/main.rs"),("check, check_parallel, check_and_elaborate entry points","carcara/src/lib.rs")],"standard output, exit status and written files")
p("C24","Strict checking is only ever stricter",
  "Every proof that the strict mode for elaborated proofs, or the strict parser, accepts is accepted with the same or a weaker reservation by the normal mode, and every rule that has a strict form accepts in it only steps it also accepts in the normal form.",
  ["configurations","inputs"],"for all proofs and both modes", "No test compares the two modes on the same proof.",
  ["carcara/src/checker/shared.rs","carcara/src/checker/rules/resolution.rs","carcara/src/checker/rules/reflexivity.rs","carcara/src/parser/mod.rs"],[("mode-dependent rule table","carcara/src/checker/shared.rs")],"verdicts of both modes")
p("C25","Generated arithmetic problems are faithful",
  "For every unchecked linear-arithmetic step (`lia_generic`) outside of subproofs, and for no other step, one SMT problem is generated: a well-formed SMT-LIB text with the logic and exactly the declarations of the original problem, whose assertions hold in exactly the interpretations in which the step's clause does not, so that it is unsatisfiable exactly when the clause is valid.",
  ["inputs"],"for all clauses of such steps", "There is no test of problem generation beyond running it.",
  ["carcara/src/lib.rs","carcara/src/ast/printer.rs"],[("instance printing","carcara/src/ast/printer.rs")],"generated text")
p("C26","Merged statistics do not depend on how work was split",
  "Combining the statistics gathered by several workers gives the same counts, totals, means and extremes as gathering them in one place, for every way of splitting and ordering the measurements.",
  ["histories","schedules"],"for all sequences and partitions of measurements", "A randomized test samples a few sequences.",
  ["carcara/src/benchmarking/metrics.rs","carcara/src/benchmarking/mod.rs"],[("online metric combination","carcara/src/benchmarking/metrics.rs")],"reported metrics")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
