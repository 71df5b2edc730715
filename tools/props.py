NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mech, technique, level_note):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "technique": technique, "level_note": level_note,
    }


PY = ["metalift/frontend/python.py", "metalift/frontend/utils.py"]
PROPS = [
    P("P01", "Python frontend: the verification condition covers every execution",
      "For every Python function the frontend accepts, and every input on which it returns, the verification condition "
      "it produces is not valid for a candidate summary that denies that input/result pair, whatever loop invariants are offered. "
      "This includes chained comparisons, nested and consecutive branches and loops, returns anywhere, calls to uninterpreted functions, "
      "and list and set values that are read, built and updated in place (not aliased).",
      ["programs", "inputs"], "all programs over small statement alphabets up to a size bound, times all inputs of a small domain",
      "The suite runs drivers for about ten fixed programs and (without a synthesizer) cannot even check their verification conditions.",
      PY, [("symbolic execution, state merge, loop cutting", "VCVisitor in metalift/frontend/python.py"),
           ("invariant and summary predicates", "PredicateTracker in metalift/frontend/python.py")],
      "bounded-exhaustive program enumeration; explicit-state least-model search of the VC compared with executing the program",
      "all programs up to the per-family size bound; integers, lists and sets over small domains"),
    P("P02", "Python frontend: the exact summary is never rejected",
      "For every function in the supported subset (loops that do not overwrite parameters), the verification condition is valid when each "
      "predicate is read as exactly the set of states the function reaches: no assertion fails on states that no execution reaches, "
      "so a correct summary with suitable invariants is always accepted. Programs of the supported subset are not refused.",
      ["programs", "inputs"], "all programs over small statement alphabets up to a size bound, times all inputs of a small domain",
      "Precision losses only show as a synthesizer that finds nothing; the suite has no synthesizer run in its stable tests.",
      PY, [("preconditions, havoc and merge", "VCVisitor in metalift/frontend/python.py")],
      "bounded-exhaustive program enumeration; explicit-state least-model search of the VC compared with executing the program",
      "all programs up to the per-family size bound; integers, lists and sets over small domains"),
    P("P03", "Python driver: calls compose and sessions do not influence each other",
      "For every sequence of function analyses, preconditions and calls, the verification condition states about each call exactly what that "
      "call does for the inputs that satisfy the preconditions added before it and the results of earlier calls. "
      "Interleaving the operations of several drivers, or the time at which functions are analyzed, changes nothing.",
      ["histories", "programs"], "all operation sequences up to a depth on one driver and all interleavings on two",
      "Each test driver performs one fixed sequence in a fresh process.",
      PY, [("call state, postconditions, result variables", "MetaliftFunc.__call__ and Driver in metalift/frontend/python.py"),
           ("containers shared between states", "State in metalift/frontend/python.py")],
      "exhaustive enumeration of operation sequences and interleavings against a reference execution",
      "all sessions up to the depth bound over fixed functions"),
    P("P04", "LLVM frontend: the verification condition covers every execution",
      "For every C/C++ function the LLVM frontend accepts (compiled with clang -O0 and the passes of the repository's compile script) and every input on which it returns, "
      "the verification condition is not valid for a candidate summary that denies that input/result pair, whatever loop invariants are offered. This holds for integers, booleans, vectors, vectors of vectors, lists, sets, tuples and uninterpreted functions; "
      "for nested and consecutive branches and for/while/do loops, break, continue and early returns; for several functions on one driver and for preconditions; constructs without a model (pointers, references, arrays, bit operations, ...) are rejected or covered. "
      "Values are assumed to fit their C types, divisions to be of non-negative by positive numbers, and lists not to be modified through aliases.",
      ["programs", "inputs"], "all programs over small statement alphabets up to a size bound, all pairs of functions of a family on one driver, times all inputs of a small domain",
      "The stable tests never run the LLVM frontend; what a loop modifies or a merge drops only shows on particular programs and inputs.",
      ["metalift/frontend/llvm.py", "metalift/analysis.py", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
      [("symbolic execution, merge, havoc", "VCVisitor in metalift/frontend/llvm.py"), ("loops", "parse_loops, LoopInfo in metalift/frontend/llvm.py"),
       ("models of library calls", "fn_models in metalift/frontend/llvm.py")],
      "bounded-exhaustive program enumeration; explicit-state least-model search of the VC compared with running the compiled function",
      "all programs up to the per-family size bound; values over small domains"),
    P("P05", "LLVM frontend: the exact summary is never rejected",
      "For every C/C++ function of the supported subset (integers, booleans, vectors, vectors of vectors, lists, sets, tuples, uninterpreted functions; branches, loops, break, continue, early return) in which no loop appends to a vector parameter, "
      "the frontend accepts the function, and its verification condition is valid when every predicate is read as exactly the states the function reaches: nothing is demanded that no execution does, "
      "so a correct summary with suitable invariants is always accepted. This also holds for several functions analyzed on one driver and under preconditions (which restrict the inputs).",
      ["programs", "inputs"], "all programs over small statement alphabets up to a size bound, all pairs of functions of a family on one driver, times all inputs of a small domain",
      "Precision losses only show as a synthesizer that finds nothing; the suite runs none in its stable tests.",
      ["metalift/frontend/llvm.py", "metalift/analysis.py", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
      [("preconditions, havoc and merge", "VCVisitor in metalift/frontend/llvm.py")],
      "bounded-exhaustive program enumeration; explicit-state least-model search of the VC compared with running the compiled function",
      "all programs up to the per-family size bound; values over small domains"),
    P("P07", "addEmptyBlock pass keeps behaviour and separates branch edges",
      "For every LLVM function, the addEmptyBlock pass (alone and in the documented pass sequence) produces a valid module whose functions execute the same sequence of operations with the same values as before, "
      "including phi nodes reached over every edge, and afterwards every arm of every conditional branch leads to its own block, which has that branch as its only predecessor, contains no phi node and continues to the old target, "
      "so that an assumption placed on an arm holds on that arm only.",
      ["inputs", "programs"], "all control-flow graphs (branch, conditional branch, switch, return terminators; equal targets, loops, self loops) up to a block bound, with phi nodes in every block, times all branch decisions (product state space)",
      "The suite runs the pass on no control-flow graph.",
      ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
      [("edge splitting", "runOnFunction in llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")],
      "exhaustive enumeration of control-flow graphs run through the built pass; product bisimulation of the graph before and after",
      "all graphs up to 3 blocks, all reachable canonical ones up to 4 (quick) / 5 (thorough)"),
    P("P10", "SMT-LIB emission is well-sorted and preserves meaning",
      "For every well-typed expression over integers, booleans, lists, matrices, sets and tuples (arithmetic, comparison, logic, if, let, "
      "calls of library and user functions, function values), Expr.toSMT() is one well-sorted SMT-LIB term over the shipped prelude whose value "
      "is the value of the expression for every assignment; toSMT() of a function definition (FnDecl, FnDeclRecursive, Axiom, declaration "
      "without body) is a well-sorted definition of that function. This holds for user functions whose names resemble library names, and for any literal.",
      ["inputs"], "all typed terms up to a size bound times all assignments over small domains; every operation alone over larger domains",
      "The suite never emits SMT in its stable tests, and each driver emits a handful of fixed shapes.",
      ["metalift/ir.py", "metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt"],
      [("SMT text per node", "Expr.toSMT and its overrides in metalift/ir.py"), ("sorts", "toSMTType in metalift/ir.py")],
      "bounded-exhaustive enumeration of typed terms; evaluation of the emitted text against the term's denotation; cvc5 evaluating a fixed subset of the same text",
      "all typed terms up to the size bound"),
    P("P11", "Rosette emission and the bounded runtime preserve meaning",
      "For every well-typed expression (as for P10) Expr.to_rosette(), run on the shipped bounded.rkt/utils.rkt, evaluates to the value of the expression "
      "for every assignment in the common domain (indices in range, non-negative dividends, positive divisors, no empty matrix rows); to_rosette() of a "
      "function definition defines that function, and the fuel-bounded define-bounded form does within its fuel.",
      ["inputs"], "all typed terms up to a size bound times all assignments over small domains; every runtime operation alone over larger domains",
      "No stable test emits or runs Rosette text.",
      ["metalift/ir.py", "metalift/utils/bounded.rkt", "metalift/utils/utils.rkt"],
      [("Rosette text per node", "Expr.to_rosette and its overrides in metalift/ir.py"), ("library", "metalift/utils/bounded.rkt")],
      "bounded-exhaustive enumeration of typed terms; evaluation of the emitted text on the shipped runtime against the term's denotation",
      "all typed terms up to the size bound, on an evaluator of the Racket subset used (Racket is not installed)"),
    P("P12", "Python emission preserves meaning",
      "For every expression over the operations that have a Python form (integer and boolean operations, if, list and matrix construction, access, slicing, "
      "length, tuples, calls), Expr.to_python() is Python text that evaluates to the value of the expression for every assignment in the common domain; "
      "to_python() of a function definition defines that function.",
      ["inputs"], "all typed terms up to a size bound times all assignments over small domains",
      "The stable tests convert no expression to Python; precedence and nesting need every combination of operators.",
      ["metalift/ir.py"], [("Python text per node", "Expr.to_python and its overrides in metalift/ir.py")],
      "bounded-exhaustive enumeration of typed terms; Python evaluation of the emitted text against the term's denotation",
      "all typed terms up to the size bound"),
    P("P30", "The SMT prelude is a consistent theory of finite sequences",
      "Finite sequences are a model of the shipped SMT prelude: every axiom and every definition in list-axioms.smt, tuples.smt and integer-fn-axioms.smt holds "
      "for all lists and matrices of integers, so no false fact can be proved from it; each defined or axiomatised operation is the sequence operation "
      "of its name (length, get, append, prepend, take, tail, concat, slices, transpose, ...).",
      ["inputs"], "all integers, lists and matrices up to a bound, for every axiom and definition",
      "A verifier that can prove false still passes every test that expects 'verified'.",
      ["metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt", "metalift/utils/integer-fn-axioms.smt"],
      [("axioms", "metalift/utils/list-axioms.smt")],
      "explicit-state evaluation of every axiom and definition of the shipped text in the intended model over all bounded values",
      "all lists and matrices up to the bound"),
    P("P32", "The tensor vocabulary means the same in every form, and its lemmas are true",
      "Every function of the tensor vocabulary (elementwise, scalar, reduction, selection, matrix and tensor operations) computes the mathematical operation of its name "
      "in each form it ships in: IR definition, emitted SMT, emitted Rosette, emitted Python, and the executable llmlift_scripts/dsl.py; and every lemma in "
      "TENSPILER_FN_NAME_TO_AXIOMS is true of those functions for all arguments.",
      ["inputs"], "every function and lemma over all lists, matrices and tensors up to a bound",
      "Verification results that rest on a false lemma or a diverging second definition look exactly like correct ones.",
      ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py", "llmlift_scripts/dsl.py"],
      [("definitions", "tenspiler_common.py"), ("lemmas", "metalift/utils/tenspiler/axioms.py"), ("Python forms", "llmlift_scripts/dsl.py")],
      "exhaustive evaluation of all five forms and of every lemma over all bounded values against a mathematical specification",
      "all lists, matrices and tensors up to the bound"),
    P("P18", "LLM solution parser: what is accepted means the same in the IR",
      "For every Python solution a language model may return, check_solution either rejects it or returns definitions whose IR computes, for every input within the indexing and division domain, exactly what Python computes with the same DSL: "
      "operators and precedence, chained comparisons, literals, list literals, slices, conditionals, DSL calls, lambdas (with the names shared across the solution and the invariants of a benchmark), functions passed by name, recursion, and calls between the functions of a solution. "
      "Solutions of the supported shape (typed functions with a single return expression over the DSL) are accepted, and parameters come out in sorted order, whatever DSLs were used before.",
      ["inputs", "programs", "histories"], "all expressions of the solution language up to a nesting bound over a small vocabulary, listed odd shapes, all sequences of two solutions / two DSLs, times all inputs of a small domain",
      "The stable tests never import llmlift_scripts.",
      ["llmlift_scripts/parser.py"],
      [("translation of typed Python ASTs", "mypy_node_to_ir in llmlift_scripts/parser.py"), ("program assembly and signatures", "check_solution, mypy_parse in llmlift_scripts/parser.py")],
      "bounded-exhaustive enumeration of solutions; differential evaluation of the solution under CPython and of the returned IR on all inputs of a small domain",
      "all two-production expressions; values over small domains"),
    P("P19", "LLM synthesis loop: only proved solutions are reported, all attempts are used",
      "run_llm_synthesis_algorithm returns normally exactly when some proposed solution together with a proposed invariant was proved by the verifier (SMT, bounded Rosette, or none when verification is off): "
      "any other answer of the verifier (sat, unknown, timeout, error, silence, a crash) is not an acceptance. A returned solution computes what the C function computes under its precondition; a pair satisfying the "
      "verification condition is not refused unless it uses lambdas with free variables or renames what it was given. Replies without code, ill-formed code, other names or other parameters cost one attempt and "
      "never end the run early, for each of the language models; each question repeats the earlier proposals for the same part in the model's own message format, and invariants of one solution do not leak into the next. "
      "replace_ite and block extraction keep the meaning of a reply.",
      ["inputs", "programs", "histories"], "all sequences of reply kinds and verifier answers up to the attempt bounds, all pairs of proposed solutions and invariants over four benchmarks and two verifiers, all inputs of a small domain",
      "The stable tests never import llmlift_scripts; unit tests cannot enumerate what a model and a solver may answer.",
      ["llmlift_scripts/synthesis.py", "llmlift_scripts/utils.py"],
      [("attempt loop and verdicts", "run_llm_synthesis_algorithm, verify_benchmark_* in llmlift_scripts/synthesis.py"), ("replies and feedback", "get_*_response, replace_ite, get_inv_args in llmlift_scripts")],
      "exhaustive exploration of reply/verdict histories against the real loop with scripted language models and verifiers; bounded evaluation of the emitted verification conditions; independent judgement of every pair by running C loops and Python",
      "all histories within the attempt bounds; values over small domains; real cvc5 on the linear benchmark"),
    P("P20", "Simplifying a verification condition changes neither its value nor its validity",
      "For every condition, Expr.simplify() returns a condition of the same type and of the same value under every assignment, without touching its input. Eliminating equalities "
      "(optimize_useless_equality with fresh variable counts, repeated until nothing changes, as the synthesizers do under optimize_vc_equality) ends, and the result, over the remaining "
      "and the reported new variables, is valid exactly when the original condition is.",
      ["inputs"], "all conditions over a pool of atoms with up to four hypotheses, nested in every connective; all terms up to a size bound",
      "No stable test enables equality elimination; unsound substitutions only show as a wrong 'verified'.",
      ["metalift/ir.py"], [("simplify, collectKnowledge, rewrite, optimize_useless_equality", "Expr in metalift/ir.py")],
      "bounded-exhaustive enumeration of conditions; validity before and after decided by evaluating every assignment in finite structures",
      "all conditions of the listed shapes; two three-element structures"),
    P("P21", "Post-processing of candidates keeps what they mean",
      "prune_fn_decls returns for every table of function definitions the same functions (names, signatures) with the same values for all arguments; chooseArbitrarily picks a member of the "
      "set of expressions a grammar stands for, with no choice left in it; get_used_fn_names names exactly the functions called; map_args with the identity is the identity and rewrite is substitution; "
      "parse_candidates replaces lambdas by extracted functions of the same meaning and records which functions are passed to which.",
      ["inputs"], "all bodies with nested conditionals over a pool of conditions, all terms up to a size bound",
      "These run on synthesizer output only, which the stable tests never have.",
      ["metalift/synthesis_common.py", "metalift/ir.py"], [("pruning and lambda extraction", "metalift/synthesis_common.py"), ("traversals", "Expr.map_args, rewrite, chooseArbitrarily in metalift/ir.py")],
      "bounded-exhaustive enumeration of function bodies and terms; every assignment evaluated before and after",
      "all bodies and terms up to the size bound"),
    P("P22", "IR built through the object layer denotes the Python operation",
      "Every nesting of the operators and methods of Int, Bool, List (of integers and of lists), Matrix, Tensor3D, Set, Tuple and of ite, implies, call, call_value, make_tuple, choose, fn_decl, and_objects and or_objects, "
      "with IR objects or Python constants as operands, builds an object of the right IR type whose expression denotes that operation on the operands' values; append, prepend and item assignment change "
      "exactly their receiver, everything else changes nothing; ill-typed arithmetic, comparison, container updates and branches are refused, and == between sequences of different types is false.",
      ["inputs"], "all nestings of two (thorough three) operations over all operands, times all assignments of small domains",
      "Drivers use a handful of methods; operand order, constants on either side and in-place effects need every combination.",
      ["metalift/ir.py", "metalift/vc_util.py"], [("objects", "class Object and its subclasses in metalift/ir.py")],
      "bounded-exhaustive enumeration of API call trees; evaluation of the built expression against the operation's reference",
      "all trees up to the depth bound"),
    P("P23", "Equality and hashing of expressions and objects, and the sets built on them",
      "Two expressions are equal exactly when they have the same constructors, names, literals (1 is not True) and operands (IR types are not compared), equal ones hash alike, and != is the negation; "
      "ObjectSet is a set of objects under that equality in insertion order, whose operations leave their operands alone; ObjectWrapper keys objects by it; and_objects and or_objects drop only repeated operands.",
      ["inputs", "histories"], "all pairs of expressions up to a size bound; all object sets and pairs of sets up to a size",
      "State merging and deduplication rest on this for whatever expressions programs produce.",
      ["metalift/ir.py", "metalift/frontend/utils.py", "metalift/vc_util.py"], [("equality", "Expr.__eq__, Object.__eq__"), ("sets", "ObjectSet in metalift/frontend/utils.py")],
      "exhaustive comparison of all pairs of bounded expressions and all bounded sequences of set operations against a reference",
      "all pairs up to the size bound"),
    P("P14", "A grammar emitted for a synthesizer derives exactly the candidates it describes",
      "For every function to synthesize, whatever its name, parameters and tree of choices (nested, shared or repeated choices, choices under any operator), the Rosette define-grammar/define text and the SyGuS synth-fun text "
      "derive exactly the expressions obtained by picking one alternative at each occurrence of each choice, in the right function with the right parameters and sorts; generated symbols never collide with names of the program.",
      ["programs", "inputs"], "all trees of choices up to a node bound over all operators, with all name clashes of a small alphabet",
      "A grammar that lost or gained a member still produces some answer; only the languages as a whole can be compared.",
      ["metalift/ir.py"], [("grammar text", "Synth.to_rosette, Synth.toSMT, Expr.findCommonExprs and Expr.replaceExprs in metalift/ir.py")],
      "bounded-exhaustive enumeration of grammar trees; the derivation language of the emitted text compared with the set of expansions; cvc5 parses a fixed subset",
      "all trees up to the node bound, up to 400 expansions each"),
    P("P15", "The bounded symbolic inputs range over every value up to the bound",
      "For every set of variables (integers, booleans, lists, nested lists, sets of integers, matrices, tensors, tuples) and every bound, the Rosette declarations made for synthesis let each variable take exactly the values "
      "within the bound (lists, sets and matrices of every length up to it), independently of the other variables, and vars_all lists exactly the symbolic constants declared.",
      ["inputs"], "all types up to a nesting depth, alone and in pairs, for all small bounds",
      "An input that is never tried, or a constant left out of the quantifier, only shows as a wrong candidate that happens to be accepted.",
      ["metalift/rosette_translator.py"], [("declarations", "generate_vars in metalift/rosette_translator.py")],
      "exhaustive evaluation of the emitted declarations under every assignment of the symbolic constants; set of reachable values compared with the set of bounded values",
      "all types of the listed shapes, bounds 1 to 3"),
    P("P40", "The Rosette loop returns only verified candidates, always ends, and cleans up",
      "For every history of the external Rosette process (solutions, failures, partially written or stale output files, crashes before any step, any exit code, any timing against the polling loop) and every sequence of verifier answers "
      "(unsat, sat, unknown, timeout, error, killed), synthesize ends, returns exactly the first complete candidate that the verifier accepted (the one actually sent to the verifier), or raises, and no process it started is left running; "
      "with no_verify the first complete candidate is returned.",
      ["histories", "crash_points", "schedules"], "all histories of up to three rounds with every crash point, torn write and relative timing",
      "The loop talks to programs that the stable tests do not have; crashes, torn files and stale files need every interleaving.",
      ["metalift/synthesize_rosette.py", "metalift/rosette_translator.py", "metalift/synthesis_common.py"],
      [("polling loop and verification", "synthesize in metalift/synthesize_rosette.py"), ("output section of the Rosette program", "generate_synth in metalift/rosette_translator.py")],
      "stateless exploration of the real loop under a controlled stand-in for the external processes; all schedules, crash points and torn writes up to the bound",
      "up to three rounds"),
    P("P13", "The SMT file that verifies candidates states the condition of exactly those",
      "For every verification condition, target language (first-order and recursive functions in any order and dependency, uninterpreted functions, axioms, functions taking functions by name) and candidate definitions, the SMT file handed to the verifier is well formed, "
      "defines every function before its use, asserts its negated condition with the value the condition has under those very definitions for every assignment, contains every axiom with its meaning, and writing it changes none of the "
      "inputs; the verifier's answer is returned as it is.",
      ["inputs", "configurations"], "all dependency graphs over three functions in every order, all orders of candidates and helpers, all listed uses of functions as values, times all assignments of small domains",
      "Which function is specialised, and in which order definitions are written, depends on the order of lists and sets; the verifier's answer to a wrong file looks like any other.",
      ["metalift/smt_util.py", "metalift/synthesis_common.py"], [("SMT file", "toSMT in metalift/smt_util.py"), ("verification", "verify_synth_result in metalift/synthesis_common.py")],
      "bounded-exhaustive enumeration of problems; the written file is executed by an SMT evaluator for every assignment and compared with the reference semantics; cvc5 reads a fixed subset",
      "all problems of the listed shapes; lambdas in candidates are excluded"),
    P("P16", "The solution Rosette prints is read back as the program it denotes",
      "For every solution text that Rosette can print for a grammar (any variant of layout that keeps `(define` headers on one line, choice-free non-terminals kept or expanded, chooses with one arm left), the candidate functions read from it "
      "have the names, parameters, types and, on every assignment, the values the text denotes; and every expression that is written in Rosette and read back means the same.",
      ["inputs"], "all terms up to size five over the operators, all words of grammar trees in every printed form",
      "A misread solution is verified as something else than was synthesized; any single solution exercises one printed form.",
      ["metalift/synthesize_rosette.py"], [("reading", "to_expr, parse_output and helpers in metalift/synthesize_rosette.py")],
      "bounded-exhaustive enumeration of terms and printed forms, round trip through the real reader, values compared on every assignment",
      "all terms up to size five; apply, map_* and reduce_* are excluded"),
    P("P17", "What cvc5 prints for a candidate is read back as the function it means",
      "For every sygus-candidate line over integers, booleans, sets of integers, tuples and calls of target functions, in every form cvc5 prints (n-ary operators, negated literals, shared subterms in nested or parallel lets), each function to synthesize, "
      "whatever its name and place in the line, is read as a definition with its own parameters and type and, on every assignment, the value of the printed term.",
      ["inputs"], "all terms up to size four (thorough five) in every printed form, all lines of three functions over twelve names in every order",
      "The read candidate is what is verified and returned; sharing and argument order only show on particular terms.",
      ["metalift/synthesize_cvc5.py"], [("reading", "generateCandidates, toExpr, generateAST in metalift/synthesize_cvc5.py")],
      "bounded-exhaustive enumeration of terms and printed forms through the real reader, values compared on every assignment; cvc5 itself prints every term up to size three",
      "all terms up to the size bound; SyGuS files have no list functions, so lists are excluded"),
    P("P41", "The cvc5 SyGuS loop returns only verified answers, always ends, and cleans up",
      "For every output of the SyGuS solver (any sequence of enumeration and candidate lines, then an answer, fail, infeasible, unknown, timeout or nothing; death inside any line; any exit code; any names) and every verifier answer, synthesize ends, "
      "returns exactly the functions of the answered candidate when the verifier answers unsat for them, and raises otherwise; no process is left running; with cvc5 itself it finds a member of the grammar that makes the condition hold whenever one exists.",
      ["histories", "crash_points"], "all outputs of up to three candidates x kinds of end x exit codes x verifier answers, deaths inside every line; every pair of grammars of a family with the real cvc5",
      "The stable tests never start a SyGuS solver; ends without an answer and odd names need every history.",
      ["metalift/synthesize_cvc5.py", "metalift/smt_util.py"], [("loop", "synthesize in metalift/synthesize_cvc5.py"), ("SyGuS file", "toSMT in metalift/smt_util.py")],
      "exhaustive exploration of the real loop against a stand-in solver under all bounded outputs and crash points, plus conformance runs of the real solver",
      "up to three candidates; the loop family for the real solver"),
    P("P43", "A synthesis run ends with functions equivalent to the programs, or an exception",
      "For every program given to a driver (Python, C or C++; branches, loops, lists, sets, matrices, chained or several functions, auxiliary and uninterpreted functions, any function names, grammars with or without choices) and every answer "
      "the emitted synthesis query allows its synthesizer to give, the driver's synthesize either returns with every analyzed function's result set to an expression that computes what that function computes, or raises; it returns for an answer that is "
      "a correct summary with suitable invariants, raises when there is no answer, and no code can be generated before. The same holds when cvc5's SyGuS solver is the synthesizer.",
      ["programs", "histories"], "all words of the emitted grammars of a family of programs, the answer 'no solution', and the real cvc5",
      "The suite has no synthesizer: nothing after the verification condition ever runs in it, and which candidates reach a user depends on the whole chain.",
      ["metalift/frontend/python.py", "metalift/frontend/llvm.py", "metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py"],
      [("end-to-end driver", "Driver.synthesize and MetaliftFunc in metalift/frontend/python.py and metalift/frontend/llvm.py"), ("reading and verifying the answer", "synthesize in metalift/synthesize_rosette.py and metalift/synthesize_cvc5.py")],
      "exhaustive enumeration of the synthesizer's answers (all words of the emitted grammars) through the real drivers, results compared with the programs on all inputs of a small domain",
      "a family of programs and grammars; list, set and matrix conditions are verified on a small domain"),
    P("P33", "tenspiler's search spaces are well-formed and contain the programs they are for",
      "Every search space tenspiler offers (holing and general, every depth it can be given, relaxed or not) can be built and written for the synthesizer, and each alternative of its grammars is well-typed and refers only to things in scope. "
      "The holing space of each of the ten blend benchmarks contains helper, invariants and summary that verify for it and for its column-wise form on square matrices, the general spaces do for programs that need no arithmetic, "
      "and the driver given them returns a program equal to the source. "
      "The depth builders for integers, lists and matrices contain every expression of up to two operations within their depth and choose nothing outside what they are given.",
      ["programs", "configurations"], "all offered spaces, all their alternatives, all words of the parts that matter, all builder expressions of up to two operations",
      "A space without its program shows only as a synthesizer that finds nothing, and the suite has no synthesizer.",
      ["metalift/utils/tenspiler/tenspiler_common.py"],
      [("search spaces", "get_*_search_space, *_hole_body and depth builders in metalift/utils/tenspiler/tenspiler_common.py")],
      "exhaustive enumeration of the emitted grammars' words up to behaviour on the reachable states, through the real drivers; verification condition and result evaluated on a bounded domain against C++ references",
      "depth of general spaces as listed; matrices up to three rows"),
    P("P42", "Variables made for a tracker's groups are new, and it lists what it handed out",
      "For every history of named variables, groups and variables of groups, a variable made for a group has a name that was not handed out before, a named variable has its name, each variable has the type asked for, "
      "and all() lists exactly the variables handed out, each once and with its type.",
      ["histories"], "all histories up to the depth over names chosen to clash with the names that are made up",
      "Two variables with one name are one variable of the verification condition; which histories make them clash is not visible in a single one.",
      ["metalift/analysis.py"], [("variables", "VariableTracker, VariableGroup in metalift/analysis.py")],
      "stateless exhaustive exploration: every history is replayed on a new tracker and its results checked",
      "histories of up to four (thorough five) steps over five and seven names, up to six (seven) over two"),
]
