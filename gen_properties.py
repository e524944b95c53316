#!/usr/bin/env python3
# Generates properties.jsonl (kept so that the list is easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Arithmetic literal operators compute exact integer and rational results",
  "For all numeral, rational and decimal operands, eo::add, eo::mul, eo::neg, eo::is_neg, eo::gt, eo::qdiv, eo::zdiv, eo::zmod, eo::to_z and eo::to_q reduce to exactly the mathematically defined value, in the literal category the manual gives (for a positive divisor zdiv is the floor quotient, and zmod is always t1 - t2*zdiv, with 0 <= zmod < |t2|). Applications the manual leaves undefined (mixed literal categories, zdiv/zmod/qdiv by zero, non-numeral zdiv) stay unevaluated and never crash the checker.",
  ["inputs"],"all operand values (symbolic integers/rationals of bounded bit width, both signs), all literal category combinations, arities 1-3",
  "tests/arith-eval.eo, evaluate.eo and evaluation.eo sample a few dozen concrete operands; an off-by-one in rounding of negative operands, a sign error or a wrong category only shows for particular values.",
  ["src/literal.cpp","src/util/integer.cpp","src/util/rational.cpp","src/type_checker.cpp"],
  [("Literal::evaluate dispatch on operator and common literal kind","src/literal.cpp"),("Integer::euclidianDivide*, Rational arithmetic over GMP","src/util/integer.cpp, src/util/rational.cpp"),("evaluation of literal operators on ground terms","src/type_checker.cpp (evaluateLiteralOpInternal)")],
  observe=["value and kind of the literal an eo:: application reduces to"])
p("C02","Bit-vector literal operators are exact modular arithmetic on their width",
  "For all binary and hexadecimal operands of equal width, eo::and/or/xor/not/add/mul/neg/zdiv/zmod return the bit-vector of the same width and category holding the exact (unsigned, modulo 2^w, total division) result; operands of different widths or categories do not evaluate. eo::len, eo::concat, eo::extract (bits i..j, clipped to the width, the empty vector when i<0 or the range is empty), eo::to_z and eo::to_bin (zero-extend or truncate to the requested width, numerals modulo 2^w) denote exactly the selected bits and width.",
  ["inputs"],"all bit patterns of all operands for every width in the bound, all extract index pairs including negative and out-of-range ones, all to_bin widths in the bound",
  "tests/bv-eval.eo, bv-extract.eo and bv-concat.eo check a handful of constants; index corner cases (index equal to the width, empty results) and carry/overflow patterns are not sampled.",
  ["src/literal.cpp","src/util/bitvector.cpp","src/util/bitvector.h","src/util/integer.cpp"],
  [("Literal::evaluate","src/literal.cpp"),("BitVector operators normalise modulo 2^size","src/util/bitvector.cpp"),("Integer bit operations","src/util/integer.cpp")],
  observe=["width, value and kind of the result literal"])
p("C03","String literal operators follow the SMT-LIB sequence semantics",
  "For all string operands, eo::len, eo::concat, eo::extract (characters i..j clipped to the string, empty when i<0 or the range is empty), eo::find (least index of an occurrence, 0 for the empty pattern, -1 if none), eo::to_z (code point of a length-one string) and eo::to_str (the one-character string of a code point in 0..196607) return exactly the specified string or numeral. Applications outside these cases stay unevaluated.",
  ["inputs"],"all character sequences up to the length bound over all code points, all index values including negative and beyond-the-end ones, all numerals for to_str",
  "tests/str-eval.eo and to_string.eo use fixed short ASCII strings; overlapping-pattern searches, end-of-string indices and code point range limits are quantified over all inputs.",
  ["src/literal.cpp","src/util/string.cpp","src/util/string.h"],
  [("Literal::evaluate","src/literal.cpp"),("String::find/substr/concat","src/util/string.cpp")],
  observe=["the literal an eo:: string application reduces to"])
p("C04","Literal tokens denote their value; equal values are one term; printing re-parses",
  "Every literal token of the SMT-LIB 3 categories denotes exactly the value it spells (sign, leading zeros, fractions reduced to lowest terms, trailing decimal zeros dropped, hexadecimal digits of either case, string escapes \"\" , \\u{...} and \\uXXXX), and two tokens denote the same term if and only if they have the same category, value and (for bit-vectors) width, after the normalisation options (decimal to rational, hexadecimal to binary, numeral to rational) which apply to proof and reference files only. Printing a literal (other than a decimal, which is printed as an annotated rational) yields a token that parses back to the same term. Malformed literals are rejected with an error message.",
  ["inputs","configurations"],"all byte strings of the literal grammar up to the length bound, for each combination of normalisation options and file type",
  "tests/literals.eo and bv-literals.eo cover a dozen spellings; the equivalence over all spellings (leading zeros, escapes, case, non-reduced fractions) cannot be enumerated by tests.",
  ["src/lexer.cpp","src/expr_parser.cpp","src/state.cpp","src/literal.cpp","src/util/rational.cpp","src/util/bitvector.cpp","src/util/string.cpp"],
  [("tokenising of numerals, decimals, rationals, #b/#x, strings","src/lexer.cpp"),("mkLiteral and literal caches, normalisation options","src/state.cpp, src/expr_parser.cpp"),("toString of each literal class","src/literal.cpp, src/util/*.cpp")],
  observe=["term identity of parsed literals; text printed by error messages and eo::to_str"])
p("C05","Structurally equal terms are the same term, and live terms survive collection",
  "At any point of any history of constructing and dropping terms, two live term handles are identical if and only if they were built from the same kind, the same literal or symbol, and identical children. A term reachable from a live handle is never freed, altered or duplicated, however many unrelated terms are created and released meanwhile.",
  ["histories"],"all bounded sequences of build/share/release/rebuild operations over symbols, literals and applications, with symbolic choice of operation, operands and literal values",
  "The tests build terms once per process; interleavings of sharing and release, where a stale cache entry or a lost reference count shows, are histories no test samples.",
  ["src/expr.cpp","src/expr.h","src/expr_trie.h","src/state.cpp"],
  [("hash-consing trie","src/expr_trie.h, src/state.cpp (mkExprInternal)"),("reference counting and deferred deletion","src/expr.cpp, src/state.cpp (markDeleted)")],
  state=[("d_trie, literal caches","canonical node for every (kind, children)","src/state.h"),("d_rc","number of live references","src/expr.h"),("d_toDelete","pending deletions","src/state.h")],
  observe=["identity and children of Expr handles"])
p("C06","Any input bytes end in acceptance or a diagnosed error, never a crash",
  "For every sequence of input bytes given as an Eunoia signature, proof or reference file, the checker terminates with either a verdict (exit status 0) or a diagnosed error (error message, failure status); it never dereferences invalid memory, trips an internal consistency check, ends by an uncaught exception or ignores the remainder of a file. No byte sequence that is not a complete well-formed list of commands yields a verdict.",
  ["inputs"],"all byte values at every symbolic position of command skeletons of bounded length, for all three file types",
  "Tests are well-formed files (plus a few expected failures); malformed bytes at arbitrary positions are a 256^n input space.",
  ["src/lexer.cpp","src/cmd_parser.cpp","src/expr_parser.cpp","src/parser.cpp","src/input.cpp"],
  [("tokeniser character classes and parse errors","src/lexer.cpp"),("command dispatch and end-of-file handling","src/cmd_parser.cpp"),("iterative term parser with explicit stack","src/expr_parser.cpp")],
  observe=["exit status, stdout, stderr"])
p("C07","Layout, comments and quoting do not change what an input means",
  "Replacing the white space between tokens by any other non-empty white space, inserting comments, or writing a symbol (other than the name of a command or a reserved word such as Type, Bool or let) in quoted form |s| leaves the parsed terms and the verdict unchanged, and no two different symbols, keywords or literals are confused by tokenising. A comment extends exactly to the end of its line.",
  ["inputs"],"all byte values of the separating white-space and comment text and all choices of quoting, up to the length bound",
  "tests/quoted.eo shows one quoted symbol; the invariance is over all layouts.",
  ["src/lexer.cpp","src/expr_parser.cpp"],
  [("white space and comment skipping, quoted symbols","src/lexer.cpp")],
  observe=["verdict; identity of the parsed terms"])
p("C08","Applications of attributed functions desugar exactly as declared",
  "Applying a function marked :right-assoc, :left-assoc, :right-assoc-nil, :left-assoc-nil, their non-singleton-nil variants, :chainable, :pairwise or :arg-list to any number of arguments denotes exactly the term the manual defines for that attribute: nesting direction, insertion of the nil terminator, splicing of arguments marked :list, combination with the connective, and the one- and two-argument cases. Applications written with _ are never desugared.",
  ["inputs","programs"],"all attributes, all argument counts and all choices of which arguments are plain terms, :list parameters or lists, up to the bound",
  "Each test shows one or two shapes per attribute; the product of attributes, arities and :list positions is far larger.",
  ["src/state.cpp","src/expr_parser.cpp","src/attr.cpp"],
  [("mkApplyAttr","src/state.cpp"),(":list handling and nil computation","src/state.cpp, src/type_checker.cpp")],
  observe=["structure of the parsed term"])
p("C09","List operators compute the specified list, for either associativity",
  "For every associative-with-nil function f and all f-lists, eo::nil, eo::cons, eo::list_len, eo::list_concat, eo::list_nth, eo::list_find, eo::list_rev, eo::list_erase, eo::list_erase_all, eo::list_setof, eo::list_minclude, eo::list_meq, eo::list_diff, eo::list_inter and eo::list_singleton_elim reduce to exactly the result their defining recursion in the manual gives. On arguments that are not f-lists, and on out-of-range indices, they do not evaluate.",
  ["inputs","programs"],"all lists up to the length bound with symbolic elements (every equality pattern between elements), both associativities, non-list arguments and all index values",
  "Tests fix a handful of lists; duplicates, element order and multiplicity interact in ways that depend on the equality pattern of all elements.",
  ["src/type_checker.cpp","src/state.cpp"],
  [("list operator evaluation","src/type_checker.cpp (evaluateLiteralOpInternal)")],
  observe=["structure of the reduced term"])
p("C10","Core operators decide syntactic equality and control evaluation as specified",
  "On ground terms, eo::eq and eo::is_eq are true exactly for syntactically identical values, eo::requires reduces to its third argument exactly when the first two are identical values, eo::ite evaluates only the selected branch, eo::is_ok is true exactly for values, eo::hash is injective, eo::cmp is the strict total order eo::hash induces, and eo::is_z/is_q/is_bin/is_str/is_bool/is_var, eo::typeof, eo::nameof and eo::var agree with their definitions. On terms that did not evaluate they stay unevaluated (or give false) as the manual says.",
  ["inputs","programs"],"all choices of arguments among literals with symbolic values, declared constants, variables, applications and stuck terms, up to the depth bound",
  "tests cover single instances; agreement with the derived definitions must hold for every pair of argument shapes and values.",
  ["src/type_checker.cpp","src/state.cpp","src/literal.cpp"],
  [("evaluateLiteralOpInternal and ite/requires handling in evaluate","src/type_checker.cpp"),("getHash","src/state.cpp")],
  observe=["the term an application reduces to"])
p("C11","An application is accepted exactly when its arguments fit the function type",
  "A term application type checks if and only if there is one instantiation of the function type's parameters under which every argument's type equals the declared argument type (or the argument itself matches, for quoted arguments), and its type is then the return type under that instantiation, with all eo::requires conditions satisfied. Ill-typed applications are rejected wherever they occur.",
  ["inputs","programs"],"all choices of function signature (simple, polymorphic, higher-order, dependent, with requirements) and argument terms up to the bound",
  "Tests are almost all well-typed programs; rejection of every ill-typed argument combination is a universally quantified claim.",
  ["src/type_checker.cpp","src/state.cpp","src/expr_parser.cpp"],
  [("getTypeAppInternal, match, getTypeInternal","src/type_checker.cpp")],
  observe=["accept/reject and the computed type"])
p("C12","Programs evaluate by the first matching case under a consistent substitution",
  "Applying a program to ground values reduces to the body of the first case, in declared order, whose pattern matches the arguments, under the substitution binding every parameter consistently (non-linear patterns require syntactically identical terms), and is left unevaluated when no case matches. Patterns match syntactically and never capture or alter parts of the argument.",
  ["inputs","programs"],"all argument terms up to the depth bound against all programs of a bounded pattern grammar, with symbolic choice of patterns, case order and arguments",
  "Each test exercises one program on one argument; first-match order and non-linear matching have to hold for all pattern/argument pairs.",
  ["src/type_checker.cpp","src/expr.cpp"],
  [("evaluateProgramInternal","src/type_checker.cpp"),("match","src/type_checker.cpp"),("evaluate with substitution context","src/type_checker.cpp")],
  observe=["the reduced term"])
p("C13","A proof step is accepted only if its rule proves exactly the given conclusion",
  "A step is accepted if and only if the rule's argument patterns followed by its premise patterns match consistently, one by one, the given arguments followed by the given premises (where a premise pattern only matches a proof of a formula it matches, and for a rule with an assumption or an explicit conclusion the numbers of arguments and of premises must each be right), all :requires hold, and the instantiated conclusion is a formula identical to the one stated (if one is stated). After an accepted step its name denotes a proof of exactly that conclusion; a wrong step makes the whole run fail and never yields the verdict correct.",
  ["inputs","programs"],"all choices of rule (premises, premise lists, arguments, requirements, explicit conclusions), premises, arguments and stated conclusion up to the bound",
  "A test suite contains valid proofs; that every invalid instance is rejected is the soundness claim and cannot be sampled.",
  ["src/cmd_parser.cpp","src/state.cpp","src/type_checker.cpp"],
  [("step command handling","src/cmd_parser.cpp"),("notifyStep","src/state.cpp"),("getTypeApp/evaluateProgram for rules","src/type_checker.cpp")],
  observe=["verdict, exit status"])
p("C14","Local assumptions are discharged exactly once, innermost first, and never leak",
  "In every sequence of assume, assume-push, step and step-pop commands, a step-pop is accepted only with an open assume-push scope, passes exactly the formula of the innermost open assume-push to its rule, and closes that scope, after which no name introduced inside it can be used. A file with an assumption scope still open at its end is rejected.",
  ["histories","programs"],"all command sequences up to the length bound with symbolic choice of command, formulas and referenced premises",
  "tests contain a few straight nestings; misuse (popping twice, referring to a discharged name, unbalanced scopes) spans all interleavings.",
  ["src/cmd_parser.cpp","src/state.cpp"],
  [("pushAssumptionScope/popAssumptionScope","src/state.cpp"),("assume-push and step-pop commands","src/cmd_parser.cpp"),("scope balance check in includeFile","src/state.cpp")],
  state=[("d_assumptions, d_assumptionsSizeCtx","open assumptions","src/state.h"),("d_declsSizeCtx","declaration scopes","src/state.h")],
  observe=["verdict, exit status"])
p("C15","With a reference file, every proof assumption is one of its assertions",
  "Once a reference file has been given, by the reference command or on the command line, every assume command that is not locally scoped by assume-push is accepted only if its formula (after the optional normalisation program is applied to both sides) is syntactically one of the asserted formulas (or the equation that a define-fun of the reference stands for). Nothing processed before or after, such as further includes, disables the check.",
  ["inputs","programs","configurations"],"all sets of asserted and assumed formulas and all placements of include, assume, assume-push and reference commands up to the bound; command-line and in-file reference",
  "tests/reference cases check one accepted file each; the check must reject every foreign assumption in every context.",
  ["src/state.cpp","src/cmd_parser.cpp","src/main.cpp"],
  [("addAssumption/addReferenceAssert","src/state.cpp"),("includeFile with isReference","src/state.cpp"),("reference command","src/cmd_parser.cpp")],
  state=[("d_hasReference, d_referenceAsserts, d_referenceNf","the reference","src/state.h")],
  observe=["verdict, exit status"])
p("C16","The verdict is correct only for complete proofs, incomplete iff sorry was used",
  "The checker prints exactly one verdict, and only when every command of every included file was accepted: it prints incomplete if a step used a rule marked :sorry and correct otherwise, with exit status 0. Every rejected command makes the run end with a failure status and no verdict, whatever follows it.",
  ["programs","histories"],"all sequences of accepted, rejected and sorry steps up to the length bound",
  "Existing tests check only the exit code of good files; verdicts for all mixtures of steps are not sampled.",
  ["src/main.cpp","src/state.cpp","src/cmd_parser.cpp","src/stats.cpp"],
  [("final verdict","src/main.cpp"),("markProofRuleSorry, rule statistics","src/state.cpp, src/stats.cpp"),("FatalStream","src/base/check.cpp")],
  observe=["stdout, exit status"])
p("C17","A symbol always denotes its innermost visible binding or declared overload",
  "Leaving a scope (pop, end of a rule, program, definition or binder) restores exactly the bindings that were visible on entry, an unapplied name denotes its innermost, most recent visible binding, and the head of an application the innermost, most recent visible binding of that name whose type fits the arguments (whatever other names the same term has). A name with no visible binding is rejected. Rules have such scopes too, but a visible rule cannot be declared again.",
  ["histories","programs"],"all sequences of declarations, push, pop and uses up to the length bound with symbolic names and types",
  "tests/overloading.eo, scopes.eo and push-pop.eo are single traces; the restoration property is over all traces.",
  ["src/state.cpp","src/expr_parser.cpp","src/cmd_parser.cpp"],
  [("bind, pushScope, popScope","src/state.cpp"),("getOverloadInternal","src/state.cpp"),("symbol lookup","src/expr_parser.cpp")],
  state=[("d_symTable, d_decls, d_declsSizeCtx, d_overloads, d_overloadedDecls","the symbol table","src/state.h")],
  observe=["which declaration a parsed name denotes"])
p("C18","Binders and let denote their variables and bodies exactly",
  "A bound variable is determined by its name and type alone (the same name and type always give the same variable, and a different name or type a different one), a binder application denotes the function applied to the list of its variables and the body with each variable replaced by its innermost declaration, and a let denotes its body with the bound terms substituted in parallel. None of these bindings is visible outside its body.",
  ["inputs","programs"],"all nestings of binders and lets up to the depth bound with symbolic names, types and uses",
  "tests show a few nestings; shadowing and escaping must be right for every choice of names.",
  ["src/expr_parser.cpp","src/state.cpp"],
  [("binder and let parsing","src/expr_parser.cpp"),("getBoundVar, mkBinderList","src/state.cpp")],
  observe=["structure of the parsed term; accept/reject"])
p("C19","Definitions are transparent macros",
  "A symbol introduced by define (with or without parameters), and an application of it, denotes exactly the term obtained by replacing the parameters of its body by the arguments simultaneously; the result is identical to writing the expanded body. An application to another number of arguments is not expanded, and never well typed if there are too many.",
  ["inputs","programs"],"all bodies and arguments up to the depth bound, including arguments that mention parameters of the same name",
  "tests define a few macros with disjoint names; capture and simultaneous substitution errors need clashing names.",
  ["src/cmd_parser.cpp","src/type_checker.cpp","src/state.cpp"],
  [("define command","src/cmd_parser.cpp"),("beta reduction of LAMBDA","src/state.cpp, src/type_checker.cpp")],
  observe=["identity of the resulting term"])
p("C20","Files are included once, relative to the including file, wherever they lie",
  "An include or reference path is resolved relative to the directory of the file containing the command, a file is processed exactly once however its path is spelled (redundant ./ , ../ or repeated slashes), and the path of the including file is restored afterwards. Different files are never mistaken for the same one.",
  ["inputs","programs"],"all path spellings up to the length bound over the characters '.', '/' and names, all nestings up to the depth bound",
  "tests include files by one spelling; canonicalisation has to identify all equivalent spellings and no others.",
  ["src/util/filesystem.cpp","src/state.cpp","src/cmd_parser.cpp"],
  [("Filepath::makeCanonical, parentPath, append","src/util/filesystem.cpp"),("includeFile, markIncluded","src/state.cpp")],
  observe=["which file is read, how often"])
p("C21","Datatype declarations give exactly the declared constructors and selectors",
  "After declare-datatype(s), each constructor has the function type from its selector types to the datatype, each selector the type from the datatype to its field, eo::dt_constructors and eo::dt_selectors return exactly the declared lists in declared order, testers and updaters exist for exactly these, and ambiguous constructors of parametric datatypes are usable only with the type they are annotated with. On other terms eo::dt_constructors and eo::dt_selectors are left unevaluated.",
  ["inputs","programs"],"all datatype declarations of bounded size (constructors, selectors, parameters, self reference)",
  "tests/datatype-simple.eo and par-dt.eo declare a few fixed datatypes.",
  ["src/expr_parser.cpp","src/cmd_parser.cpp","src/type_checker.cpp","src/state.cpp"],
  [("parseDatatypesDef/parseConstructorDefinitionList","src/expr_parser.cpp"),("dt_constructors/dt_selectors evaluation","src/type_checker.cpp")],
  observe=["types and lists observed through terms"])
p("C22","Printed terms re-read as the same term, with or without dag printing",
  "For every ground term over visible symbols that are neither overloaded nor redeclared, the text the checker prints for it in a message, read back in the same signature, denotes the same term, whether shared subterms are printed through let bindings or in full; printing never changes any term or the verdict.",
  ["inputs","configurations"],"all terms up to the depth bound with symbolic choice of structure and literal values, both settings of print-dag",
  "No test re-reads printed terms.",
  ["src/expr.cpp","src/literal.cpp"],
  [("Expr::printDebug and letification","src/expr.cpp")],
  observe=["printed text"])
p("C23","Streaming the input gives the same outcome as reading it from a file",
  "The same proof text yields the same verdict, output, exit status and diagnosis of the first error (up to the name of the input) whether it is piped on standard input or named on the command line, however the stream delivers its bytes; a trailing part of the input is never ignored, and an input that cannot be read to its end is never accepted.",
  ["inputs","configurations"],"all command sequences and byte values of the bounded skeletons",
  "Tests never use standard input.",
  ["src/main.cpp","src/lexer.cpp","src/input.cpp","src/state.cpp"],
  [("main stdin branch vs includeFile","src/main.cpp, src/state.cpp"),("buffered and interactive reading","src/lexer.cpp")],
  observe=["stdout, exit status"])
p("C24","After reset a run continues as if it had just begun",
  "After (reset), no declaration, definition, rule, literal type, scope, assumption or proof of an earlier command has any effect: every later command is accepted exactly if it would be at the beginning of a run, and every term then means the same and has the same type. Only what concerns the run as a whole remains: a use of sorry, the files already included, and a reference.",
  ["histories"],"all sequences of commands before and after reset up to the length bound, all literals",
  "The tests use reset once; whether something is left over depends on what came before and what follows.",
  ["src/state.cpp","src/type_checker.cpp","src/cmd_parser.cpp"],
  [("State::reset","src/state.cpp"),("types of literals and cached types","src/type_checker.cpp"),("reset command","src/cmd_parser.cpp")],
  observe=["acceptance, verdict, printed terms and types"])
p("C25","Options and files of a command line mean what the manual says, in any order",
  "For every command line, options, the input file and --include/--reference files may be mixed in any order: options apply to all input (of two settings of one option the later counts), the includes and the reference are processed in their order before the input file, and an unknown option, a missing file, a second input file or a second reference makes the run fail with a message and without a verdict. Each documented option, given there or by a set-option command for what is read after it, changes exactly what the manual says: normalisation and let in proof and reference files but not in signatures, how terms are printed, the rule symbol table, and the statistics after the verdict. set-option in a reference has no effect.",
  ["inputs","configurations"],"all sequences of options, files and option names up to the length bound, for each kind of input file",
  "The tests run each file with the default options and one command line.",
  ["src/main.cpp","src/state.cpp","src/cmd_parser.cpp","src/expr_parser.cpp"],
  [("main","src/main.cpp"),("Options::setOption","src/state.cpp"),("set-option command","src/cmd_parser.cpp"),("normalisation of literals","src/expr_parser.cpp")],
  observe=["verdict, output, exit status, diagnosis"])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch); assert len(x["title"])<=80,(x["id"],len(x["title"]))
