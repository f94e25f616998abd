import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"state the property ranges over"}]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/libdredd/src/"
BIN,UN,EX,RM,AC,VI,UT,TR=[S+f for f in("mutation_replace_binary_operator.cc","mutation_replace_unary_operator.cc","mutation_replace_expr.cc","mutation_remove_stmt.cc","mutate_ast_consumer.cc","mutate_visitor.cc","util.cc","mutation_tree_node.cc")]
p("C01","With no mutant enabled, an instrumented site behaves as the original code",
 "For every operator, expression or statement that Dredd instruments, in C and in C++, with and without mutant optimisations, when no mutant of that site is enabled the rewritten text computes the original operator on the original operands: same value and type, each operand evaluated exactly as often as originally (short-circuiting included), the same lvalue updated, and a wrapped statement executed unchanged, up to the order of evaluation of operands where the language before C++17 leaves it unspecified. This holds both before the enabled set has been read (first use) and once it is known that nothing is enabled, and enabling a mutant of one site never changes any other site.",
 ["inputs","configurations"],"all operators x operand types/qualifiers/constness/side effects x language x optimisation setting x enabled set not containing the site's ids",
 "The single-file tests compare text against checked-in text for a few hundred programs; nothing evaluates the emitted helper functions over all operator/type/side-effect/optimisation combinations.",
 [BIN,UN,EX,RM],[("binary operator site and helper",BIN+":GenerateMutatorFunction/ReplaceOperator/HandleCLogicalOperator"),("unary operator site and helper",UN+":Apply/GenerateMutatorFunction"),("expression site and helper",EX+":ReplaceExprWithFunctionCall/GenerateMutatorFunction"),("statement wrapper",RM+":Apply")],
 obs="text edits and helper functions given to clang::Rewriter / dredd_declarations by Mutation::Apply")
p("C02","Enabling mutant i performs exactly the change recorded for i",
 "If only mutant i is enabled, the site that owns i behaves as the original site with exactly the change that the mutation info records for i: the recorded replacement operator applied to the same operands, the recorded operand or constant in place of the expression, the recorded operator inserted, or the recorded statement skipped. In C++ an operand with side effects that the change discards is not evaluated (C helpers take operands by value and evaluate both, except for && and ||), operands it keeps are evaluated once, and assignment-like replacements act on the same lvalue.",
 ["inputs","configurations"],"all sites x all their mutant ids x language x optimisation setting",
 "No test relates the JSON action of an id to the behaviour of the generated branch for that id; a swap of two actions, an off-by-one between the id in the branch and the recorded id, or a wrong operator string passes the suite where the text is not pinned.",
 [BIN,UN,EX,RM],[("operator replacement branches and recorded action",BIN+":GenerateBinaryOperatorReplacement/AddMutationInstance/OperatorKindToAction"),("argument replacement",BIN+":GenerateArgumentReplacement"),("unary replacement / insertion",UN+":GenerateUnaryOperatorReplacement"),("constant replacement and operator insertion",EX+":Generate*Replacement/GenerateUnaryOperatorInsertion*"),("removal",RM+":Apply")],
 obs="helper function branches vs protobuf instances of the same Apply call")
p("C03","Mutant ids are dense, unique and agree between text, info file and files",
 "Over one Dredd run the mutant ids in the mutation info are exactly 0..N-1, each recorded once, assigned in the order the groups are applied, continuing from file to file without gap or overlap. The file-local id passed at each site plus the file's first id is the id recorded for the site's first mutant, each helper queries exactly the offsets recorded for its site, and the info is the same whether or not coverage tracking is on.",
 ["inputs","configurations","histories"],"all files and sequences of files, all sites, both modes",
 "Tests look at the text of single files and at a handful of JSON facts; numbering across sites, modes and files is a global invariant.",
 [BIN,UN,EX,RM,AC],[("id assignment in each Apply",BIN+":Apply"),("id counter threading",AC+":ApplyMutations"),("running counter shared by files","src/libdredd/src/new_mutate_frontend_action_factory.cc"),("info written by main","src/dredd/src/main.cc")],
 state="mutation_id counter (int&), protobuf instances",obs="--mutation-info-file JSON and local ids in the text")
p("C04","DREDD_ENABLED_MUTATION enables exactly the listed mutants of the file",
 "In the emitted C and C++ prelude, in every thread __dredd_enabled_mutation(k) is true iff the environment variable is set and its comma-separated list contains the integer first_id+k for a mutant k of this file; ids of other files, empty items and an unset variable enable nothing. The shortcut flag __dredd_some_mutation_enabled is true until the first query of the thread and afterwards exactly when some mutant of this file is enabled, and no list content or mutant count makes the bitset be accessed out of bounds.",
 ["inputs","configurations"],"all first ids, mutant counts, lists of ids and local ids, for both preludes",
 "Tests only compare the prelude text for small files; word boundaries (63/64/65), large ids and multi-file offsets are never executed.",
 [AC],[("C++ prelude",AC+":GetRegularDreddPreludeCpp"),("C prelude",AC+":GetRegularDreddPreludeC"),("prelude selection",AC+":GetDreddPreludeCpp/GetDreddPreludeC")],
 state="enabled_bitset, initialized, __dredd_some_mutation_enabled in the generated program",obs="running generated program")
p("C05","Coverage-tracking mode keeps behaviour and records exactly the reached mutants",
 "With --only-track-mutant-coverage each instrumented site behaves as the original code, has the same mutants with the same ids as without the option, and on its first execution appends to DREDD_MUTANT_TRACKING_FILE exactly the ids of the mutants of that site, one per line, and nothing on later executions in whatever thread. Sites without mutants record nothing, nothing is written if the variable is unset, and no array access is out of bounds.",
 ["inputs","configurations"],"all sites x language x optimisation setting, all first ids and counts",
 "Tracking output is executed by one bespoke test on one small file; the tracking text of all other site kinds is not even compared.",
 [BIN,UN,EX,RM,AC],[("recording call in helpers",BIN+":GenerateMutatorFunction"),("recording call at statements",RM+":Apply"),("tracking preludes",AC+":GetMutantTrackingDreddPreludeC/Cpp")],
 obs="tracking file content; text and info of tracking runs")
p("C06","Generated helper functions never clash",
 "Two sites of one file that refer to a helper function of the same name and parameter types (in C: the same name) were given textually identical helper functions, so that keeping one copy of each text is right for every site. The helper called at a site accepts exactly the argument forms (value, lambda, pointer) and the id that the site passes.",
 ["inputs"],"all pairs of sites in one file, over all operators, types, constness and optimisation decisions",
 "A clash needs two particular sites in the same file whose optimisation decisions differ while the mangled names agree; tests contain only the pairs somebody thought of.",
 [BIN,UN,EX],[("name mangling",BIN+":GetFunctionName"),("name mangling",UN+":GetFunctionName"),("name mangling",EX+":GetFunctionName/AddOptimisationSpecifier"),("deduplication",AC+":HandleTranslationUnit")],
 state="dredd_declarations set",obs="declarations inserted into the mutated file; it compiles")
p("C07","Mutant optimisations only drop redundant mutants",
 "With optimisations enabled the mutants of each instrumented site are a subset, in the same order, of those generated with --no-mutation-opts, and a site is left out altogether only if it is a parenthesised expression or wrapper around temporaries, the operand of a cast that keeps its value category (not in an initialiser list), the expression of an expression statement, a minus before the constant 1, ~ before 0 or 1, a binary operator with left operand 0 and right operand 1, a statement that is an expression without side effects, or the removal of a block. Each mutant omitted at an instrumented site is redundant: for all operand values with defined behaviour, given the operand values known at compile time, it computes the same result as the original expression, as another mutant kept at this site or at an operand or parent of it, or as the replacement of the expression by 0, 1 or (signed and floating-point types) -1, or there is a kept mutant that differs from the original for some operand values and equals the omitted one wherever it does (subsumption). By design some are omitted without being redundant in this sense: replacing a relational operator expression by one of its operands, replacing a self-inverse unary operator by its operand, and, in C, ~ or - before a relational expression, where only the truth value of the result counts.",
 ["inputs","configurations"],"all operators x literal operand values 0/1/-1 x operand types",
 "The tests pin which mutants appear for sample inputs but not that the dropped ones were redundant for all operand values.",
 [BIN,UN,EX,VI],[("sites left out",VI+":VisitExpr/HandleUnaryOperator/HandleBinaryOperator/HandleExpr/TraverseCompoundStmt"),("operator redundancy",BIN+":IsRedundantReplacementOperator and helpers"),("unary redundancy",UN+":IsRedundantReplacementOperator"),("expression redundancy",EX+":IsRedundantOperatorInsertion and Generate*ConstantReplacement")],
 obs="instances recorded with and without --no-mutation-opts")
p("C08","The mutation tree is simplified and written out faithfully",
 "Simplification of the mutation tree leaves no empty subtree and no empty node with a single child, and neither loses, duplicates nor reorders mutations in application order, nor changes which mutations lie below which. In the info file of each mutated file every tree node other than the root is the child of exactly one node, child indices are in range and larger than their parent's, and every mutation group that has mutants appears at exactly one node. A mutation lies below the node of a mutation of an enclosing construct and never below one of a construct that does not enclose it.",
 ["inputs"],"all tree shapes","Tests build three small trees; the simplification has to be right for every shape and depth.",
 [TR,AC],[("simplification",TR+":TidyUp/PruneEmptySubtrees/Compress"),("writing the tree",AC+":ApplyMutations")],
 state="MutationTreeNode children/mutations",obs="mutation_tree in the JSON file")
p("C09","Edits and recorded ranges lie in the main file and denote the construct",
 "Dredd only edits text of the main file at locations where the construct is written there in full, never inside a header or a macro expansion that covers only part of it. The line/column ranges and snippets recorded for a mutant are those of the mutated construct and of its operands: the snippet is the source text between start (inclusive) and end (exclusive), with the operand ranges inside the expression range.",
 ["inputs"],"all source locations, macro nestings and constructs",
 "Tests check a few macro shapes by expected text and almost no recorded coordinates.",
 [UT,VI,BIN,UN,EX,RM],[("mapping ranges to the main file",UT+":GetSourceRangeInMainFile"),("recorded ranges",UT+":InfoForSourceRange"),("guards",VI+":VisitExpr/HandleBinaryOperator/HandleUnaryOperator/TraverseDecl"),("recording",BIN+":Apply")],
 obs="edited files; start/end/snippet fields in JSON")
p("C10","Constructs that cannot be mutated safely are never instrumented",
 "Dredd adds no instrumentation inside constexpr functions and variables, constinit variables, static assertions, switch case labels, constant array bounds, template arguments, noexcept operands, constexpr-if conditions, sizeof/alignof operands, default parameter values, lambda captures, C static-local initialisers and code outside functions, and takes no reference or pointer to a bit-field or to a const or boolean lvalue. A statement is only wrapped if it is not a declaration, a label, a case or an empty statement.",
 ["inputs"],"all programs over these constructs, at any nesting, C and C++",
 "Each guard is tested on one sample; whether instrumentation can be reached on another path into the same context cannot be sampled.",
 [VI,EX],[("traversal guards",VI+":TraverseDecl/TraverseVarDecl/TraverseStmt/Traverse*TypeLoc"),("expression guards",VI+":VisitExpr/Handle*"),("statement guards",VI+":TraverseCompoundStmt"),("lvalues",EX+":CanMutateLValue")],
 obs="mutants recorded; mutated file still compiles")
p("C11","Constants that Dredd rewrites keep their value",
 "Whenever Dredd replaces the size of a constant-sized array, the condition of a static assertion, a constant template argument or a constant builtin argument by a literal, the literal denotes the value the compiler had computed for that very expression, at every nesting level, and each expression is replaced at most once. Expressions that are not integer constants are left alone.",
 ["inputs"],"all integer values and nesting depths","Only a few small positive constants are tested.",
 [AC,VI],[("rewriting",AC+":RewriteExpressionsInMainFile/RewriteExpressionInMainFileToIntegerConstant"),("collection",VI+":TraverseVarDecl/TraverseDecl/SaveConstantTemplateArgumentForRewrite")],
 obs="rewritten source text")
p("C12","Files with errors or seen before are left untouched and reported",
 "A file that the compiler front end rejects, or that Dredd already processed in the run, is not modified, contributes no mutants and consumes no ids, while the other files of the run are mutated and described as if it had not been given. The exit status is zero iff no file had errors, the files with errors are listed on standard error, and the mutation info covers exactly the files that were mutated.",
 ["inputs","histories"],"all sequences of input files, each erroneous, duplicate or clean",
 "The tests run at most a couple of file combinations.",
 ["src/dredd/src/main.cc","src/dredd/src/log_failed_files_diagnostic_consumer.cc",S+"new_mutate_frontend_action_factory.cc",AC],
 [("duplicate files",S+"new_mutate_frontend_action_factory.cc:BeginInvocation"),("errors",AC+":HandleTranslationUnit"),("failed files and exit code","src/dredd/src/main.cc"),("failure log","src/dredd/src/log_failed_files_diagnostic_consumer.cc:HandleDiagnostic")],
 state="processed_files set, mutation_id counter, files_with_errors",obs="file contents, JSON, exit status")
open(__file__.rsplit('/tools/',1)[0]+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
