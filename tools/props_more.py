prop("T01", "Every formula is classified and decomposed by the rule of its shape",
     "A conjunction, negated disjunction, negated implication or double negation is treated as an alpha formula; a disjunction, negated conjunction, implication or (negated) equivalence as beta; an existential or negated universal as delta; a universal or negated existential as gamma; a predicate or its negation, top and bottom as atomic. The branch keeps each formula in the list of its class, in the destructive and in the incremental search.",
     ["inputs"], "every formula shape: each connective, quantifier and constant, bare and negated",
     "Tests see the shapes that occur in their problems; a shape that is misclassified or dropped silently makes the prover incomplete or wrong only on problems that contain it.",
     ["src/Core/rules_type.go", "src/Search/state.go", "src/Search/incremental/rulesManager.go"] ,
     [("ShowKindOfRule", "src/Core"), ("State.DispatchForm", "src/Search/state.go"), ("makeCorrectRule, insertIntoCorrectSlice", "src/Search/incremental")],
     SHAPE, "Static, for every shape of formula.")

prop("T02", "Alpha and beta rules produce exactly the premises of the tableau calculus",
     "Applying an alpha rule to a formula yields exactly the conclusions of the tableau calculus on one branch, and applying a beta rule yields exactly the two-or-more branches of the calculus, with the right polarity: for instance a negated equivalence splits into (not A, B) and (A, not B). Every conclusion keeps the terms the formula carried. The rule name recorded in the proof is the name of the rule that was applied.",
     ["inputs"], "every alpha and beta formula, conjunctions and disjunctions of any length, destructive and incremental search",
     "Tests check whether some problems are proved; a missing or wrongly signed conclusion of one connective changes the verdict only on particular problems.",
     ["src/Search/rules.go", "src/Search/incremental/rules.go"],
     [("ApplyAlphaRules, ApplyBetaRules", "src/Search/rules.go"), ("apply of the incremental rules", "src/Search/incremental")],
     SHAPE, "Static, for every shape of formula and any number of conjuncts.")

REF = "Symbolic interpretation of the Go SSA of the function and of a short reference function with the same parameters, on opaque inputs; results, effects and writes are compared under every consistent combination of path conditions."

prop("T05", "Skolemisation introduces new symbols that depend on the right metavariables",
     "A delta rule replaces the first bound variable of an existential (or negated universal) by a term made of a new symbol and of the metavariables it may depend on: all of the branch for outer Skolemisation, those of the formula for inner, and for pre-inner the symbol is shared only between formulas equal up to the names of bound variables. A bound type variable is replaced by a new type constant. The other bound variables, the polarity and the body are kept, and the branch keeps the resulting formula together with its metavariables.",
     ["inputs"], "every existential formula, every set of metavariables, three Skolemisation techniques, both searches",
     "A Skolem term that misses a dependency makes the prover unsound only on problems where the missing metavariable is instantiated in a certain way.",
     ["src/Core/skolemisation.go", "src/Core/Sko/interface.go", "src/Search/rules.go", "src/Search/incremental/rules.go"],
     [("Skolemize", "src/Core"), ("Skolemize of the three techniques, genFreshSymbol, alphaConvert", "src/Core/Sko"), ("ApplyDeltaRules", "src/Search/rules.go")],
     REF, "Static, for every formula; that MakerNewId never repeats a symbol is a property of its own.")

prop("T06", "A universal formula is instantiated by one new metavariable, which is recorded",
     "A gamma rule replaces the first bound variable of a universal (or negated existential) by a newly made metavariable of the variable's type, or by a new type metavariable, and keeps the other bound variables, the polarity and the body. The metavariable is added to the terms of the formula and reported to the branch, in the destructive and in the incremental search.",
     ["inputs"], "every universal formula, any number of bound variables, both searches",
     "Whether a quantified variable, a polarity or a metavariable is lost shows only on formulas with several quantified variables or types.",
     ["src/Core/instanciation.go", "src/Search/rules.go", "src/Search/incremental/rules.go"],
     [("Instantiate, RealInstantiate", "src/Core/instanciation.go"), ("ApplyGammaRules", "src/Search/rules.go"), ("apply of GammaForall and GammaNotExists", "src/Search/incremental/rules.go")],
     REF, "Static, for every formula.")

prop("T07", "Expanding a formula loses no formula of the branch",
     "When the destructive search applies a rule, exactly one formula leaves its list and its place is taken by the conclusions of the rule, in every child for a branching rule. All other formulas of the branch, the instantiated universal formulas kept for reintroduction, and their counts are kept. The rules are tried in the order closure, alpha, delta, beta, gamma, reintroduction, and a rule is applied whenever the branch has a formula for it.",
     ["histories"], "every state of a branch: any number of formulas in each of its lists",
     "A formula dropped when a list has two or more elements, or only in the second child, makes the prover incomplete on problems the test suite does not contain.",
     ["src/Search/destructive.go", "src/Search/state.go", "src/Core/form_and_terms_list.go", "src/Core/meta_gen.go"],
     [("ProofSearch, applyRules, manageAlphaRules, manageBetaRules, manageDeltaRules, manageGammaRules, manageReintroductionRules", "src/Search/destructive.go"), ("DispatchForm, GetAllForms, AreRulesApplicable", "src/Search/state.go"), ("list operations", "src/Core/form_and_terms_list.go, src/Core/meta_gen.go")],
     REF, "Static, one step from an arbitrary state; interleavings between branches are outside.")

prop("T08", "A branch is closed only by a real contradiction",
     "A branch is closed only when a formula on it is bottom, negated top, an inequality whose sides unify, or a literal whose complement on the branch unifies with it under a substitution that is not forbidden. A substitution that binds a metavariable shared with the rest of the tree is sent to the father, and only bindings of the branch's own metavariables are dropped from it. Both searches follow this.",
     ["inputs", "histories"], "every formula and set of literals of a branch, every list of forbidden substitutions, both searches",
     "Whether a shared metavariable is missed, or a forbidden substitution accepted again, shows only in problems whose branches compete for a metavariable.",
     ["src/Search/rules.go", "src/Core/substitutions_search.go", "src/Search/incremental/closureManager.go", "src/AST/term-list.go"],
     [("ApplyClosureRules, searchObviousClosureRule, searchInequalities, searchClosureRule, searchForbidden", "src/Search/rules.go"), ("DispatchSubst, RemoveElementWithoutMM, GetMetaFromSubst", "src/Core/substitutions_search.go"), ("closure of the incremental search", "src/Search/incremental/closureManager.go")],
     REF, "Static; that a unifier found really unifies is the subject of other properties.")

prop("T09", "A copied branch keeps what it must, and nothing is mixed up in its parts",
     "A branch made from another has the same formulas, metavariables (its own being added to its mother's), literals, counters and forbidden substitutions, but none of its results, and no part of it that is later changed is shared. Reading or setting one part of a branch, of a message or of a substitution with formulas touches that part only.",
     ["histories"], "every state of a branch, under every option that changes what is copied",
     "A part that is shared or dropped when a branch is copied shows only when two branches change it, in a certain order.",
     ["src/Search/state.go", "src/Search/children.go", "src/Core/subst_and_form.go", "src/Core/int_subst_and_form.go", "src/Core/meta_gen.go"],
     [("State.Copy, MakeState, getters and setters", "src/Search/state.go"), ("messages", "src/Search/children.go"), ("SubstAndForm and its variants", "src/Core")],
     REF, "Static, for every state.")

prop("T10", "A substitution is applied to everything it must be, and merged without loss",
     "Applying a substitution to a branch replaces every binding in every formula, every kept universal formula, every proof node and every list of terms of the branch, rebuilds both sets of literals from the substituted atoms, and records the substitution merged with those applied before. Merging or filtering lists of substitutions keeps every binding and every formula, drops only identities, empty ones and duplicates, and reports failure if two cannot be merged.",
     ["inputs", "histories"], "every state of a branch, every substitution, any number of bindings",
     "Whether a list of formulas keeps an old metavariable after a substitution matters only when that formula is used later to close the branch.",
     ["src/Search/state.go", "src/Core/substitutions_search.go", "src/Core/subst_and_form.go", "src/Core/form_and_terms.go", "src/Search/proof.go"],
     [("ApplySubstitution", "src/Search/state.go"), ("ApplySubstitutionsOn*", "src/Core/substitutions_search.go"), ("MergeSubstAndForm and the list functions", "src/Core/subst_and_form.go"), ("ApplySubstitutionOnProofList", "src/Search/proof.go")],
     REF, "Static, one application on an arbitrary state.")

prop("T11", "Branches agree on one substitution and a choice is retried with the next",
     "In the destructive search a child is closed for its father only with a substitution that the father then gives to all the children; a father closes when all its children do, sends up the merged substitutions that still bind metavariables of its ancestors, and otherwise answers that it is open. When children refuse a choice, the next one becomes the current choice and the refused one is forbidden. Each message is sent to the branch it is meant for, and the verdict is that of the root.",
     ["histories", "schedules"], "every state of a branch and every answer of its children",
     "The messages between branches arrive in every order; the tests run a few problems whose branches rarely compete for a metavariable.",
     ["src/Search/destructive.go", "src/Search/children.go", "src/Search/rules.go"],
     [("waitFather, waitChildren, manageClosedChild, manageOpenedChild, passSubstToParent, closeChildren, selectChildren, tryBTSubstitution", "src/Search/destructive.go"), ("messages and their handlers", "src/Search/children.go"), ("Search, doOneStep", "src/Search/destructive.go")],
     REF, "Static, one step of the protocol from an arbitrary state; selectChildren is left undecided when it has too many cases.")

prop("L01", "Lists, sets, options and cached values behave as the mathematical objects",
     "The containers that the prover is built on behave as finite sequences, ordered finite sets and optional values: membership, union, intersection, filtering, mapping, adding, removing and comparing have their mathematical meaning for any number of elements. An operation that returns a new container leaves its arguments as they were. A cached value is computed again exactly when it was reset.",
     ["inputs", "histories"], "every container, of any length, with any elements",
     "Tests sample small containers; an operation that is wrong or changes a shared container only for certain lengths corrupts the search far from the cause.",
     ["src/Lib/list.go", "src/Lib/sets.go", "src/Lib/opt.go", "src/Lib/cache.go"],
     [("List", "src/Lib/list.go"), ("Set", "src/Lib/sets.go"), ("Option", "src/Lib/opt.go"), ("Cache", "src/Lib/cache.go")],
     REF, "Static; loops are compared by what they compute, so any length is covered.")

prop("U01", "Unification computes substitutions that make terms equal, with occurs check",
     "Unifying two terms decomposes functions with equal symbol and argument counts, binds metavariables subject to the occurs check, and fails otherwise. A substitution is eliminated until no bound metavariable occurs in a value, and fails rather than become cyclic. Merging two substitutions keeps the bindings of both and unifies the values of a common metavariable; reading, copying, comparing and translating substitutions, between typed and untyped ones, loses no binding.",
     ["inputs"], "every pair of terms and substitutions; loops of unknown length by their exact summary or, failing that, for up to two rounds and lists of up to two elements",
     "Tests unify a few terms; a binding lost, or an occurs check missing on one path, is visible only for nested or repeated metavariables.",
     ["src/Unif/substitutions_type.go", "src/Unif/substitutions_tree.go", "src/Unif/matching_substitutions.go"],
     [("OccurCheckValid, Eliminate, EliminateMeta", "src/Unif/substitutions_type.go"), ("AddUnification, MergeSubstitutions, computeSubstitutions", "src/Unif/substitutions_tree.go"), ("translation of substitutions", "src/Unif/matching_substitutions.go")],
     REF, "Static; that unifiers are most general follows from the algorithm compared, and is not proved.")

prop("U02", "The literal index finds exactly the literals that unify",
     "Every literal put in an index tree is compiled to a sequence of instructions that visits each symbol, variable and argument of it, and is inserted without losing or altering another. Searching for a literal runs the instructions of every branch of the tree that may match, fails exactly when the terms differ, and returns for each leaf reached its literals with the substitution found. A tree made for one polarity contains the literals of that polarity only.",
     ["inputs"], "every literal and every tree; functions with too many cases for lists of up to two elements",
     "The index is correct on a few literals in the tests; a literal lost when two share a prefix, or a mismatch overlooked at one instruction, shows only for particular sets of literals.",
     ["src/Unif/matching.go", "src/Unif/machine.go", "src/Unif/code-trees.go", "src/Unif/parsing.go", "src/Unif/instruction.go"],
     [("Unify, unifyAux and the instructions", "src/Unif/matching.go, src/Unif/machine.go"), ("insert, followInstructions, makeCodeTree", "src/Unif/code-trees.go"), ("ParseFormula, parseTerms", "src/Unif/parsing.go")],
     REF, "Static, per function of the machine and the tree.")

prop("I01", "The formula searched is the axioms with the conjecture negated once",
     "Every axiom of a problem and of the files it includes, each with renamed variables, and the negation of its conjecture (or its negated conjecture as it is) make up the formula that is searched, except for the axioms that deduction modulo theory takes as rewrite rules; an absent axiom or conjecture changes nothing else. Types declared anywhere are registered, equality and typing are noticed wherever they occur, and a problem that uses types is searched only if it is well typed. An included file is looked for beside the problem and then where TPTP points, and a second conjecture, an unknown role or a missing file is an error.",
     ["inputs"], "every list of statements of any length, with nested includes",
     "The tests read small problems; an axiom lost, or a conjecture that is not negated, for one combination of roles and includes gives wrong verdicts.",
     ["src/main.go", "src/Engine/syntax-translation.go", "src/Core/statement.go"],
     [("StatementListToFormula, presearchLoader, getFile", "src/main.go"), ("ToInternalSyntax, elaborateParsingStatement", "src/Engine/syntax-translation.go"), ("Statement", "src/Core/statement.go")],
     REF, "Static; the file system is not modelled, only which paths are tried in which order.")

prop("I02", "A parsed formula becomes the internal formula with the same meaning",
     "Elaboration maps each connective and quantifier of a parsed formula to the same connective or quantifier over the elaborated parts in their order, flattening only nested conjunctions and nested disjunctions. Predicates and terms keep their symbol and arguments in order, arguments that are types become type arguments, and defined arithmetic symbols get the type their arguments have. A symbol or variable has the type of its innermost declaration.",
     ["inputs"], "every parsed formula, term and type",
     "Tests elaborate a few shapes; an operand exchanged, lost or typed by another declaration shows only in nested or typed problems.",
     ["src/Engine/syntax-translation.go", "src/Engine/pretyper.go", "src/Engine/tptp-defined-types.go"],
     [("elaborateForm, elaborateTerm, elaborateType", "src/Engine/syntax-translation.go"), ("pretype, lookupInContext, instantiateType", "src/Engine/pretyper.go"), ("initialContext", "src/Engine/tptp-defined-types.go")],
     REF, "Static; elaborateDefinedFunctionals is left undecided when it has too many cases.")

prop("I03", "Only well-typed formulas are accepted by the type checker",
     "A formula is accepted exactly when every symbol in it is declared, has the number of arguments its type says, each argument has the type expected or one that coerces to it from $int or $rat upwards, every variable is bound with the type its place expects, and every type is well formed. The result does not depend on the order in which the parts are checked. The environment gives each symbol the type it was declared with, instantiated by its type arguments.",
     ["inputs", "schedules"], "every formula and every environment",
     "Ill-typed problems accepted make the search unsound; the tests check a few ill-typed problems.",
     ["src/Typing/rules.go", "src/Typing/env-and-context.go", "src/Typing/init.go"],
     [("typecheckForm, typecheckTerm, typecheckType, checkFunctional", "src/Typing/rules.go"), ("AddToGlobalEnv, QueryEnvInstance", "src/Typing/env-and-context.go"), ("native types", "src/Typing/init.go")],
     REF, "Static, one level of the formula at a time.")

prop("P01", "The parser reads the TPTP syntax: nothing is dropped or exchanged",
     "The text of a problem is divided into the tokens of the TPTP syntax; comments and spaces separate tokens and nothing else is skipped, a character that starts no token is an error, and so is text that follows no production of the grammar. Each production builds what its parts stand for: the connective, quantifier, variables, terms, types, role and name written in the file, operands in their order, with <=, <~>, ~| and ~& as abbreviations of their meaning.",
     ["inputs"], "every problem file, one function of the lexer and one production of the grammar at a time; loops of the lexer by exact summary or for up to four rounds",
     "The tests parse some problems; an operand exchanged in a rare connective, a token cut short or a file read only in part shows only for particular texts.",
     ["src/Parser/tptp_parse.y", "src/Parser/tptp_lex.go", "src/Parser/psyntax.go"],
     [("productions and their actions", "src/Parser/tptp_parse.y"), ("TPTPLex", "src/Parser/tptp_lex.go"), ("parsed statements, formulas, terms and types", "src/Parser/psyntax.go")],
     "The productions of the grammar are compared with the reference grammar up to unit productions and nonterminals with the same productions; their actions, and every function of the lexer and of the parsed syntax, are compared with references: symbolic interpretation of both on the same opaque inputs, results, writes and errors compared on every path.",
     "Static; how goyacc resolves conflicts of the grammar is not analysed.")

prop("T13", "A proof is instantiated with substitutions that close all its branches",
     "The unifier that a closed node hands to its parent holds, for each set of substitutions that closes its branch, the local substitution and the global one. Unifiers of two children are merged pairwise, keeping only the combinations that agree; pruning, adding, copying and replacing substitutions loses none that belongs to the branch and keeps none of a metavariable the proof does not know. The substitution used to instantiate the proof is one of those.",
     ["inputs", "histories"], "every unifier, with any number of substitutions",
     "The tests check a few proofs; a substitution lost in one of two children gives a proof that does not check only when two branches share metavariables.",
     ["src/Core/global_unifier.go"],
     [("Unifier, Merge, MergeUnifierList, PruneUninstantiatedSubstitutions, AddSubstitutions", "src/Core/global_unifier.go")],
     REF, "Static, for unifiers of any length, or up to two rounds of the loops that have no summary.")

prop("T14", "A node of the proof records the step made and each of its children",
     "The proof of a branch is a list of nodes, each with the formula, the rule and the identifier of the step, one list of result formulas per child and one proof per child. Copying and instantiating a proof keeps all of them and applies the substitution to each formula; the proof as text and as JSON prints each of them, and nothing is shared between a copy and its original.",
     ["inputs"], "every proof, any number of nodes and children",
     "The tests compare a few proofs; a child or a result formula lost shows only in steps of one kind.",
     ["src/Search/proof.go"],
     [("ProofStruct, IntFormAndTermsList, JsonProofStruct", "src/Search/proof.go"), ("ApplySubstitutionOnProofList, CopyProofStructList, ProofStructListToText", "src/Search/proof.go")],
     REF, "Static; the order in which the parts of a node are printed is compared, its wording is not.")

prop("D01", "An axiom becomes rewrite rules only if they say the same as the axiom",
     "With deduction modulo theory, an axiom is removed from the formula that is searched exactly when rewrite rules were made from it, and only such axioms are listed as used. A universally quantified equivalence with one literal over a predicate, not an equality, gives one rule for each polarity of the literal, with the other side or its negation as result; an implication gives, in polarised mode, the rules its two directions justify. A literal is rewritten by the rules of its own polarity whose left side matches it, instantiated by the matching substitution, results that close the branch first; a literal that none matches is left as it is.",
     ["inputs", "histories"], "every axiom and every literal, any number of rules",
     "The tests use a few theories; a rule of the wrong polarity, or an axiom consumed without a rule, shows only for axioms of one shape.",
     ["src/Mods/dmt/axiom_registration.go", "src/Mods/dmt/rewrite.go", "src/Mods/dmt/utils.go", "src/Mods/dmt/rewritten.go"],
     [("RegisterAxiom, makeRewriteRuleFromEquivalence, makeRewriteRuleFromImplication", "src/Mods/dmt/axiom_registration.go"), ("Rewrite, rewriteGeneric, sortUnifications", "src/Mods/dmt/rewrite.go"), ("substitute", "src/Mods/dmt/rewritten.go")],
     REF, "Static; that the index returns the rules that match is another property.")

prop("O01", "Each step of the exported sequent proof is the tableau step it comes from",
     "Made from a closed tableau, the sequent proof has, for each step of the tableau, the step of the sequent calculus with the same rule, on the same formula, with the same result formulas in each branch, and the same branches in their order; a closed branch ends with the formulas that contradict each other. A universal step names the term its variable was instantiated with, an existential step the Skolem term it introduced, found where the quantified variable occurs, and a step that depends on a symbol not introduced yet is made after the step that introduces it, in every branch it concerns. A formula removed from the sequent is removed from the dependencies as well.",
     ["inputs"], "every tableau, one step at a time, with any number of branches; nested recursion one level at a time",
     "The tests export a few proofs; a dependency lost or an occurrence followed to the wrong argument gives an invalid proof only for some interleavings of universal and existential steps.",
     ["src/Mods/gs3/proof.go", "src/Mods/gs3/sequent.go", "src/Mods/gs3/dependency.go"],
     [("MakeGS3Proof, makeProofOneStep, manageDeltaStep, applyRulesBack", "src/Mods/gs3/proof.go"), ("GS3Sequent", "src/Mods/gs3/sequent.go"), ("manageGammasInstantiations, getVariableOccurrences, getTermAt", "src/Mods/gs3/dependency.go")],
     REF, "Static; that reordering the steps ends in a valid proof for every tableau is not shown.")

prop("O02", "The TPTP proof printed has one inference per step of the sequent proof",
     "The text starts with the axioms and the conjecture of the problem. Each step is printed once, as the inference of its rule, with the hypotheses of its branch in order, the position of its formula among them, the term it introduces or instantiates, and the identifiers of its children; each child is printed with the hypotheses of its own branch added. Equivalences are printed as the implications they stand for, closures name the complementary literal, and each Skolem term gets one constant, used wherever it occurs.",
     ["inputs"], "every sequent proof, one step at a time, any number of hypotheses and children",
     "The tests compare the output for a few problems; a wrong position or the hypotheses of another branch show only for some rules in some branches.",
     ["src/Mods/tptp/proof.go", "src/Mods/tptp/output.go"],
     [("makeStep, alphaStep, betaStep, deltaStep, gammaStep, EquStep, NotEquStep, followProofSteps", "src/Mods/tptp/proof.go"), ("MakeTptpOutput, MakeTptpProof", "src/Mods/tptp/output.go")],
     REF, "Static; that a TPTP checker accepts the text is not shown. Rewriting steps of deduction modulo theory have no TPTP form and print nothing.")

prop("O03", "The Rocq proof printed proves the theorem stated from the axioms stated",
     "The theorem is the chain of implications from the axioms to the conjecture of the problem. Each step applies, to the hypothesis that holds its formula, the lemma of its rule, introduces the formulas of each branch under names that later steps find by their position, in the order of the branches, and names the constants and terms it introduces or instantiates; a formula that is removed or rewritten is so in the hypotheses too. The context declares every symbol of the problem once, with its type, and the lemmas applied are stated and proved, without assuming any.",
     ["inputs"], "every sequent proof, one step at a time, any number of hypotheses and children",
     "The tests compare the output for a few problems; a lemma of another rule or a name of another position gives a proof that Rocq rejects only for some rules.",
     ["src/Mods/rocq/proof.go", "src/Mods/rocq/context.go", "src/Mods/rocq/output.go"],
     [("makeRocqProofFromGS3, makeStep, followProofSteps", "src/Mods/rocq/proof.go"), ("makeContextIfNeeded, lemmas", "src/Mods/rocq/context.go"), ("MakeRocqOutput", "src/Mods/rocq/output.go")],
     REF, "Static; that Rocq accepts the text is not shown. The lemmas are compared with their statements up to spaces.")

prop("O04", "The Lambdapi proof printed applies to each step the rule it comes from",
     "The symbol stated is the chain of implications from the axioms to the negated conjecture of the problem. Each step applies the constant of its rule to the formulas it is made of, its children, each under the formulas its branch adds, and the hypothesis that holds its formula; quantifier steps name the term they introduce or instantiate. A formula has one name, given where it is first introduced, and the context declares every symbol of the problem once, with its type.",
     ["inputs"], "every sequent proof, one step at a time, any number of formulas and children",
     "The tests compare the output for a few problems; a constant of another rule or a child out of place shows only for some rules.",
     ["src/Mods/lambdapi/proof.go", "src/Mods/lambdapi/context.go", "src/Mods/lambdapi/utils.go", "src/Mods/lambdapi/output.go"],
     [("makeProofStep, allRules, allRulesQuantUniv, allRulesQuantExist", "src/Mods/lambdapi/proof.go"), ("makeContextIfNeeded", "src/Mods/lambdapi/context.go"), ("addToContext, getFromContext", "src/Mods/lambdapi/utils.go")],
     REF, "Static; that Lambdapi accepts the text is not shown. Weakening steps are refused with an error and rewriting steps print nothing.")

prop("N01", "The incremental search applies the calculus and closes on agreeing answers",
     "Selected by an option, the incremental search turns each formula into the rule of its connective, and each rule gives one branch per alternative with the formulas of the calculus; the rule applied is removed, the others are kept, and a universal rule can be used again. A branch is closed by a false formula, by two complementary literals, or by substitutions that make two complementary; two substitutions are combined exactly when they agree on every metavariable, and a node with several children is closed only by substitutions on which all of them agree. The result of the search is printed.",
     ["inputs", "histories"], "every formula, any number of rules, substitutions and children; loops by exact summary or up to thirteen combinations of lengths",
     "The option is hardly tested; a branch lost or two substitutions that disagree taken together show only for some formulas.",
     ["src/Search/incremental/rules.go", "src/Search/incremental/rulesManager.go", "src/Search/incremental/substitution.go", "src/Search/incremental/searchNode.go"],
     [("makeCorrectRule and apply of each rule", "src/Search/incremental/rules.go"), ("RulesManager", "src/Search/incremental/rulesManager.go"), ("buildCompatibleWith, getCompatibleBetween", "src/Search/incremental/substitution.go"), ("SearchNode", "src/Search/incremental/searchNode.go")],
     REF + " Two more rules: each interface that a value is asked for has an implementing type, and each search algorithm reaches the call that prints its result.", "Static; the order in which goroutines answer is not modelled. Two known findings: no rule is a GammaRule, and no result is printed.")

prop("C01", "What parallel branches share is only touched under its lock",
     "The branches of the search run in parallel. Every counter, table and list of the program that they share is read and written by them only while the lock that guards it is held; a decision made on such a table and the update that follows from it are one critical section, so that two branches never get the same new number, identifier, metavariable or symbol and no update is lost. A lock that is taken is released on every path and is not taken again by its holder.",
     ["schedules"], "every interleaving of the goroutines that search: every access in every calling context reachable from a go statement",
     "A race shows only under an interleaving that the tests do not control; a node number given twice or a symbol with two identifiers then changes a verdict or a proof once in many runs.",
     ["src/AST/maker.go", "src/AST/ty-syntax.go", "src/Glob/helper.go", "src/Glob/syncTaskList.go", "src/Core/skolemisation.go", "src/Core/Sko/interface.go", "src/Search/exchanges.go", "src/Search/incremental/searchNode.go", "src/Mods/assisted/status.go", "src/Typing/env-and-context.go"],
     [("MakerId, MakerMeta, MakerIndexFormula, MkTyMeta", "src/AST/maker.go, src/AST/ty-syntax.go"), ("IncrCptNode, IncrGoRoutine", "src/Glob/helper.go"), ("Skolemize", "src/Core/skolemisation.go, src/Core/Sko"), ("getNewSearchNodeId", "src/Search/incremental/searchNode.go"), ("WriteExchanges", "src/Search/exchanges.go"), ("AddStatusElement, removeStatusElement", "src/Mods/assisted/status.go")],
     "Lock-set analysis over the SSA, context-sensitive in the locks held and in the variables that parameters and closures lead to (call graph: VTA), from every go statement; an atomicity rule on critical sections that read and then update one variable; and lock balance on every path.",
     "Static. Package-level variables, and fields of structures that have a lock; objects reached only by messages are the subject of T09 (copies). The goroutine that starts the search is taken to run before and after the others.")

prop("A06", "A new identifier, metavariable or number was never given before",
     "Asking for the identifier or variable of a name gives the one that the name has, or else a new one with a number that was never given and that the name keeps. A new identifier, metavariable, type metavariable, formula or node always gets a number that was never given, and metavariables of one name get different occurrence numbers until the search starts again. Starting again empties the tables it is meant to empty.",
     ["inputs", "histories"], "every name and every state of the tables and counters",
     "Two things with one number are confused only when they meet in one problem; the tests do not look at numbers.",
     ["src/AST/maker.go", "src/AST/typed-vars.go", "src/AST/ty-syntax.go", "src/Glob/helper.go", "src/Search/incremental/searchNode.go"],
     [("MakerId, MakerNewId, MakerVar, MakerNewVar, MakerMeta, MakerIndexFormula, Reset, ResetMeta", "src/AST/maker.go"), ("MakerTypedVar", "src/AST/typed-vars.go"), ("MakerTyBV, MkTyMeta", "src/AST/ty-syntax.go"), ("IncrCptNode", "src/Glob/helper.go"), ("getNewSearchNodeId", "src/Search/incremental/searchNode.go")],
     REF, "Static, from any state of the tables and counters; that parallel calls do not mix is C01.")

na("S01", "A problem reported as a theorem is one",
   "When the prover reports that a problem is a theorem (or unsatisfiable), the conjecture follows from the axioms.",
   ["inputs", "schedules"], "every problem, option and schedule",
   "It is the purpose of the prover; tests only sample problems.",
   ["src/main.go", "src/Search"], [("Search", "src/Search")],
   "The verdict is that of an unbounded run of parallel branches; no static argument in reach covers the run as a whole. Its steps are decided by P01, I01-I03, T01-T14, U01, U02, C01.")
na("S02", "Every theorem is eventually proved",
   "Given enough time and depth, the search closes a tableau for every theorem: every formula is eventually expanded, every universal formula is reintroduced often enough, and every closing substitution is eventually tried.",
   ["inputs", "schedules"], "every theorem, every run",
   "Fairness shows only in the limit.",
   ["src/Search/destructive.go", "src/Search/child_management.go"], [("manageReintroductionRules, the limit on reintroductions", "src/Search/destructive.go")],
   "Completeness is a statement about infinite runs and about the calculus; the search is also bounded by design unless an option is given.")
na("S03", "The search always ends with an answer or continues, and never waits for ever",
   "No branch and no father waits for a message that nobody will send; the processes of a search that was answered end.",
   ["schedules"], "every schedule of every tableau",
   "A lost message blocks only one schedule of one tableau.",
   ["src/Search/destructive.go", "src/Search/child_management.go", "src/Search/children.go"], [("waitFather, selectChildren, closeChildren", "src/Search/destructive.go")],
   "The tree of processes is unbounded and its channels are made at run time: a sound static argument would need session types for the protocol, which Go does not offer. Each step of the protocol is decided by T11, locks by C01.")
na("E03", "Equality reasoning finds only and all the ways to close a branch by equality",
   "The substitutions that rigid E-unification returns make the two terms equal modulo the equalities of the branch, and the ordering on terms it uses is a simplification ordering.",
   ["inputs"], "every set of equalities and every pair of terms",
   "Wrong orderings or constraints lose or invent solutions only for particular terms.",
   ["src/Mods/equality/bse", "src/Mods/equality/sateq"], [("EqualityReasoning, compareLPO", "src/Mods/equality/bse"), ("the SAT encoding", "src/Mods/equality/sateq")],
   "Soundness of the saturation and of the SAT encoding is a theorem about unbounded derivations and models, not a property of one function; the ordering's laws quantify over pairs and triples of terms of any depth.")
na("X01", "The printed proofs are accepted by the external checkers",
   "Rocq, Lambdapi and TPTP checkers accept each proof that is printed.",
   ["inputs"], "every problem proved",
   "The tests compare a few texts and run no checker.",
   ["src/Mods/rocq", "src/Mods/lambdapi", "src/Mods/tptp"], [("the printers", "src/Mods")],
   "It depends on the behaviour of other programs; each step of the text is decided by O01-O04.")
