package main

// From the text of a problem to the formulas that are searched.

func init() {
	register("I01", "The functions that take the statements of a problem and make one formula of them are compared, on every path, with references.", ruleI01)
	register("I02", "The functions that elaborate parsed statements into formulas, terms and types are compared, on every path, with references.", ruleI02)
	register("I03", "The functions of the type checker and of its environment are compared, on every path, with references.", ruleI03)
}

var inputOpaque = []string{"Engine.elaborateForm", "Engine.elaborateTerm", "Engine.elaborateParsingTerm", "Engine.maybe*", "Engine.flatten", "Engine.elaborateType", "Engine.flattenProd", "Engine.elaborateDefinedFunctionals",
	"Engine.pretype", "Engine.pretypeVars", "Engine.lookupInContext", "Engine.splitTypes", "Engine.parserTermToType", "Engine.instantiate*", "Engine.initialContext", "Engine.isDefined", "Engine.isAllowed", "Lib.ListMem"}

func ruleI01(c *Ctx) {
	c.rule("problem", "every axiom and conjecture of the problem and of what it includes reaches the formula that is searched, the conjecture negated once", 6)
	c.rule("statement", "a parsed statement becomes a statement of the same name, role and contents", 8)
	s := same{hook: hooks(copyHook, makerHook, textHook), opaque: append([]string{"Engine.elaborateForm", "Engine.elaborateType", "Engine.initialContext", "Typing.TypeCheck", "Search.PrintSearchResult", "Lib.MkLazy", "AST.FlattenAnd", "main.getFile", "main.doAxiomStatement", "Engine.ToInternalSyntax", "Engine.elaborateParsing*", "Engine.elaborateRole"}, inputOpaque...),
		effects: []string{"Search.Search", "Glob.Set*", "assisted.*", "Mods/assisted.*", "Typing.AddToGlobalEnv", "Mods/dmt.RegisterAxiom", "main.StatementListToFormula", "main.doTypeStatement", "main.checkForTypedProof", "main.doConjectureStatement", "Parser.ParseTPTPFile"}, ordered: true}
	c.batchRefs("problem", "I01", "main", s, "*")
	c.batchRefs("statement", "I01", "Engine", s, "*")
	c.batchRefs("statement", "I01", "Core", s, "*")
}

func ruleI02(c *Ctx) {
	c.rule("form", "a parsed formula becomes the formula with the same meaning", 5)
	c.rule("term", "a parsed term or type becomes the same term or type", 5)
	c.rule("types", "symbols and variables get the types they are declared with", 5)
	s := same{hook: hooks(copyHook, makerHook, textHook), opaque: inputOpaque, effects: []string{"Typing.AddToGlobalEnv"}}
	c.batchRefs("form", "I02", "Engine", s, "elaborateForm", "maybe*", "flatten")
	c.batchRefs("term", "I02", "Engine", s, "elaborateParsingTerm", "elaborateTerm", "elaborateType", "flattenProd", "elaborateDefinedFunctionals")
	c.batchRefs("types", "I02", "Engine", s, "pretype*", "lookup*", "isTyConstr", "splitTypes", "parser*", "instantiate*", "initial*", "isDefined", "isAllowed")
}

func ruleI03(c *Ctx) {
	c.rule("check", "a formula is accepted exactly when each of its parts is well typed", 7)
	c.rule("env", "the environment keeps and gives back the type each symbol was declared with", 10)
	s := same{hook: hooks(copyHook, makerHook, textHook), opaque: []string{"Typing.typecheck*", "Typing.unsafeQuery", "AST.InstantiateTy", "AST.Get*Ty", "Lib.GenericParallel", "Typing.QueryEnvInstance", "Typing.isCoercible", "Typing.checkFunctional", "Typing.checkOutputType", "Typing.buildTermCheckList"},
		effects: []string{"Typing.AddToGlobalEnv"}}
	c.batchRefs("check", "I03", "Typing", s, "TypeCheck", "typecheck*", "isCoercible", "check*", "build*")
	c.batchRefs("env", "I03", "Typing", s, "definedType_*", "emptyCon", "Con_*", "Add*", "unsafe*", "Query*", "init*", "record*")
}
