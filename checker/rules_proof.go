package main

// Proofs: the substitutions a proof is instantiated with, the nodes it is made of, and what is printed of them.

func init() {
	register("T13", "The functions of the global unifier are compared, on every path, with references.", ruleT13)
	register("T14", "The functions that make, copy, instantiate and print the nodes of a proof are compared, on every path, with references.", ruleT14)
}

func ruleT13(c *Ctx) {
	c.rule("unifier", "the substitutions kept for a proof are the ones that close every branch below a node", 9)
	s := same{hook: hooks(copyHook, makerHook, textHook), opaque: []string{"Unif.MergeMixedSubstitutions", "Core.appendNewUnifiersIfNeeded", "(*Core.Unifier).Merge", "Lib.ListEquals*"}}
	c.batchRefs("unifier", "T13", "Core", s, "*", "-MergeUnifierList", "-Unifier_ToString")
	m := s
	m.effects = []string{"(*Core.Unifier).Merge"}
	m.ordered = true
	c.batchRefs("unifier", "T13", "Core", m, "MergeUnifierList")
	c.batchRefs("unifier", "T13", "Core", same{hook: hooks(copyHook, makerHook), opaque: []string{"Lib.ListToString"}}, "Unifier_ToString")
}

func ruleT14(c *Ctx) {
	c.rule("node", "a node of a proof keeps the formula, the rule, the formulas it gives and its children", 20)
	s := same{hook: hooks(copyHook, makerHook, textHook), effects: []string{"os.*", "(*os.File).*"}, ordered: true,
		opaque: []string{"encoding/json.*", "Core.ApplySubstitution*", "(Search.ProofStruct).Copy", "Search.copyProofStructChildren", "Search.ProofStructListToJsonProofStructList", "Search.proofStructChildren*", "Search.IntFormAndTermsListToIntIntStringPairList", "Search.ProofStructListToString", "Search.ProofChildrenToString"}}
	c.batchRefs("node", "T14", "Search", s, "*")
}
