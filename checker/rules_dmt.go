package main

// Deduction modulo theory: which axioms become rewrite rules, and what a literal is rewritten to.

func init() {
	register("D01", "The functions of the dmt plugin are compared, on every path, with references.", ruleD01)
}

func ruleD01(c *Ctx) {
	c.rule("rules", "an axiom becomes rewrite rules that mean the same, or stays an axiom", 12)
	c.rule("rewrite", "a literal is rewritten by the rules of its polarity that match it", 12)
	s := same{hook: hooks(copyHook, makerHook, textHook), loud: []string{"Glob.PrintInfo"},
		opaque:  []string{"Mods/dmt.insert", "Mods/dmt.insertFirst", "Lib.ListAdd*", "Lib.ListMem*", "Mods/dmt.instanciateForalls", "Mods/dmt.isFiltering", "Mods/dmt.substitute", "Mods/dmt.getRewrittenFormulas", "Mods/dmt.sortUnifications", "Mods/dmt.addRewrittenFormulas", "Mods/dmt.getUnifiedEquivalence", "Core.Instantiate", "Core.Skolemize", "Core.ShowKindOfRule", "Core.RemoveElementWithoutMM", "Unif.FromSubstitutions", "Unif.ToSubstitutions", "Unif.NewNode"},
		effects: []string{"Mods/dmt.makeRewriteRuleFrom*", "Mods/dmt.rewriteMapInsertion", "Mods/dmt.addPosRewriteRule", "Mods/dmt.addNegRewriteRule", "Mods/dmt.addRewriteRule"}, ordered: true}
	reg := []string{"RegisterAxiom", "instanciateForalls", "addPosRewriteRule", "addNegRewriteRule", "addRewriteRule", "canSkolemize", "isRegisterableAsEqu", "makeRewriteRuleFromEquivalence", "isAtomic",
		"areBothAtomics", "neitherAreAtomics", "isEqualityPred", "addEquRewriteRuleIfNotEquality", "addEquivalenceRewriteRule", "isRegisterableAsImplication", "makeRewriteRuleFromImplication",
		"isEquality", "predFromNegatedAtom", "rewriteMapInsertion"}
	c.batchRefs("rules", "D01", "Mods/dmt", s, reg...)
	rest := []string{"*"}
	for _, n := range reg {
		rest = append(rest, "-"+n)
	}
	c.batchRefs("rewrite", "D01", "Mods/dmt", s, rest...)
}
