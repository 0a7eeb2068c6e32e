package main

// The steps of a branch.

func init() {
	register("T07", "The functions that apply one rule to a branch are compared, on every path, with references: which formula is treated, what is put in its place, what the branch and its copies keep, and how the search goes on.", ruleT07)
}

const ds = "(*Search.destructiveSearch)."

func (c *Ctx) searchSame(extra ...string) same {
	return same{
		hook: hooks(copyHook, makerHook, getHook),
		opaque: append([]string{
			"Search.ApplyAlphaRules", "Search.ApplyBetaRules", "Search.ApplyDeltaRules", "Search.ApplyGammaRules", "Core.GetIndexMetaGenList", "Core.ReintroduceMeta",
			"(Search.State).Copy", "Core.ShowKindOfRule", "Search.searchObviousClosureRule", "Search.ApplyClosureRules",
			"(Core.FormAndTermsList).*", "Glob.IncrCptNode", "Glob.IncrGoRoutine", "Glob.GetGID", "Glob.IsLoaded",
			ds + "*", "Search.ApplySubstitution", "(*Search.State).DispatchForm",
		}, extra...),
		effects: append([]string{
			"Search.ApplyAlphaRules", "Search.ApplyBetaRules", "Search.ApplyDeltaRules", "Search.ApplyGammaRules", "Core.ReintroduceMeta",
			ds + "*", "Search.ApplySubstitution", "(*Search.State).DispatchForm", "Glob.IncrCptNode", "Glob.IncrGoRoutine",
		}, extra...),
		global: map[string]bool{"Glob.proof": true},
	}
}

func ruleT07(c *Ctx) {
	c.rule("step", "a rule is applied to the first formula of its list, whose place is taken by the conclusions; everything else of the branch is kept", 5)
	c.rule("dispatch", "the rule that is applied next, and what becomes of new formulas", 3)
	s := c.searchSame()
	c.sameAs("step", ds+"manageAlphaRules", "Search.refAlpha", s)
	c.sameAs("step", ds+"manageDeltaRules", "Search.refDeltaStep", s)
	c.sameAs("step", ds+"manageGammaRules", "Search.refGammaStep", s)
	c.sameAs("step", ds+"manageReintroductionRules", "Search.refReintroduce", s)
	c.sameAs("step", ds+"manageBetaRules", "Search.refBeta", s)
	c.sameAs("dispatch", ds+"applyRules", "Search.refApplyRules", s)
	c.sameAs("dispatch", ds+"getAtomicsForDMT", "Search.refAtomicsForDMT", s)
	c.sameAs("dispatch", ds+"ProofSearch", "Search.refProofSearch", s)
	ruleT07lists(c)
}

func ruleT07lists(c *Ctx) {
	c.rule("lists", "the lists of formulas of a branch keep what is put into them", 9)
	c.rule("state", "a formula is filed under the list of its kind, and a rule is applicable exactly when a list it draws from is not empty", 6)
	s := same{hook: hooks(copyHook, makerHook, getHook), opaque: []string{"(Core.FormAndTerms).Equals", "Core.chooseLessReintroducedMeta", "Core.ShowKindOfRule",
		"(Core.FormAndTermsList).AppendIfNotContains", "(Core.FormAndTermsList).Contains", "(Core.FormAndTermsList).Merge", "AST.EqualsWithoutOrder", "Glob.IsDestructive"}}
	c.sameAs("lists", "(Core.FormAndTermsList).Contains", "Core.refContains", s)
	c.sameAs("lists", "(Core.FormAndTerms).Equals", "Core.refFEquals", s)
	c.sameAs("lists", "(Core.FormAndTermsList).AppendIfNotContains", "Core.refAppendIfNotContains", s)
	c.sameAs("lists", "(Core.FormAndTermsList).Append", "Core.refAppend", s)
	c.sameAs("lists", "(Core.FormAndTermsList).Merge", "Core.refMerge", s)
	c.sameAs("lists", "(Core.FormAndTerms).Copy", "Core.refFtCopy", s)
	c.sameAs("lists", "(Core.FormAndTermsList).Copy", "Core.refFtlCopy", same{hook: makerHook, opaque: []string{"(Core.FormAndTerms).Copy"}})
	c.sameAs("lists", "Core.MakeFTListFromFormList", "Core.refFromForms", s)
	c.sameAs("lists", "(Core.FormAndTermsList).ExtractForms", "Core.refForms", s)
	c.sameAs("lists", "(Core.FormAndTermsList).FilterLitPolarity", "Core.refFilterLit", s)
	c.sameAs("lists", "Core.GetIndexMetaGenList", "Core.refIndexMetaGen", s)
	c.sameAs("lists", "Core.ReintroduceMeta", "Core.refReintroduceMeta", s)
	c.sameAs("state", "(*Search.State).DispatchForm", "Search.refDispatchForm", s)
	c.sameAs("state", "(Search.State).AreRulesApplicable", "Search.refAreRulesApplicable", s)
	c.sameAs("state", "(Search.State).CanReintroduce", "Search.refCanReintroduce", s)
	c.sameAs("state", "(Search.State).CanApplyGammaRule", "Search.refCanApplyGamma", s)
	c.sameAs("state", "(*Search.State).GetAllForms", "Search.refGetAllForms", s)
	c.sameAs("state", "Search.MakeState", "Search.refMakeState", s)
}

func init() {
	register("T08", "The functions that decide whether a branch is closed, under which substitutions, and which part of a substitution concerns the rest of the tree are compared, on every path, with references.", ruleT08)
}

func ruleT08(c *Ctx) {
	c.rule("closed", "a branch is closed by an obvious contradiction, an inequality that unifies or a literal of the opposite sign, and by nothing else", 5)
	c.rule("incremental", "the incremental search closes a branch under the same conditions", 5)
	c.rule("told", "a substitution that binds a metavariable of the rest of the tree is sent to the father, any other one is kept", 5)
	s := c.searchSame("Search.searchInequalities", "Search.searchClosureRule", "Search.searchForbidden")
	s.opaque = append(s.opaque, "Unif.AddUnification", "Core.AreEqualsModuloaLaphaConversion", "Core.DispatchSubst", "Core.GetMetaFromSubst", "Core.MergeSubstAndForm", "Unif.MergeMixedSubstitutions",
		"Core.AppendIfNotContainsSubstAndForm", "Search.retrieveMetaFromSubst", "Glob.UnionIntList", "(*Core.Unifier).*", "(Unif.MixedSubstitutions).*", "(Unif.MixedSubstitution).*", "(Unif.Substitutions).*", "Unif.UnifSucceeded", "(Search.State).GetForbiddenSubsts")
	s.opaque = append(s.opaque, "(AST.Pred).Equals")
	s.hook = hooks(copyHook, makerHook, getHook, onceHook)
	s.effects = append(s.effects, "(*Core.Unifier).*")
	c.sameAs("closed", "Search.searchObviousClosureRule", "Search.refObvious", same{hook: s.hook})
	c.sameAs("closed", "Search.ApplyClosureRules", "Search.refApplyClosure", s)
	c.sameAs("closed", "Search.searchForbidden", "Search.refForbidden", s)
	c.sameAs("closed", "Search.searchInequalities", "Search.refInequalities", s)
	c.sameAs("closed", "Search.searchClosureRule", "Search.refClosureRule", s)
	c.sameAs("told", ds+"searchContradiction", "Search.refContradiction", s)
	c.sameAs("told", ds+"searchContradictionAfterApplySusbt", "Search.refContradictionAfter", s)
	c.sameAs("told", ds+"ManageClosureRule", "Search.refManageClosure", s)
	o := same{hook: s.hook, opaque: s.opaque}
	c.sameAs("told", "Core.DispatchSubst", "Core.refDispatchSubst", same{hook: s.hook, opaque: append([]string{"Core.RemoveElementWithoutMM"}, s.opaque...)})
	o.opaque = append(append([]string{}, o.opaque...), "Unif.Eliminate", "Unif.EliminateMeta", "Unif.MergeSubstitutions", "Core.ReorganizeSubstitution", "Unif.MkMixedFromSubst", "Unif.MkMixedFromTy", "(*Unif.Substitutions).*")
	o.muts = []string{"Unif.Eliminate", "Unif.EliminateMeta", "(*Unif.Substitutions).Set"}
	c.sameAs("told", "Core.RemoveElementWithoutMM", "Core.refRemoveElementWithoutMM", o)
	c.sameAs("told", "Core.GetMetaFromSubst", "Core.refGetMetaFromSubst", same{hook: s.hook})
	i := same{hook: s.hook, opaque: []string{"(AST.Pred).Equals", "(*Search/incremental.RulesManager).*", "(Unif.DataStructure).*", "(*Unif.Node).*", "(Unif.Node).*", "Search/incremental.NewFromOldSub", "(*Search/incremental.RuleList).*"}}
	for _, n := range []string{"tryClosureRules", "tryTrivialClosureRules", "tryComplementaryClosureRules", "trySubstitutionClosureRules", "getAtomicsWithoutTopOrBottom"} {
		c.sameAs("incremental", "(*Search/incremental.RulesManager)."+n, "Search/incremental.ref"+string(n[0]-32)+n[1:], i)
	}
}
