package main

import (
	"sort"
	"strings"
)

// The state of a branch, and what substitutions do to it.

func init() {
	register("T09", "Copying a branch, the accessors of branches and messages, and the constructors they use are compared, on every path, with references.", ruleT09)
	register("T10", "The functions that apply and merge substitutions are compared, on every path, with references.", ruleT10)
}

func accessors(p *Prog, pkg, typ string, pointer bool, prefixes ...string) []string {
	var l []string
	for _, ptr := range []string{"", "*"} {
		pre := "(" + ptr + pkg + "." + typ + ")."
		for k, f := range p.byKey {
			if strings.HasPrefix(k, pre) && declared(f) {
				for _, x := range prefixes {
					if strings.HasPrefix(strings.TrimPrefix(k, pre), x) {
						l = append(l, k)
					}
				}
			}
		}
	}
	return sorted(l)
}

func ruleT09(c *Ctx) {
	c.rule("copy", "a branch made from another has its formulas, metavariables, trees and restrictions, and none of its results", 3)
	c.rule("state", "an accessor of a branch or of a message reads or writes the part it is named after, and nothing else", 50)
	c.rule("parts", "substitutions with formulas keep both their parts when they are built or copied", 20)
	s := same{hook: hooks(copyHook, makerHook), global: map[string]bool{"Glob.proof": true},
		opaque: []string{"Unif.*", "(Unif.Node).*", "Glob.IsLoaded", "Glob.IsDestructive", "(Core.FormAndTermsList).ExtractForms"}}
	c.batch("copy", "T09", s, "(Search.State).Copy", "Search.MakeState", "(Search.Result).Copy")
	s.opaque = append(s.opaque, "(Core.*", "Search.CopyProofStructList", "Core.Copy*", "(Search.ProofStruct).*", "(*Search.ProofStruct).*")
	c.batch("state", "T09", s, "(*Search.State).AddToTreePos", "(*Search.State).AddToTreeNeg", "(Search.State).CanReintroduce", "(Search.State).CanApplyGammaRule", "Search.MakeCommunication")
	c.batch("state", "T09", s, refTargets(c.p, "T09", "Search", "State", "Get", "Set")...)
	c.batch("state", "T09", s, refTargets(c.p, "T09", "Search", "Result", "get", "is", "needs")...)
	c.batch("state", "T09", s, refTargets(c.p, "T09", "Search", "Communication", "get")...)
	p := same{hook: hooks(copyHook, makerHook), opaque: []string{"AST.EqualsWithoutOrder", "(Unif.MixedSubstitution).Equals", "(Core.SubstAndForm).IsEmpty", "(Core.SubstAndFormAndTerms).IsEmpty", "(Core.FormAndTerms).Equals", "Lib.ListAdd"}}
	c.batch("parts", "T09", p,
		"(Core.SubstAndForm).Copy", "(Core.SubstAndForm).GetSubst", "(Core.SubstAndForm).GetForm", "(*Core.SubstAndForm).SetSubst", "(*Core.SubstAndForm).SetForm",
		"(Core.SubstAndForm).IsEmpty", "(Core.SubstAndForm).Equals", "Core.MakeSubstAndForm", "Core.MakeEmptySubstAndForm", "(Core.SubstAndForm).AddFormulas",
		"(Core.IntSubstAndForm).Copy", "Core.MakeIntSubstAndForm", "Core.MakeEmptyIntSubstAndForm", "(Core.SubstAndFormAndTerms).Copy", "(Core.SubstAndFormAndTerms).IsEmpty",
		"(Core.SubstAndFormAndTerms).Equals", "(Core.SubstAndFormAndTerms).ToSubstAndForm", "Core.MakeSubstAndFormAndTerms", "Core.MakeEmptySubstAndFormAndTerms",
		"(Core.IntSubstAndFormAndTerms).Copy", "(Core.MetaGen).Copy", "Core.MakeMetaGen", "(Core.FormAndTerms).GetForm", "(Core.FormAndTerms).GetTerms",
		"Core.MakeFormAndTerm", "(Core.FormAndTermsList).InsertFirst", "Core.MakeSingleElementFormAndTermList", "Core.MakeEmptyFormAndTermsList", "(Core.FormAndTermsList).Equals")
	l := same{hook: makerHook, opaque: []string{"(Core.SubstAndForm).Copy", "(Core.IntSubstAndForm).Copy", "(Core.IntSubstAndFormAndTerms).Copy", "(Core.MetaGen).Copy"}}
	c.batch("parts", "T09", l, "Core.CopySubstAndFormList", "Core.CopyIntSubstAndFormList", "Core.CopyIntSubstAndFormAndTermsList", "Core.CopyMetaGenList")
}

// refTargets lists the methods of a type that have a reference.
func refTargets(p *Prog, prop, pkg, typ string, prefixes ...string) []string {
	var l []string
	for _, k := range accessors(p, pkg, typ, false, prefixes...) {
		i := strings.LastIndex(k, ".")
		if p.fn(pkg+".ref"+prop+"_"+typ+"_"+k[i+1:]) != nil {
			l = append(l, k)
		}
	}
	return l
}

func ruleT10(c *Ctx) {
	c.rule("formulas", "a substitution is applied, binding after binding, to every formula and every term of a list", 10)
	c.rule("branch", "a substitution is merged with the ones applied before and reaches every list of the branch, its kept universal formulas and both its trees", 1)
	c.rule("proof", "a substitution reaches every node of a proof", 2)
	c.rule("merge", "merging and filtering lists of substitutions keeps exactly those it should", 7)
	s := same{hook: hooks(copyHook, makerHook, getHook), opaque: []string{"(Unif.Node).*", "Core.ApplySubstitution*", "(Core.FormAndTermsList).*", "(Core.FormAndTerms).Equals", "Core.ContainsMetaGenList",
		"Unif.Merge*", "Core.MergeSubstAndForm", "Core.ContainsSubstAndForm", "(Core.SubstAndForm).Equals", "(Core.SubstAndForm).IsEmpty", "(*Unif.Substitutions).Set", "AST.ReplaceOccurrence", "(Core.FormAndTerms).SubstituteBy", "Search.ApplySubstitutionOnProofList",
		"Lib.ListAdd"},
		effects: []string{"(*Unif.Substitutions).Set"}}
	c.batch("formulas", "T10", s, "Core.ApplySubstitutionOnTerm", "Core.ApplySubstitutionsOnTermList", "Core.ApplySubstitutionsOnTerm", "Core.ApplySubstitutionOnTermList", "Core.ApplySubstitutionsOnFormula",
		"Core.ApplySubstitutionsOnFormulaList", "Core.ApplySubstitutionsOnFormAndTerms", "Core.ApplySubstitutionsOnFormAndTermsList", "Core.ApplySubstitutionOnMetaGenList", "Core.ApplySubstitutionOnMetaGen",
		"(Core.FormAndTerms).SubstituteBy", "(Core.FormAndTermsList).SubstituteBy")
	c.batch("merge", "T10", s, "Core.RemoveIdentitySubst", "Core.MergeSubstAndForm", "Core.MergeSubstListWithSubst", "Core.FusionSubstAndFormListWithoutDouble", "Core.AppendIfNotContainsSubstAndForm",
		"Core.ContainsSubstAndForm", "Core.ContainsMetaGenList", "Core.RemoveEmptySubstFromSubstList", "Core.RemoveEmptySubstFromSubstAndFormList", "Core.GetSubstListFromSubstAndFormList", "Core.ReorganizeSubstitution")
	c.batch("branch", "T10", s, "Search.ApplySubstitution")
	c.batch("proof", "T10", s, "Search.ApplySubstitutionOnProofList", "(*Search.IntFormAndTermsList).SubstituteBy")
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

func init() {
	register("T11", "The functions by which a branch and its children exchange substitutions, refusals and results are compared, on every path, with references.", ruleT11)
}

func ruleT11(c *Ctx) {
	c.rule("messages", "what is sent to the father or to the children, and what is done with their answers", 10)
	c.rule("choice", "every substitution that was not tried yet is kept for later", 2)
	c.rule("verdict", "the answer of the search is the answer of the root", 4)
	s := c.searchSame("Search.sendSubToChildren", "Search.sendForbiddenToChildren", "Search.closeChildren", "Search.removeChildren", "Search.updateProof", "(*Core.Unifier).*", "Core.MergeSubstAndForm",
		"Core.RemoveElementWithoutMM", "(*Core.IntSubstAndForm*", "Core.AppendIfNotContainsSubstAndForm", "Search.PrintSearchResult", "Search.PrintProof", "AST.ResetMeta", "Search.ResetExchangesFile", "Search.ApplySubstitutionOnProofList",
		"Search.RetrieveUninstantiatedMetaFromProof", "Core.RemoveEmptySubstFromSubstAndFormList", "Core.FusionSubstAndFormListWithoutDouble")
	s.opaque = append(s.opaque, "Core.MergeUnifierList", "Unif.*", "(Unif.*", "Core.ApplySubst*", "Glob.InterIntList", "Glob.UnionIntList", "Search.retrieveMetaFromSubst", "Core.ContainsMetaMother", "(Core.SubstAndForm).AddFormulas",
		"Search/*", "Mods/dmt.*", "Core.GetSubstListFromSubstAndFormList", "Core.GetMetaFromSubst", "Core.MakeUnifier", "Lib.ListEquals")
	c.batch("messages", "T11", s, "Search.removeChildren", "Search.closeChildren", "Search.sendSubToChildren", "Search.sendForbiddenToChildren", "Search.updateProof", "Search.MakeWcdArgs", "Search.retrieveMetaFromSubst")
	for _, n := range []string{"sendSubToFather", "childrenClosedByThemselves", "passSubstToParent", "passSubstToChildren", "manageOpenedChild", "manageBacktrackForDMT", "waitChildren", "waitFather", "manageQuitOrder", "selectChildren", "DoEndManageBeta", "manageRewriteRules", "tryRewrite"} {
		c.batch("messages", "T11", s, ds+n)
	}
	c.batch("choice", "T11", s, ds+"tryBTSubstitution", ds+"chooseSubstitutionDestructive")
	c.batch("verdict", "T11", s, ds+"doOneStep", ds+"Search", ds+"manageResult")
	pr := same{hook: textHook, loud: []string{"Glob.PrintInfo"}, ignoreEv: func(e *V) bool { return strings.Contains(e.key(), "goroutines") }, effects: []string{"Search.printStandardSolution"}, opaque: []string{"Glob.GetNbGoroutines", "Glob.IsConjectureFound", "Glob.GetProblemName"}}
	c.batch("verdict", "T11", pr, "Search.PrintSearchResult", "Search.printStandardSolution")
}
