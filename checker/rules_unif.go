package main

// Unification: substitutions, code trees and the machine that reads them.

func init() {
	register("U01", "The functions that build, solve, merge and translate substitutions are compared, on every path, with references.", ruleU01)
	register("U02", "The functions that compile literals, insert them in a code tree and run the matching machine are compared, on every path, with references.", ruleU02)
}

var (
	unifMuts = []string{"Unif.eliminate*", "Unif.Eliminate", "Unif.EliminateMeta", "(*Unif.Substitutions).Set", "(*Unif.Substitutions).Remove", "(*Unif.Machine).addUnifications", "(*Unif.Machine).trySubstituteMeta",
		"Unif.parseTerms", "Unif.parsePred", "(*Unif.Node).insert", "(*Unif.Node).followInstructions", "(*Unif.Machine).unify", "(*Unif.Machine).unifyAux"}
	unifOpaque = []string{"Unif.eliminate*", "Unif.isRecursive", "Unif.areFuncArgsRecursive", "Unif.OccurCheckValid", "Unif.computeSubstitutions", "Unif.AddUnification", "Unif.tryUnification", "Unif.MergeSubstitutions",
		"Unif.HasSubst", "(Unif.Substitutions).Get", "(Unif.Substitutions).Equals", "Unif.ContainsSubst", "Unif.translate*", "Unif.getFunctionalArguments", "Unif.Parse*",
		"(*Unif.Machine).unwrapMeta", "(*Unif.Machine).launchChildrenSearch", "Unif.makeCodeTree*", "Unif.makeBranch", "Unif.GetSubstAt", "Unif.MakerTermForm"}
)

func ruleU01(c *Ctx) {
	c.rule("solve", "occurs check, elimination, unification with a substitution and merging", 15)
	c.rule("parts", "substitutions are built, read, copied, compared and translated as what they are", 30)
	s := same{hook: hooks(copyHook, makerHook), opaque: unifOpaque, muts: unifMuts}
	c.batchRefs("solve", "U01", "Unif", s, "OccurCheckValid", "isRecursive", "areFuncArgsRecursive", "Eliminate", "eliminateInside", "eliminateList", "EliminateMeta", "computeSubstitutions", "Machine_*", "AddUnification", "tryUnification",
		"MergeSubstitutions", "HasSubst", "Failure", "MergeMixedSubstitutions", "UnifSucceeded")
	c.batchRefs("parts", "U01", "Unif", s, "Substitutions_*", "Substitution_*", "CopySubstList", "ContainsSubst", "AddSubst*", "AppendIf*", "MakeEmptySubstitution", "MakeSubstitution", "MkTySubstitution", "TySubstitution_*", "translate*",
		"MkMixed*", "FromSubst*", "ToSubst*", "MixedSubst*", "MatchingSubst*", "MakeMatching*")
}

func ruleU02(c *Ctx) {
	c.rule("machine", "each instruction does what it is for to the state of the machine, which fails exactly when the terms differ", 20)
	c.rule("tree", "a literal is inserted in the tree without losing another, and a tree is made of the literals of one polarity", 8)
	c.rule("code", "a literal is compiled to a sequence of instructions that tells it from every other", 6)
	c.rule("parts", "instructions and their parts are built, copied and compared as what they are", 25)
	s := same{hook: hooks(copyHook, makerHook), opaque: unifOpaque, muts: unifMuts}
	c.batchRefs("machine", "U02", "Unif", s, "makeMachine", "errorOccured", "Machine_*", "-Machine_unifyAux", "removePost", "Node_Unify")
	one := s
	one.muts = append([]string{"(*Unif.Machine).*"}, s.muts...)
	c.batchRefs("machine", "U02", "Unif", one, "Machine_unifyAux")
	c.batchRefs("tree", "U02", "Unif", s, "Node_IsEmpty", "Node_MakeDataStruct", "Node_Copy", "Node_isLeaf", "NewNode", "makeCodeTree*", "makeBranch", "makeNode", "Node_InsertFormulaListToDataStructure", "Node_insert", "Node_followInstructions", "CopyNodeList")
	c.batchRefs("code", "U02", "Unif", s, "ParseFormula", "ParseTerm", "parse*", "getFunctionalArguments", "MakerTermForm", "makeTermForm")
	c.batchRefs("parts", "U02", "Unif", s, "TermForm_*", "Begin_*", "End_*", "Right_*", "Down_*", "Check_*", "Push_*", "Pop_*", "Put_*", "Compare_*", "CopyInstructionList", "makeEnd", "makeCheck", "IntPair_*", "MakeIntPair", "CopyIntPairList",
		"Sequence_*", "SubstPair_*", "GetSubstAt", "MakeSubstPair", "CopySubstPairList")
}
