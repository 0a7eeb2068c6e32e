package main

// Skolemisation and instantiation.

func init() {
	register("T05", "Skolemisation is compared, on every path, with a reference: what replaces the bound variable, which metavariables the Skolem term depends on, that its symbol is newly made, how the remaining quantifier is rebuilt, and what the branch keeps.", ruleT05)
	register("T06", "Instantiation of universal formulas is compared, on every path, with a reference: a new metavariable replaces the bound variable, the remaining quantifier is rebuilt, and the metavariable is recorded with the formula and in the branch.", ruleT06)
}

func ruleT05(c *Ctx) {
	c.rule("skolemise", "the first bound variable is replaced by a Skolem term (or a new type), and the remaining quantifier and the polarity are kept", 1)
	c.rule("skolem-term", "the Skolem term is made of a new symbol (or, pre-inner, the symbol of an equal formula) and of the metavariables of the branch or of the formula", 4)
	c.rule("alpha", "formulas are put into a form that only forgets the names of bound variables", 2)
	c.rule("delta-rule", "a delta rule Skolemises its formula with the metavariables of the branch (incremental search: of the formula) and keeps the formula that results", 3)
	mk := hooks(copyHook, makerHook)
	c.sameAs("skolemise", "Core.Skolemize", "Core.refSkolemize", same{hook: mk, opaque: []string{"AST.IsTType", "AST.MkTyConst"}})
	s := same{hook: mk, opaque: []string{"Core/Sko.alphaConvert", "Core/Sko.genFreshSymbol", "Core/Sko.alphaConvertTerm"}, effects: []string{"Core/Sko.genFreshSymbol"}}
	c.sameAs("skolem-term", "(Core/Sko.OuterSkolemization).Skolemize", "Core/Sko.refOuter", s)
	c.sameAs("skolem-term", "(Core/Sko.InnerSkolemization).Skolemize", "Core/Sko.refInner", s)
	c.sameAs("skolem-term", "(Core/Sko.PreInnerSkolemization).Skolemize", "Core/Sko.refPreInner", s)
	c.sameAs("skolem-term", "Core/Sko.genFreshSymbol", "Core/Sko.refFreshSymbol", same{hook: mk})
	c.sameAs("alpha", "Core/Sko.alphaConvert", "Core/Sko.refAlphaConvert", s)
	c.sameAs("alpha", "Core/Sko.alphaConvertTerm", "Core/Sko.refAlphaConvertTerm", s)
	d := same{hook: hooks(copyHook, makerHook, getHook), opaque: []string{"Core.Skolemize", incMake}}
	c.sameAs("delta-rule", "Search.ApplyDeltaRules", "Search.refDelta", d)
	c.sameAs("delta-rule", "(*Search/incremental.DeltaExists).apply", "Search/incremental.refDeltaEx", d)
	c.sameAs("delta-rule", "(*Search/incremental.DeltaNotForall).apply", "Search/incremental.refDeltaNotAll", d)
}

func ruleT06(c *Ctx) {
	c.rule("instantiate", "the first bound variable is replaced by a new metavariable, and the remaining quantifier and the polarity are kept", 1)
	c.rule("gamma-rule", "a gamma rule keeps the instance of its formula, with the metavariable recorded", 3)
	c.sameAs("instantiate", "Core.Instantiate", "Core.refInstantiate", same{hook: hooks(copyHook, makerHook), opaque: []string{"AST.IsTType"}})
	d := same{hook: hooks(copyHook, makerHook, getHook), opaque: []string{"Core.Instantiate", incMake}}
	c.sameAs("gamma-rule", "Search.ApplyGammaRules", "Search.refGamma", d)
	c.sameAs("gamma-rule", "(*Search/incremental.GammaForall).apply", "Search/incremental.refGammaAll", d)
	c.sameAs("gamma-rule", "(*Search/incremental.GammaNotExists).apply", "Search/incremental.refGammaNotEx", d)
}
