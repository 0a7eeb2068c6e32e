package main

import (
	_ "embed"
	"go/ast"
	"go/constant"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Exported proofs: the sequent proof made from a tableau, and what the output formats print of it.

func init() {
	register("O01", "The functions that turn a tableau into a sequent proof are compared, on every path, with references.", ruleO01)
}

func ruleO01(c *Ctx) {
	c.rule("sequent", "each step of the tableau becomes the step of the sequent calculus of the same rule on the same formula", 30)
	c.rule("occurrence", "the term that a quantified variable is replaced by is found where the variable occurs", 10)
	s := same{hook: hooks(copyHook, makerHook, getHook, textHook), loud: []string{"Glob.PrintInfo"}, ordered: true,
		opaque: []string{"Mods/gs3.appcp*", "Mods/gs3.Is*Rule", "Mods/gs3.proofStructRuleToGS3Rule", "Mods/gs3.makeProofStructFrom", "Mods/gs3.getVariableOccurrencesTerm", "Mods/gs3.getVariableOccurrencesForm", "Mods/gs3.getTermAux", "Mods/gs3.getTerm", "Mods/gs3.manage*", "Mods/gs3.getDepFromTerm",
			"Lib.ListIndexOf*", "Lib.ListMem*", "(Mods/gs3.GS3Proof).*", "(Mods/gs3.dependencyMap).*"},
		muts: []string{"(*Mods/gs3.GS3Sequent).set*", "(*Mods/gs3.GS3Proof).*", "(*Mods/gs3.dependencyMap).*"}}
	occ := []string{"getVariableOccurrencesTerm", "getVariableOccurrencesForm", "getAllVariableOccurrences", "getUnaryOcc", "getNAryOcc", "getTermAt", "getTermAux", "getUnaryTerm", "getNAryTerm", "getTerm",
		"getResultTerm", "getNextFormula", "manageGammasInstantiations", "manageDeltasSkolemisations"}
	steps := []string{"GS3Proof_makeProofOneStep", "GS3Proof_manageDeltaStep"}
	c.batchRefs("occurrence", "O01", "Mods/gs3", s, occ...)
	rest := []string{"*"}
	for _, n := range append(steps, occ...) {
		rest = append(rest, "-"+n)
	}
	c.batchRefs("sequent", "O01", "Mods/gs3", s, rest...)
	// the steps call one another: their calls are compared in their order
	e := s
	e.effects, e.muts = e.muts, nil
	c.batchRefs("sequent", "O01", "Mods/gs3", e, steps...)
}

func init() {
	register("O02", "The functions that print a proof in TPTP format are compared, on every path, with references.", func(c *Ctx) { ruleOut(c, "O02", "Mods/tptp", 20) })
	register("O03", "The functions that print a proof for Rocq are compared, on every path, with references.", func(c *Ctx) { ruleOut(c, "O03", "Mods/rocq", 20); ruleLemmas(c) })
	register("O04", "The functions that print a proof for Lambdapi are compared, on every path, with references.", func(c *Ctx) { ruleOut(c, "O04", "Mods/lambdapi", 20) })
}

func ruleOut(c *Ctx, p, pkg string, min int) {
	c.rule("print", "the text printed for each step is the one of its rule, on its formula, with the hypotheses and branches of the step", min)
	s := same{hook: hooks(copyHook, makerHook, getHook, textHook), loud: []string{"Glob.PrintInfo"}, ordered: true,
		opaque: []string{pkg + ".*", "-Mods/tptp.incrByOne", "-Mods/lambdapi.getIncreasedCounter", "Lib.List*", "Lib.MkListV*", "Glob.IntListToString", "Glob.MapTo*", "Glob.IsLoaded", "Glob.Is*", "Glob.Get*", "Mods/gs3.MakeGS3Proof", "Mods/dmt.*", "Typing.*", "AST.MkPrinter*", "AST.SanitizerAction", "AST.RemoveSuperfluousParenthesesAction"},
		muts:   []string{"(*Mods/gs3.GS3Sequent).Set*", "AST.SetPrinter", "(*Glob.Map[T, U]).*"}}
	s.maxPart = 400
	c.batchRefs("print", p, pkg, s, "*")
}

//go:embed ref/O03_lemmas.v
var rocqLemmas string

// ruleLemmas: the lemmas that the printed proofs apply are stated and proved in the preamble.
func ruleLemmas(c *Ctx) {
	c.rule("lemmas", "each lemma that the printed proof applies is in the preamble, with the statement its name promises, and nothing is assumed", 20)
	var found []string
	where := ""
	c.p.eachFile(func(pk *packages.Package, file *ast.File) {
		if !strings.HasSuffix(pk.PkgPath, "Mods/rocq") {
			return
		}
		ast.Inspect(file, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			tv, ok := pk.TypesInfo.Types[e]
			if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
				return true
			}
			if s := constant.StringVal(tv.Value); strings.Contains(s, "Lemma ") || strings.Contains(s, "Definition ") {
				found = append(found, s)
				if where == "" {
					where = c.p.pos(e.Pos())
				}
			}
			return false
		})
	})
	have := map[string]bool{}
	for _, s := range rocqSentences(strings.Join(found, "\n")) {
		have[s] = true
	}
	want := map[string]bool{}
	for _, s := range rocqSentences(rocqLemmas) {
		want[s] = true
		if len(have) == 0 {
			c.add("lemmas", "Mods/rocq", "", true, "not decided: the preamble is not a constant")
			continue
		}
		if !have[s] {
			c.bad("lemmas", "Mods/rocq", where, "the preamble does not have: %s", s)
			continue
		}
		c.add("lemmas", "Mods/rocq", where, true, "%s", s)
	}
	for s := range have {
		for _, w := range []string{"Axiom", "Parameter", "Admitted", "admit", "Hypothesis", "Conjecture"} {
			if !want[s] && strings.Contains(s, w) {
				c.bad("lemmas", "Mods/rocq", where, "the preamble assumes: %s", s)
			}
		}
	}
}

var rocqComment = regexp.MustCompile(`(?s)\(\*.*?\*\)`)

// rocqSentences splits a text of Rocq: a lemma and its proof are one sentence, without the proof.
func rocqSentences(t string) []string {
	var out []string
	for _, s := range regexp.MustCompile(`\.(\s+|$)`).Split(rocqComment.ReplaceAllString(t, " "), -1) {
		s = strings.Join(strings.Fields(s), " ")
		if strings.HasPrefix(s, "Lemma ") || strings.HasPrefix(s, "Definition ") || strings.HasPrefix(s, "From ") || strings.Contains(s, "dmit") || strings.HasPrefix(s, "Axiom") || strings.HasPrefix(s, "Parameter") {
			out = append(out, s)
		}
	}
	return out
}
