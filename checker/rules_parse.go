package main

import "strings"

// From the characters of a problem file to the parsed statements.

func init() {
	register("P01", "The functions of the lexer and of the parser's syntax are compared, on every path, with references; so is the action of every production of the grammar.", ruleP01)
}

var lexMuts = func() (l []string) {
	for _, n := range strings.Fields("filterComments filterSpaces notStarSlash isKeyword isOperator isPredicate SyntacticLex quotedWords singleQuoted distinctObject word alphaNumeric number real signedReal unsignedReal decimalExponent decimalFraction decimal positiveDecimal dotDecimal expInteger signedExpInteger unsignedExpInteger integer signedInteger unsignedInteger rational signedRational unsignedRational") {
		l = append(l, "(*Parser.TPTPLex)."+n)
	}
	return l
}()

func ruleP01(c *Ctx) {
	c.rule("lexer", "the characters of a problem become the tokens of the TPTP syntax, and nothing is dropped silently", 20)
	c.rule("syntax", "each connective, quantifier, term and type of the input is kept as what was written", 20)
	s := same{hook: hooks(copyHook, textHook), opaque: []string{"unicode.*", "os.ReadFile", "Parser.TPTPParse", "(Parser.TPTPLex).specialChars"},
		muts: lexMuts}
	step := s
	step.muts = append([]string{"(*Parser.TPTPLex).advance", "(*Parser.TPTPLex).remove", "(*Parser.TPTPLex).checkAdvance", "(*Parser.TPTPLex).manageFailableReturn", "(*Parser.TPTPLex).checkNext"}, lexMuts...)
	stepped := []string{"TPTPLex_dotDecimal", "TPTPLex_filterComments", "TPTPLex_isOperator", "TPTPLex_isPredicate"}
	c.batchRefs("lexer", "P01", "Parser", step, stepped...)
	rest := []string{"TPTPLex_*", "manage*", "ParseTPTPFile"}
	for _, n := range stepped {
		rest = append(rest, "-"+n)
	}
	c.batchRefs("lexer", "P01", "Parser", s, rest...)
	c.batchRefs("syntax", "P01", "Parser", s, "*", "-TPTPLex*", "-manage*", "-ParseTPTPFile", "-act*", "-repoact*")
	ruleGrammar(c)
}
