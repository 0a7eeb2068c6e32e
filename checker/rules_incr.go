package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The incremental search: its rules, its substitutions and its tree.

func init() {
	register("N01", "The functions of the incremental search are compared, on every path, with references.", ruleN01)
}

func ruleN01(c *Ctx) {
	c.rule("rules", "each rule of the incremental search gives the branches of its connective", 20)
	c.rule("substitutions", "substitutions are compatible, equal and combined exactly when they agree on every metavariable", 20)
	c.rule("tree", "each node is searched, closed and given up as its rules and the answers of its children say", 20)
	in := "Search/incremental"
	s := same{hook: hooks(copyHook, makerHook, getHook, onceHook, textHook), ordered: true, loud: []string{"Search.PrintProof", "Search.PrintSearchResult"},
		opaque: []string{in + ".makeCorrectRule", "Core.*", "Lib.List*", "Glob.AppendIfNotContains*", "Glob.Contains*", "Unif.*", "(*Unif.*"},
		muts:   []string{"(*" + in + ".RulesManager).*", "(*" + in + ".ReintroRuleList).*"}}
	subs := []string{"TermWrapper_*", "SingleSub_*", "Sub_*", "New*Sub", "SubList_*", "getCompatibleBetween", "addMissingMetas"}
	rules := []string{"AnyRule_*", "makeCorrectRule", "Alpha*", "Beta*", "Gamma*", "Delta*", "*Pred_*", "*Top_*", "*Bot_*", "Closure_*", "RuleList_*"}
	u := s
	u.opaque = append(append([]string{}, s.opaque...), "(*"+in+".Sub).*", "("+in+".SubList).*", "(*"+in+".TermWrapper).Equals", "(*"+in+".SingleSub).Equals")
	c.batchRefs("substitutions", "N01", in, u, subs...)
	c.batchRefs("rules", "N01", in, s, rules...)
	rest := []string{"*"}
	for _, x := range append(append([]string{}, subs...), rules...) {
		rest = append(rest, "-"+x)
	}
	s.opaque = append(s.opaque, in+".*", "(*"+in+".Sub).*", "("+in+".SubList).*", "(*"+in+".AnyRule).*")
	for _, t := range []string{"SearchNode", "SimpleSubsManager", "BranchingSubsManager", "IntroSubsManager", "SimpleClosureManager"} {
		s.effects = append(s.effects, "(*"+in+"."+t+").*")
	}
	s.effects = append(s.effects, in+".addClosingSubs*", in+".sendClosing*", in+".allKeepGoing", in+".allDoParallelAlgo", "(*Glob.SyncCounter).*")
	c.batchRefs("tree", "N01", in, s, rest...)
	ruleKinds(c)
	ruleVerdict(c)
}

// ruleKinds: a kind of value that the search distinguishes is the kind of some value.
func ruleKinds(c *Ctx) {
	c.rule("kinds", "each interface that the incremental search asks a value for is implemented by some type", 1)
	seen := map[string]bool{}
	for _, f := range c.p.Funcs {
		if pk := fnPkg(f); pk == nil || !strings.HasSuffix(pk.Path(), "Search/incremental") || strings.HasPrefix(f.Name(), "ref") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ta, ok := ins.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				n, ok := ta.AssertedType.(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "Goeland") || seen[n.Obj().Name()] {
					continue
				}
				it, ok := n.Underlying().(*types.Interface)
				if !ok {
					continue
				}
				seen[n.Obj().Name()] = true
				name := "Search/incremental." + n.Obj().Name()
				if len(c.p.implementers(it)) == 0 {
					c.bad("kinds", name, c.p.fpos(f), "no type implements %s: the case for it is never taken", n.Obj().Name())
				} else {
					c.add("kinds", name, c.p.fpos(f), true, "implemented by %d types", len(c.p.implementers(it)))
				}
			}
		}
	}
}

// ruleVerdict: every search tells its result.
func ruleVerdict(c *Ctx) {
	c.rule("verdict", "every search algorithm that an option selects prints its result", 2)
	n := c.p.namedType("Search", "SearchAlgorithm")
	if n == nil {
		return
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, t := range c.p.implementers(it) {
		f := c.p.SSA.LookupMethod(types.NewPointer(t), t.Obj().Pkg(), "Search")
		if f == nil {
			continue
		}
		name := "(*" + t.Obj().Pkg().Name() + "." + t.Obj().Name() + ").Search"
		if reaches(f, "PrintSearchResult", map[*ssa.Function]bool{}) {
			c.add("verdict", name, c.p.fpos(f), true, "its result is printed")
		} else {
			c.bad("verdict", name, c.p.fpos(f), "no call that prints the result is reached")
		}
	}
}

// reaches says whether f calls, itself or through functions it refers to, one of the given name.
func reaches(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && (g.Name() == name || reaches(g, name, seen)) {
					return true
				}
			}
		}
	}
	return false
}
