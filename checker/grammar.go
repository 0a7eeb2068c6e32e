package main

// The grammar of the input: the productions of tptp_parse.y are compared with those of the reference grammar up
// to unit productions and to the names of nonterminals that are not recursive; the action of each production is
// made a function of its own in an overlay, and is compared with the action of the reference as any function is.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type prod struct {
	lhs    string
	rhs    []string
	action string
	line   int
}

type grammar struct {
	types map[string]string // symbol -> union field
	union map[string]string // union field -> Go type
	prods []*prod
	of    map[string][]*prod
	start string
}

var yaccComment = regexp.MustCompile(`(?s)/\*.*?\*/`)

func parseGrammar(text string) (*grammar, error) {
	g := &grammar{types: map[string]string{}, union: map[string]string{}, of: map[string][]*prod{}}
	parts := strings.Split(text, "\n%%")
	if len(parts) < 2 {
		return nil, fmt.Errorf("no rules")
	}
	decl := parts[0]
	if i := strings.Index(decl, "%union{"); i >= 0 {
		body := decl[i+len("%union{"):]
		body = body[:strings.Index(body, "\n}")]
		for _, l := range strings.Split(body, "\n") {
			f, t, ok := strings.Cut(strings.TrimSpace(l), " ")
			if ok {
				g.union[f] = strings.TrimSpace(t)
			}
		}
	}
	for _, l := range strings.Split(decl, "\n") {
		fs := strings.Fields(l)
		if len(fs) == 0 {
			continue
		}
		if fs[0] == "%start" && len(fs) > 1 {
			g.start = fs[1]
		}
		if (fs[0] == "%type" || fs[0] == "%token" || fs[0] == "%left" || fs[0] == "%right" || fs[0] == "%nonassoc") && len(fs) > 1 && strings.HasPrefix(fs[1], "<") {
			for _, s := range fs[2:] {
				g.types[s] = strings.Trim(fs[1], "<>")
			}
		}
	}
	s := parts[1]
	blank := func(m string) string { return strings.Repeat("\n", strings.Count(m, "\n")) }
	s = yaccComment.ReplaceAllStringFunc(s, blank)
	s = regexp.MustCompile(`(?m)^\s*//.*$`).ReplaceAllString(s, "")
	line := strings.Count(parts[0], "\n") + 2
	var cur *prod
	lhs := ""
	end := func() {
		if cur != nil {
			g.prods = append(g.prods, cur)
			g.of[cur.lhs] = append(g.of[cur.lhs], cur)
		}
		cur = nil
	}
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == '\n':
			line++
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == '{':
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '"' || s[j] == '\'' {
					q := s[j]
					for j++; j < len(s) && s[j] != q; j++ {
						if s[j] == '\\' {
							j++
						}
					}
				} else if s[j] == '{' {
					d++
				} else if s[j] == '}' {
					if d--; d == 0 {
						break
					}
				}
			}
			if cur == nil || j >= len(s) || cur.action != "" {
				return nil, fmt.Errorf("line %d: an action inside of a rule", line)
			}
			cur.action = strings.TrimSpace(s[i+1 : j])
			line += strings.Count(s[i:j], "\n")
			i = j + 1
		case ch == '|':
			end()
			cur = &prod{lhs: lhs, line: line}
			i++
		case ch == ';':
			end()
			i++
		case ch == ':':
			return nil, fmt.Errorf("line %d: a stray colon", line)
		default:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("line %d: %q not understood", line, ch)
			}
			w := s[i:j]
			k := j
			for k < len(s) && strings.ContainsRune(" \t\r\n", rune(s[k])) {
				k++
			}
			if k < len(s) && s[k] == ':' {
				end()
				lhs = w
				cur = &prod{lhs: lhs, line: line}
				if g.start == "" {
					g.start = w
				}
				line += strings.Count(s[j:k], "\n")
				i = k + 1
				continue
			}
			if cur == nil {
				return nil, fmt.Errorf("line %d: %s outside of a rule", line, w)
			}
			if cur.action != "" {
				return nil, fmt.Errorf("line %d: an action inside of a rule", line)
			}
			cur.rhs = append(cur.rhs, w)
			i = j
		}
	}
	end()
	return g, nil
}

// passes tells that a production only gives its single symbol another name.
func (p *prod) passes() bool {
	return len(p.rhs) == 1 && (p.action == "" || strings.Join(strings.Fields(p.action), "") == "$$=$1")
}

// expand gives the productions of a nonterminal, those of the nonterminals it may simply be included.
func (g *grammar) expand(n string) []*prod {
	var out []*prod
	seen := map[string]bool{}
	var walk func(n string)
	walk = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, p := range g.of[n] {
			if p.passes() && len(g.of[p.rhs[0]]) > 0 {
				walk(p.rhs[0])
			} else {
				out = append(out, p)
			}
		}
	}
	walk(n)
	return out
}

// classes tells which nonterminals of two grammars derive the same: the coarsest partition in which the members of a
// class have the same productions up to the classes of the nonterminals in them.
func classes(gs ...*grammar) []map[string]string {
	cl := make([]map[string]string, len(gs))
	for i, g := range gs {
		cl[i] = map[string]string{}
		for n := range g.of {
			cl[i][n] = "c0 " + g.goType(n)
		}
	}
	for count := 0; ; {
		num := map[string]string{}
		next := make([]map[string]string, len(gs))
		for i, g := range gs {
			next[i] = map[string]string{}
			for _, n := range g.sorted() {
				var l []string
				for _, p := range g.expand(n) {
					l = append(l, g.shape(p, func(x string) string {
						if c, ok := cl[i][x]; ok {
							return c
						}
						return x
					}))
				}
				sort.Strings(l)
				sig := cl[i][n] + " = " + strings.Join(l, " | ")
				if _, ok := num[sig]; !ok {
					num[sig] = fmt.Sprintf("c%d", len(num)+1)
				}
				next[i][n] = num[sig]
			}
		}
		cl = next
		if len(num) == count {
			return cl
		}
		count = len(num)
	}
}

func (g *grammar) sorted() []string {
	var ns []string
	for n := range g.of {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (g *grammar) shape(p *prod, name func(string) string) string {
	var l []string
	for _, x := range p.rhs {
		l = append(l, name(x))
	}
	return strings.Join(l, " ")
}

// goType gives the Go type of the value of a symbol.
func (g *grammar) goType(sym string) string { return g.union[g.types[sym]] }

var dollar = regexp.MustCompile(`\$(\$|\d+)`)

// function gives the action of a production as a function.
func (g *grammar) function(name string, p *prod) (string, bool) {
	var ps []string
	for i, x := range p.rhs {
		t := g.goType(x)
		if t == "" {
			t = "struct{}"
		}
		ps = append(ps, fmt.Sprintf("p%d %s", i+1, t))
	}
	res := g.goType(p.lhs)
	action := p.action
	if action == "" {
		if len(p.rhs) > 0 && res != "" && g.goType(p.rhs[0]) == res {
			action = "$$ = $1"
		} else {
			res = ""
		}
	}
	body := dollar.ReplaceAllStringFunc(action, func(m string) string {
		if m == "$$" {
			return "r"
		}
		return "p" + m[1:]
	})
	if res == "" {
		return fmt.Sprintf("func %s(%s) {\n%s\n}\n", name, strings.Join(ps, ", "), body), !strings.Contains(action, "$$")
	}
	return fmt.Sprintf("func %s(%s) (r %s) {\n%s\nreturn\n}\n", name, strings.Join(ps, ", "), res, body), true
}

type grammars struct {
	repo, ref *grammar
	err       error
	pairs     []actionPair
	bad       []actionPair // nonterminals with other productions
	undecided map[string]string
}

type actionPair struct {
	what string
	i    int
	p    *prod // of the repository
	ref  *prod
	text string
}

// loadGrammars compares the productions and pairs the actions.
func loadGrammars(src string) *grammars {
	gs := &grammars{undecided: map[string]string{}}
	b, err := os.ReadFile(filepath.Join(src, "Parser/tptp_parse.y"))
	if err == nil {
		gs.repo, err = parseGrammar(string(b))
	}
	if err != nil {
		gs.err = err
		return gs
	}
	b, _ = refFS.ReadFile("ref/P01_grammar.y")
	if gs.ref, err = parseGrammar(string(b)); err != nil {
		gs.err = err
		return gs
	}
	cl := classes(gs.repo, gs.ref)
	look := func(i int) func(string) string {
		return func(x string) string {
			if y, ok := cl[i][x]; ok {
				return y
			}
			return x
		}
	}
	// by name: nonterminals of the same name are taken for the same
	byName := func(i int) func(string) string {
		return func(x string) string {
			if len(gs.repo.of[x]) > 0 && len(gs.ref.of[x]) > 0 {
				return cl[1][x]
			}
			return look(i)(x)
		}
	}
	done := map[[2]*prod]bool{}
	for _, n := range gs.ref.sorted() {
		if len(gs.repo.of[n]) == 0 {
			gs.undecided[n] = "the nonterminal no longer exists"
			continue
		}
		ps, es := gs.repo.expand(n), gs.ref.expand(n)
		strange := false
		for _, p := range ps {
			for _, x := range p.rhs {
				if len(gs.repo.of[x]) > 0 && len(gs.ref.of[x]) == 0 {
					strange = true
				}
			}
		}
		for _, e := range es {
			for _, x := range e.rhs {
				if len(gs.ref.of[x]) > 0 && len(gs.repo.of[x]) == 0 {
					strange = true
				}
			}
		}
		taken := map[*prod]bool{}
		find := func(e *prod) *prod {
			k := gs.ref.shape(e, byName(1))
			var best *prod
			for _, p := range ps {
				if taken[p] || gs.repo.shape(p, byName(0)) != k {
					continue
				}
				if best == nil || p.lhs == e.lhs && best.lhs != e.lhs || strings.Join(p.rhs, " ") == strings.Join(e.rhs, " ") && strings.Join(best.rhs, " ") != strings.Join(e.rhs, " ") {
					best = p
				}
			}
			return best
		}
		for _, e := range es {
			q := find(e)
			if q == nil {
				if cl[0][n] == cl[1][n] {
					continue
				}
				if strange {
					gs.undecided[n] = "its productions use nonterminals only one of both grammars has"
				} else {
					gs.bad = append(gs.bad, actionPair{what: n, p: gs.repo.of[n][0], text: "nothing reads " + strings.Join(e.rhs, " ") + " as " + n + " any more"})
				}
				continue
			}
			taken[q] = true
			if done[[2]*prod{q, e}] {
				continue
			}
			done[[2]*prod{q, e}] = true
			gs.pairs = append(gs.pairs, actionPair{what: e.lhs + ": " + strings.Join(e.rhs, " "), i: len(gs.pairs), p: q, ref: e})
		}
		for _, p := range ps {
			if !taken[p] && cl[0][n] != cl[1][n] && !strange {
				gs.bad = append(gs.bad, actionPair{what: n, p: p, text: "a new production reads " + strings.Join(p.rhs, " ") + " as " + n})
			}
		}
	}
	return gs
}

// overlay gives the file with the actions of the pairs.
func (gs *grammars) overlay() string {
	if gs.err != nil {
		return ""
	}
	b := "package Parser\n\nimport \"github.com/GoelandProver/Goeland/Lib\"\n\nvar _ = Lib.MkNone[int]\n"
	for _, a := range gs.pairs {
		f1, ok1 := gs.repo.function(fmt.Sprintf("refP01_repoact_%d", a.i), a.p)
		f2, ok2 := gs.ref.function(fmt.Sprintf("refP01_act_%d", a.i), a.ref)
		if ok1 && ok2 {
			b += "\n" + f1 + "\n" + f2
		}
	}
	return b
}

func ruleGrammar(c *Ctx) {
	c.rule("grammar", "every form of the input syntax is read, and as the form it is", 40)
	c.rule("action", "what a production builds is what its parts stand for", 80)
	gs := loadGrammars(filepath.Join(c.p.Repo, "src"))
	if gs.err != nil {
		c.add("grammar", "tptp_parse.y", "", true, "not decided: %v", gs.err)
		return
	}
	at := func(p *prod) string { return fmt.Sprintf("src/Parser/tptp_parse.y:%d", p.line) }
	seen := map[string]bool{}
	for _, b := range gs.bad {
		if !seen[b.text] {
			seen[b.text] = true
			c.bad("grammar", "nonterminal "+b.what, at(b.p), "%s", b.text)
		}
	}
	for n := range gs.repo.of {
		if gs.undecided[n] != "" {
			c.add("grammar", "nonterminal "+n, "", true, "not decided: %s", gs.undecided[n])
		} else if len(gs.ref.of[n]) > 0 {
			c.ok("grammar", "nonterminal "+n, "")
		}
	}
	s := same{hook: hooks(copyHook, textHook), opaque: []string{"Parser.Mk*", "Parser.PFormulaRoleFromStr"}}
	for _, a := range gs.pairs {
		key := fmt.Sprintf("Parser.refP01_repoact_%d", a.i)
		if c.p.fn(key) == nil {
			c.add("action", "production "+a.what, at(a.p), true, "not decided: the action has no result of a known type")
			continue
		}
		n := len(c.obs)
		c.sameAs("action", key, fmt.Sprintf("Parser.refP01_act_%d", a.i), s)
		for i := n; i < len(c.obs); i++ {
			c.obs[i].Construct, c.obs[i].Where = "the action of "+a.what, at(a.p)
		}
	}
}
