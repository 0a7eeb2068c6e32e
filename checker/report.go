package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one instance of a rule, keyed by rule and construct.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Ctx collects the obligations of one property.
type Ctx struct {
	p        *Prog
	id       string
	thorough bool
	obs      []Obligation
	rules    map[string]string // rule -> what it says
	funcs    map[string]bool   // functions looked at
	steps    int
	mins     map[string]int
}

func (c *Ctx) rule(name, text string, min int) {
	c.rules[name] = text
	c.mins[name] = min
}

func (c *Ctx) add(rule, construct, where string, ok bool, f string, a ...any) {
	if _, known := c.rules[rule]; !known {
		panic("rule " + rule + " is not declared")
	}
	c.obs = append(c.obs, Obligation{rule, construct, where, ok, fmt.Sprintf(f, a...)})
}

func (c *Ctx) ok(rule, construct, where string) { c.add(rule, construct, where, true, "") }
func (c *Ctx) bad(rule, construct, where, f string, a ...any) {
	c.add(rule, construct, where, false, f, a...)
}

// fn finds an anchor; a missing anchor is a violation of the rule.
func (c *Ctx) fn(rule, key string) *ssa.Function {
	f := c.p.fn(key)
	if f == nil || f.Blocks == nil {
		c.bad(rule, key, "", "the function %s the rule is anchored in does not exist", key)
		return nil
	}
	c.saw(f)
	return f
}

func (c *Ctx) saw(f *ssa.Function) { c.funcs[c.p.key(f)] = true }

func (c *Ctx) absorb(in *Interp) {
	for f := range in.visited {
		c.saw(f)
	}
	c.steps += in.steps
}

// Property is a property the checker decides.
type Property struct {
	id    string
	level string
	expl  string
	run   func(c *Ctx)
}

var properties []*Property

func register(id, expl string, run func(c *Ctx)) {
	properties = append(properties, &Property{id: id, level: "other", expl: expl, run: run})
}

type finding struct{ prop, rule, construct, text string }

// readFindings reads the committed list of known findings.
func readFindings(root string) []finding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 4)
		if len(parts) != 4 {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "rule="), strings.TrimPrefix(parts[2], "construct="), parts[3]})
	}
	return out
}

func runProperty(root string, pr *Property, p *Prog, loadErr error, tier string, t0 time.Time) int {
	thorough = tier == "thorough"
	c := &Ctx{p: p, id: pr.id, thorough: tier == "thorough", rules: map[string]string{}, funcs: map[string]bool{}, mins: map[string]int{}}
	if loadErr != nil {
		c.rule("load", "the program under /repo/src type-checks and can be analysed", 1)
		c.bad("load", "program", "", "%v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.rule("analysis", "the analysis terminates with a verdict", 0)
					if os.Getenv("REF_DEBUG") != "" {
						fmt.Printf("%v\n%s\n", r, debug.Stack())
					}
					// a form of code the analysis was not made for says nothing about the property
					c.add("analysis", "panic", "", true, "not decided: the analysis fails: %v", r)
					c.mins = nil
				}
			}()
			pr.run(c)
		}()
	}
	// a rule that matches fewer instances than confirmed by hand does not decide anything
	count := map[string]int{}
	for _, o := range c.obs {
		count[o.Rule]++
	}
	if loadErr == nil {
		for r, m := range c.mins {
			if count[r] < m {
				c.bad(r, "instances", "", "only %d instances of the rule were found, at least %d were confirmed by hand", count[r], m)
			}
		}
	}
	known := readFindings(root)
	var viol []Obligation
	var printed []string
	okn := 0
	for _, o := range c.obs {
		if o.OK {
			okn++
			continue
		}
		listed := false
		for _, k := range known {
			if k.prop == pr.id && k.rule == o.Rule && k.construct == o.Construct {
				listed = true
				printed = append(printed, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s at %s]", pr.id, k.text, o.Rule, o.Construct))
			}
		}
		if !listed {
			viol = append(viol, o)
		}
	}
	sort.Strings(printed)
	for i, l := range printed {
		if i == 0 || printed[i-1] != l {
			fmt.Println(l)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var samples []Obligation
	seenRule := map[string]int{}
	for _, o := range c.obs {
		if seenRule[o.Rule] < 3 {
			seenRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	fl := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	npk, nfn := 0, 0
	if p != nil {
		npk, nfn = len(p.Pkgs), len(p.Funcs)
	}
	notDecided := []string{}
	for _, o := range c.obs {
		if o.OK && (strings.HasPrefix(o.Detail, "not decided") || strings.HasPrefix(o.Detail, "partly")) {
			notDecided = append(notDecided, o.Rule+": "+o.Construct+": "+o.Detail)
		}
	}
	ev := map[string]any{
		"property": pr.id, "tier": tier, "seed": seed, "level": pr.level,
		"wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"explanation":         pr.expl,
			"rules":               c.rules,
			"obligations":         len(c.obs),
			"discharged":          okn,
			"obligations_by_rule": count,
			"packages_loaded":     npk,
			"functions_loaded":    nfn,
			"functions_analysed":  len(fl),
			"analysis_steps":      c.steps,
			"not_decided":         notDecided,
			"functions":           fl,
			"samples":             samples,
		},
		"violations": len(viol), "violated": viol,
	}
	if os.Getenv("REF_TODO") != "" {
		for _, k := range c.unusedRefs(pr.id) {
			fmt.Println("   unused reference", k)
		}
		for _, o := range notDecided {
			fmt.Println("  ", o)
		}
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, pr.id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
	}
	if len(viol) > 0 {
		rp := filepath.Join(dir, pr.id+".violation.txt")
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "rule      %s: %s\nconstruct %s\nwhere     %s\n%s\n\n", o.Rule, c.rules[o.Rule], o.Construct, o.Where, o.Detail)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, o := range viol {
			if i > 20 {
				fmt.Printf("... and %d more\n", len(viol)-i)
				break
			}
			d := o.Detail
			if len(d) > 1500 {
				d = d[:1500] + "…"
			}
			fmt.Printf("%s: %s (%s)\n    %s\n", o.Rule, o.Construct, o.Where, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, rp)
		return 1
	}
	fmt.Printf("property %s holds: %d obligations of %d rules, %d functions analysed (%.1fs)\n", pr.id, len(c.obs), len(c.rules), len(fl), time.Since(t0).Seconds())
	return 0
}
