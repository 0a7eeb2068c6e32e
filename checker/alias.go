package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules name some functions of the code they analyse.  A function that was only renamed since the list in
// funcs.txt was written is still found: it is the only new function of its package and receiver with the
// signature of the only such function that disappeared.

//go:embed funcs.txt
var baselineFuncs string

func sigKey(f *ssa.Function) string {
	var b strings.Builder
	tu := func(t *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), nil) + ",")
		}
		b.WriteString(")")
	}
	tu(f.Signature.Params())
	tu(f.Signature.Results())
	return strings.ReplaceAll(b.String(), " ", "")
}

// group is what renaming does not change: the package or receiver type.
func group(key string) string {
	if i := strings.LastIndex(key, "."); i >= 0 {
		return key[:i]
	}
	return key
}

func declared(f *ssa.Function) bool {
	return !strings.HasPrefix(f.Name(), "ref") && f.Parent() == nil && f.Synthetic == "" && len(f.TypeArgs()) == 0 && f.Object() != nil
}

func (p *Prog) writeBaseline() string {
	var ls []string
	for k, f := range p.byKey {
		if declared(f) {
			ls = append(ls, k+"\t"+sigKey(f))
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n") + "\n"
}

func (p *Prog) findRenamed() {
	old := map[string]string{}
	for _, l := range strings.Split(baselineFuncs, "\n") {
		if f := strings.SplitN(l, "\t", 2); len(f) == 2 {
			old[f[0]] = f[1]
		}
	}
	gone, fresh := map[string][]string{}, map[string][]string{}
	for k, s := range old {
		if p.byKey[k] == nil {
			gone[group(k)+s] = append(gone[group(k)+s], k)
		}
	}
	for k, f := range p.byKey {
		if _, known := old[k]; !known && declared(f) {
			id := group(k) + sigKey(f)
			fresh[id] = append(fresh[id], k)
		}
	}
	for id, ks := range gone {
		if len(ks) == 1 && len(fresh[id]) == 1 {
			p.renamed[fresh[id][0]] = ks[0]
		}
	}
	if len(p.renamed) == 0 {
		return
	}
	re := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		if k := p.key(f); k != "" {
			if _, dup := re[k]; !dup || len(f.TypeArgs()) == 0 {
				re[k] = f
			}
		}
	}
	p.byKey = re
}

// renamedKey replaces the name of a renamed function by the one it had.
func (p *Prog) renamedKey(k string) string {
	if len(p.renamed) == 0 {
		return k
	}
	base, rest := k, ""
	if i := strings.IndexAny(k, "$["); i >= 0 && !strings.HasPrefix(k, "(") {
		base, rest = k[:i], k[i:]
	} else if i := strings.Index(k, "$"); i >= 0 {
		base, rest = k[:i], k[i:]
	}
	if o, ok := p.renamed[base]; ok {
		return o + rest
	}
	return k
}

func dumpBaseline(p *Prog) { fmt.Print(p.writeBaseline()) }
