package main

import (
	"fmt"
	"os"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func symParam(name string, t types.Type) *V { return coerce(vSym(name, t)) }

func symArgs(f *ssa.Function) []*V {
	var args []*V
	for _, pa := range f.Params {
		args = append(args, symParam(pa.Name(), pa.Type()))
	}
	return args
}

func dumpFuncs(p *Prog, names []string, ssaOnly bool, opaque, event []string) {
	for _, a := range names {
		f := p.fn(a)
		if f == nil {
			fmt.Println("no", a)
			for k := range p.byKey {
				if strings.Contains(k, a) {
					fmt.Println("   ", k)
				}
			}
			continue
		}
		if ssaOnly {
			f.WriteTo(os.Stdout)
			for _, an := range f.AnonFuncs {
				an.WriteTo(os.Stdout)
			}
			continue
		}
		in := newInterp(p)
		match := func(l []string) func(fn *ssa.Function) bool {
			return func(fn *ssa.Function) bool {
				k := p.key(fn)
				for _, o := range l {
					if o != "" && (k == o || strings.HasSuffix(o, "*") && strings.HasPrefix(k, strings.TrimSuffix(o, "*"))) {
						return true
					}
				}
				return false
			}
		}
		in.opaque = match(opaque)
		in.event = match(event)
		fmt.Println("==", a)
		for _, r := range in.call(f, symArgs(f), nil, newState(), "", nil) {
			fmt.Println("  =>", in.frz(r.st, r.v).key())
			for _, fc := range r.st.facts {
				fmt.Println("       if", fc.cond().key())
			}
			for _, e := range r.st.events {
				fmt.Println("       ev", e.key())
			}
			for l, v := range r.st.heap {
				if l.init != nil || strings.HasPrefix(l.id, "arr ") {
					fmt.Println("       heap", l.id, ":=", in.frz(r.st, v).key())
				}
			}
		}
		for _, n := range sortedNotes(in) {
			fmt.Println("  note:", n)
		}
		fmt.Println("  steps", in.steps, "joined", in.joined)
	}
}
