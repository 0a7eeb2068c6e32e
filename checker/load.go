package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/GoelandProver/Goeland"

// Prog is the resolved program every rule works on.
type Prog struct {
	Repo    string // repository root
	Fset    *token.FileSet
	Pkgs    []*packages.Package          // packages of the Goeland module
	ByPth   map[string]*packages.Package // import path (relative to the module) -> package
	SSA     *ssa.Program
	Funcs   []*ssa.Function // every function of the module (incl. anonymous and instantiated ones)
	byKey   map[string]*ssa.Function
	renamed map[string]string // current key of a renamed function -> the key the rules know it under
}

func repoRoot() string {
	if r := os.Getenv("GOELAND_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// generateParser runs goyacc on the grammar of the working tree, outside of the tree.
func generateParser(repo string) ([]byte, error) {
	dir, err := os.MkdirTemp("", "goelandcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "tptp_parse.go")
	goyacc := "goyacc"
	if _, err := os.Stat("/opt/vp/bin/goyacc"); err == nil {
		goyacc = "/opt/vp/bin/goyacc"
	}
	cmd := exec.Command(goyacc, "-l", "-p", "TPTP", "-o", out, "-v", filepath.Join(dir, "y.output"),
		filepath.Join(repo, "src/Parser/tptp_parse.y"))
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("goyacc: %v: %s", err, eb.String())
	}
	return os.ReadFile(out)
}

func load(prop string) (*Prog, error) {
	p, err := loadWith(prop)
	if err != nil && prop != "" && strings.Contains(err.Error(), "zz_ref_") {
		// the references of the property do not fit the current declarations: do without
		fmt.Fprintln(os.Stderr, err)
		return loadWith("")
	}
	return p, err
}

func loadWith(prop string) (*Prog, error) {
	repo := repoRoot()
	src := filepath.Join(repo, "src")
	parser, err := generateParser(repo)
	if err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     src,
		Env:     env,
		Overlay: map[string][]byte{filepath.Join(src, "Parser/tptp_parse.go"): parser},
		Tests:   false,
	}
	if prop != "" {
		for f, b := range refOverlay(src, prop) {
			cfg.Overlay[f] = b
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, ByPth: map[string]*packages.Package{}, byKey: map[string]*ssa.Function{}, renamed: map[string]string{}}
	var keep []*packages.Package
	for _, pk := range pkgs {
		if len(pk.GoFiles) == 0 && len(pk.Errors) == 0 {
			continue
		}
		if strings.Contains(pk.PkgPath, "/Tests/") {
			continue
		}
		// A directory with test files only loads as an empty package.
		if len(pk.CompiledGoFiles) == 0 {
			continue
		}
		for _, e := range pk.Errors {
			if strings.Contains(e.Error(), "zz_ref_") {
				return nil, e
			}
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		keep = append(keep, pk)
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no package loaded from %s", src)
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	p.Pkgs = keep
	p.Fset = keep[0].Fset
	for _, pk := range keep {
		p.ByPth[strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")] = pk
	}
	prog, _ := ssautil.AllPackages(keep, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	all := ssautil.AllFunctions(prog)
	for _, pk := range keep {
		for _, o := range pk.TypesInfo.Defs {
			// Methods of generic types that nothing instantiates.
			if f, ok := o.(*types.Func); ok {
				if g := prog.FuncValue(f); g != nil {
					all[g] = true
				}
			}
		}
	}
	for f := range all {
		if p.inModule(f) {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range p.Funcs {
		if k := p.key(f); k != "" {
			if _, dup := p.byKey[k]; !dup || len(f.TypeArgs()) == 0 {
				p.byKey[k] = f
			}
		}
	}
	// variables that hold a function from the start
	for _, f := range p.Funcs {
		if f.Synthetic == "" || f.Name() != "init" || f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				if fv, ok := v.(*ssa.Function); ok && fv.Parent() != nil {
					if k := p.key(f); k != "" {
						k = strings.TrimSuffix(k, "init") + g.Name()
						if p.byKey[k] == nil {
							p.byKey[k] = fv
						}
					}
				}
			}
		}
	}
	p.findRenamed()
	return p, nil
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

// relPkg is the module-relative import path ("" is main).
func relPkg(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

// key names a function stably: "AST.MakerNot", "AST.(Not).Copy", "Search.(*destructiveSearch).Search", "X$1".
func (p *Prog) key(f *ssa.Function) string {
	return p.renamedKey(strings.ReplaceAll(strings.ReplaceAll(f.RelString(nil), modPath+"/", ""), modPath, "main"))
}

func (p *Prog) fn(key string) *ssa.Function { return p.byKey[key] }

// pos renders a position relative to the repository.
func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Repo, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// namedType finds a named type declared in a package of the module.
func (p *Prog) namedType(pkg, name string) *types.Named {
	pk := p.ByPth[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// implementers lists the named non-interface types of the module implementing iface.
func (p *Prog) implementers(iface *types.Interface) []*types.Named {
	var res []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(nt, iface) || types.Implements(types.NewPointer(nt), iface) {
				res = append(res, nt)
			}
		}
	}
	return res
}

// eachFile visits the syntax of every file of the module.
func (p *Prog) eachFile(f func(pk *packages.Package, file *ast.File)) {
	for _, pk := range p.Pkgs {
		for _, fl := range pk.Syntax {
			f(pk, fl)
		}
	}
}
