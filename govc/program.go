package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/bigbluebutton/bbb-webrtc-recorder"

// Program is the loaded source of /repo (and a few dependencies) in SSA form.
type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*types.Package // by display name
	names     map[string]string         // package path -> display name
	funcs     map[string]*ssa.Function
	srcPkgs   map[*ssa.Package]bool
	contracts map[string]*Contract
	order     []*Contract
	pures     map[string]*Pure
	ghosts    map[string]*Ghost
	guards    map[string]string // pkg.Type.field -> lock field
	guardInvs map[string]*GuardInv
	ufs       map[string]*UF
	axioms    []*Clause
	constGlob map[string]bool

	knownFunc map[int]*FuncVal
	knownAddr map[int]*Addr
	bytesOf   map[int]*Term
	tagType   map[int64]types.Type
	tags      map[string]int64
	globals   map[*ssa.Global]int64
	fnRefs    map[*ssa.Function]int64
	renamed   map[*ssa.Function]string // functions that are no longer called what their contract calls them
	loadErrs  []string
	axVars    map[string]*Term
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir}
	ps, err := packages.Load(cfg, "./internal/...", "github.com/pion/rtp/codecs", "github.com/AlekSi/pointer", "encoding/binary")
	if err != nil {
		return nil, err
	}
	pg := &Program{
		pkgs: map[string]*types.Package{}, names: map[string]string{}, funcs: map[string]*ssa.Function{},
		srcPkgs: map[*ssa.Package]bool{}, contracts: map[string]*Contract{}, pures: map[string]*Pure{},
		ghosts: map[string]*Ghost{}, ufs: map[string]*UF{}, constGlob: map[string]bool{},
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			pg.loadErrs = append(pg.loadErrs, e.Error())
		}
	}
	if len(pg.loadErrs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(pg.loadErrs, "; "))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pg.prog = prog
	for _, p := range pkgs {
		if p != nil {
			pg.srcPkgs[p] = true
		}
	}
	// display names
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		if strings.HasPrefix(p.Pkg.Path(), repoPath) {
			pg.names[p.Pkg.Path()] = p.Pkg.Name()
			pg.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	var addImports func(p *types.Package)
	seen := map[string]bool{}
	addImports = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		if _, ok := pg.names[p.Path()]; !ok {
			n := p.Name()
			if q, clash := pg.pkgs[n]; clash {
				if strings.HasPrefix(q.Path(), repoPath) {
					n = "x" + n
				}
				if _, again := pg.pkgs[n]; again {
					n = p.Path()
				}
			}
			pg.names[p.Path()] = n
			pg.pkgs[n] = p
		}
	}
	// breadth first over imports so that direct imports of the repository get the short names
	queue := []*types.Package{}
	for _, p := range all {
		if pg.srcPkgs[p] {
			queue = append(queue, p.Pkg)
		}
	}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		if seen[p.Path()] {
			continue
		}
		addImports(p)
		queue = append(queue, p.Imports()...)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !pg.srcPkgs[fn.Pkg] || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		pg.funcs[pg.keyOf(fn)] = fn
	}
	return pg, nil
}

func (pg *Program) reset() {
	resetTerms()
	pg.knownFunc = map[int]*FuncVal{}
	pg.knownAddr = map[int]*Addr{}
	pg.bytesOf = map[int]*Term{}
	pg.tagType = map[int64]types.Type{}
	pg.tags = map[string]int64{}
	pg.globals = map[*ssa.Global]int64{}
	pg.fnRefs = map[*ssa.Function]int64{}
	pg.axVars = nil
}

func (pg *Program) pkgName(p *types.Package) string {
	if n, ok := pg.names[p.Path()]; ok {
		return n
	}
	return p.Name()
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// keyOf gives the display key of a function: pkg.Func, pkg.Type.Method, outer$1.
func (pg *Program) keyOf(fn *ssa.Function) string {
	if k, ok := pg.renamed[fn]; ok {
		return k
	}
	if fn.Parent() != nil {
		base := pg.keyOf(fn.Parent())
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			return base + n[i:]
		}
		return base + "$" + n
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok && obj != nil && obj.Name() != "init" {
		return pg.objKey(obj)
	}
	if fn.Pkg != nil {
		return pg.pkgName(fn.Pkg.Pkg) + "." + fn.Name()
	}
	return fn.String()
}

func (pg *Program) objKey(obj *types.Func) string {
	obj = obj.Origin()
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			p := ""
			if n.Obj().Pkg() != nil {
				p = pg.pkgName(n.Obj().Pkg()) + "."
			}
			return p + n.Obj().Name() + "." + obj.Name()
		}
		if obj.Pkg() != nil {
			return pg.pkgName(obj.Pkg()) + ".?." + obj.Name()
		}
	}
	if obj.Pkg() == nil {
		return obj.Name()
	}
	return pg.pkgName(obj.Pkg()) + "." + obj.Name()
}

func (pg *Program) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return pg.pkgName(p) })
}

func (pg *Program) funcRef(fn *ssa.Function) *Term {
	n, ok := pg.fnRefs[fn]
	if !ok {
		n = int64(20000 + len(pg.fnRefs))
		pg.fnRefs[fn] = n
	}
	t := I(n)
	pg.knownFunc[t.id] = &FuncVal{fn: fn}
	return t
}

func (pg *Program) globalRef(g *ssa.Global) *Term {
	n, ok := pg.globals[g]
	if !ok {
		n = int64(1000 + len(pg.globals))
		pg.globals[g] = n
	}
	return I(n)
}

func (pg *Program) typeTag(t types.Type) *Term {
	k := typeKey(types.Unalias(t))
	n, ok := pg.tags[k]
	if !ok {
		n = int64(1 + len(pg.tags))
		pg.tags[k] = n
		pg.tagType[n] = t
	}
	return I(n)
}
