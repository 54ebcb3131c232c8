package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function literal has no name of its own: go/ssa numbers it within the function around it, and the
// number changes when another literal is added or removed before it.  A contract may therefore say
// what tells its function apart:
//
//	anchor calls KEY          its body (not the literals in it) calls KEY
//	anchor passed KEY         it is handed to KEY as an argument, directly or as a method value
//
// When the function of the contract's key does not fit and exactly one other in the package does, the
// contract is taken to be about that one; parameters it has in addition (a receiver, variables that
// were captured before) go by their own names.
func (pg *Program) resolveAnchors() {
	pg.renamed = map[*ssa.Function]string{}
	var anchored []*Contract
	for _, c := range pg.order {
		if c.Kind == "func" && len(c.Anchors) > 0 {
			anchored = append(anchored, c)
		}
	}
	sort.SliceStable(anchored, func(i, j int) bool { return len(anchored[i].Key) < len(anchored[j].Key) })
	for _, c := range anchored {
		pg.resolveAnchor(c)
	}
}

func (pg *Program) resolveAnchor(c *Contract) {
	var fit []*ssa.Function
	keys := make([]string, 0, len(pg.funcs))
	for k := range pg.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	pkg := c.Key[:strings.IndexByte(c.Key, '.')+1]
	for _, k := range keys {
		fn := pg.funcs[k]
		if !strings.HasPrefix(k, pkg) || fn.Synthetic != "" || len(fn.Params) < len(c.Params) {
			continue
		}
		ok := true
		for _, a := range c.Anchors {
			switch a[0] {
			case "calls":
				ok = ok && pg.calls(fn, a[1])
			case "passed":
				ok = ok && pg.passedTo(fn, a[1])
			default:
				panic(specErr("anchor %s", a[0]))
			}
		}
		if ok {
			fit = append(fit, fn)
		}
	}
	have := pg.funcs[c.Key]
	for _, f := range fit {
		if f == have {
			fit = []*ssa.Function{f}
			break
		}
	}
	// those that have a contract of their own are out, and a literal of the same function comes first
	prune := func(keep func(f *ssa.Function) bool) {
		var some []*ssa.Function
		for _, f := range fit {
			if keep(f) {
				some = append(some, f)
			}
		}
		if len(fit) > 1 && len(some) > 0 {
			fit = some
		}
	}
	prune(func(f *ssa.Function) bool {
		o := pg.contracts[pg.keyOf(f)]
		return o == nil || o == c || len(o.Anchors) > 0
	})
	if i := strings.LastIndexByte(c.Key, '$'); i > 0 {
		prune(func(f *ssa.Function) bool { return strings.HasPrefix(pg.keyOf(f), c.Key[:i+1]) })
	}
	if len(fit) != 1 {
		return
	}
	fn, names := pg.follow(fit[0], c.Params)
	if fn == have {
		c.Anchored = true
		return
	}
	old := pg.keyOf(fn)
	if o := pg.contracts[old]; o != nil && len(o.Anchors) == 0 {
		return
	}
	if _, taken := pg.renamed[fn]; taken {
		c.Optional = have == nil // one function now serves for two that had the same contract
		return
	}
	c.Params = names
	// a variable of the function around it is now handed over by its address
	for i, n := range names {
		pt, ok := fn.Params[i].Type().Underlying().(*types.Pointer)
		if !ok || fn.Signature.Recv() != nil && i == 0 {
			continue
		}
		for _, l := range c.Locals {
			if l.name == n && pg.typeName(pt.Elem()) == l.typ {
				c.Requires = append(c.Requires, parseClause(n+"-given: "+n+" != nil", "requires", c.File, c.Line))
			}
		}
	}
	if have != nil {
		pg.renamed[have] = c.Key + "~"
	}
	pg.renamed[fn] = c.Key
	funcs := map[string]*ssa.Function{}
	for _, f := range pg.funcs {
		funcs[pg.keyOf(f)] = f
	}
	pg.funcs = funcs
}

func (pg *Program) calleeKey(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil {
			return pg.pkgName(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + cc.Method.Name()
		}
		return pg.objKey(cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return pg.keyOf(f)
	}
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if a, ok := u.X.(*ssa.FieldAddr); ok {
			if n := namedOf(a.X.Type()); n != nil && n.Obj().Pkg() != nil {
				return pg.pkgName(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(a.Field).Name()
			}
		}
	}
	return ""
}

func (pg *Program) calls(fn *ssa.Function, key string) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(ssa.CallInstruction); ok && pg.calleeKey(x.Common()) == key {
				return true
			}
		}
	}
	return false
}

func (pg *Program) passedTo(fn *ssa.Function, key string) bool {
	for _, g := range pg.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(ssa.CallInstruction)
				if !ok || pg.calleeKey(x.Common()) != key {
					continue
				}
				for _, a := range x.Common().Args {
					if funcOf(a) == fn {
						return true
					}
				}
			}
		}
	}
	return false
}

// funcOf: the function a function value is known to be.
func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			var r *ssa.Function
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					g := funcOf(ret.Results[0])
					if g == nil || r != nil && r != g {
						return nil
					}
					r = g
				}
			}
			return r
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						return c.Common().StaticCallee()
					}
				}
			}
		}
		return f
	}
	return nil
}

// follow: the function that does the work of fn, which may only pass its arguments on to it, and the
// names its parameters have in the contract.
func (pg *Program) follow(fn *ssa.Function, params []string) (*ssa.Function, []string) {
	names := make([]string, len(fn.Params))
	extra := len(fn.Params) - len(params)
	for i, p := range fn.Params {
		names[i] = p.Name()
		if i >= extra {
			names[i] = params[i-extra]
		}
	}
	for hops := 0; hops < 4; hops++ {
		var call *ssa.CallCommon
		if len(fn.Blocks) != 1 {
			break
		}
		ok := true
		for _, ins := range fn.Blocks[0].Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				ok = ok && call == nil
				call = &x.Call
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.Extract, *ssa.ChangeInterface, *ssa.MakeInterface:
			default:
				ok = false
			}
		}
		if !ok || call == nil || call.StaticCallee() == nil {
			break
		}
		to := call.StaticCallee()
		k := pg.keyOf(to)
		if pg.funcs[k] != to || pg.contracts[k] != nil || len(to.Params) != len(call.Args) {
			break
		}
		next := make([]string, len(to.Params))
		for i, p := range to.Params {
			next[i] = p.Name()
			for j, q := range fn.Params {
				if call.Args[i] == ssa.Value(q) {
					next[i] = names[j]
				}
			}
		}
		fn, names = to, next
	}
	return fn, names
}
