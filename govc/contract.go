package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modLoc is one location (or family of locations) a contract may modify.
type modLoc struct {
	key  string
	srt  string
	meta Meta
	base *Term // nil: every object
	idx  *Term // nil: every element
}

func (e *SpecEnv) modLocs(n *Node) []modLoc {
	ex := e.ex
	var out []modLoc
	addAddr := func(a *Addr, t types.Type) {
		for _, l := range leavesOf(t) {
			out = append(out, modLoc{ex.leafLoc(a, l.path), ex.heapSortFor(a, l), l.meta, a.base, a.idx})
		}
	}
	switch n.op {
	case "allfields":
		x := e.eval(n.kids[0])
		addAddr(addrOf(x), derefType(x.t))
		return out
	case "allof":
		i := strings.LastIndexByte(n.s, '.')
		tn, f := n.s[:i], n.s[i+1:]
		t := e.typeOf(tn)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(specErr("all(%s)", n.s))
		}
		for k := 0; k < st.NumFields(); k++ {
			if f == "*" || st.Field(k).Name() == f {
				a := &Addr{prefix: typeKey(t) + "." + st.Field(k).Name()}
				for _, l := range leavesOf(st.Field(k).Type()) {
					out = append(out, modLoc{a.prefix + l.path, arrSort(SInt, l.sort), l.meta, nil, nil})
				}
			}
		}
		if len(out) == 0 {
			panic(specErr("all(%s)", n.s))
		}
		return out
	case "sel":
		x := e.eval(n.kids[0])
		a, t := e.fieldAddr(x, n.s)
		addAddr(a, t)
		return out
	case "un":
		if n.s == "*" {
			x := e.eval(n.kids[0])
			addAddr(addrOf(x), derefType(x.t))
			return out
		}
	case "call":
		switch n.s {
		case "elems":
			x := e.eval(n.kids[0])
			u, ok := x.t.Underlying().(*types.Slice)
			if !ok {
				panic(specErr("elems of %s", x.t))
			}
			for _, l := range leavesOf(u.Elem()) {
				out = append(out, modLoc{elemPrefix(u.Elem()) + l.path, arrSort(SInt, arrSort(idxSort(), l.sort)), l.meta, x.l[0], nil})
			}
			return out
		case "allelems": // allelems(T)
			t := e.typeOf(n.kids[0].s)
			for _, l := range leavesOf(t) {
				out = append(out, modLoc{elemPrefix(t) + l.path, arrSort(SInt, arrSort(idxSort(), l.sort)), l.meta, nil, nil})
			}
			return out
		case "map", "allmaps": // the map; allmaps: every map of its type
			x := e.eval(n.kids[0])
			mt, ok := x.t.Underlying().(*types.Map)
			if !ok {
				panic(specErr("map of %s", x.t))
			}
			base := x.one()
			if n.s == "allmaps" {
				base = nil
			}
			ks := ex.mapKeySort(mt)
			out = append(out, modLoc{ex.mapKey(mt) + "#dom", arrSort(SInt, arrSort(ks, SBool)), Meta{}, base, nil})
			for _, l := range leavesOf(mt.Elem()) {
				out = append(out, modLoc{ex.mapKey(mt) + "#val" + l.path, arrSort(SInt, arrSort(ks, l.sort)), l.meta, base, nil})
			}
			return out
		}
	case "ident", "index":
		name := n.s
		if n.op == "index" {
			name = n.kids[0].s
		}
		if g := ex.pg.ghosts[name]; g != nil {
			var base *Term
			ks := SInt
			if g.key == "" {
				base = I(0)
			} else {
				ks = e.ghostKeySort(g)
			}
			if n.op == "index" {
				kv := e.eval(n.kids[1])
				if kv.t == untypedT {
					kv = e.coerceLit(kv, e.typeOf(g.key))
				}
				base = keyTerm(kv)
			}
			for _, l := range leavesOf(e.typeOf(g.typ)) {
				out = append(out, modLoc{"ghost:" + name + l.path, arrSort(ks, l.sort), l.meta, base, nil})
			}
			return out
		}
		if v, ok := e.vars[name]; ok && n.op == "ident" && v.cell {
			addAddr(addrOf(v), derefType(v.t)) // a captured variable
			return out
		}
		if n.op == "index" {
			x := e.eval(n.kids[0])
			if u, ok := x.t.Underlying().(*types.Slice); ok {
				i := e.toIdx(e.eval(n.kids[1]))
				a := &Addr{prefix: elemPrefix(u.Elem()), base: x.l[0], idx: Add(x.l[1], i)}
				addAddr(a, u.Elem())
				return out
			}
		}
	}
	panic(specErr("cannot use %s in modifies", nodeStr(n)))
}

func (ex *Exec) havocLoc(st *State, m modLoc) {
	meta := m.meta
	meta.level = st.level
	fresh := newVar("M."+m.key, m.srt, &meta)
	if m.base == nil {
		ex.logWrite(m.key, newVar("anyref", SInt, nil), m.srt, m.meta)
		st.heap[m.key] = heapCell{fresh, m.meta}
		return
	}
	h := st.get(m.key, m.srt, m.meta)
	ex.logWrite(m.key, m.base, m.srt, m.meta)
	if m.idx == nil {
		st.heap[m.key] = heapCell{Store(h, m.base, Select(fresh, m.base)), m.meta}
		return
	}
	row := Select(h, m.base)
	st.heap[m.key] = heapCell{Store(h, m.base, Store(row, m.idx, Select(Select(fresh, m.base), m.idx))), m.meta}
}

func (ex *Exec) bindParams(names []string, args []Val, what string) map[string]Val {
	if len(names) != len(args) {
		panic(specErr("contract of %s names %d parameters, the code has %d", what, len(names), len(args)))
	}
	m := map[string]Val{}
	for i, n := range names {
		m[n] = args[i]
	}
	return m
}

func bindResults(m map[string]Val, names []string, vs []Val) {
	for i, v := range vs {
		if i < len(names) {
			m[names[i]] = v
		}
		m[fmt.Sprintf("result%d", i)] = v
	}
	if len(vs) == 1 {
		m["result"] = vs[0]
	}
}

func (ex *Exec) hooks(fr *Frame, st *State, key string, args []Val) {
	if ex.dry > 0 {
		return
	}
	for _, cl := range ex.c.OnCall {
		if cl.key != key {
			continue
		}
		ex.hookHits[cl.label]++
		if len(cl.sch) > len(args) {
			panic(specErr("oncall %s: %d parameters, the code has %d", key, len(cl.sch), len(args)))
		}
		m := map[string]Val{}
		for k, v := range ex.params {
			m[k] = v
		}
		for i, p := range cl.sch {
			m[p.name] = args[i]
		}
		ex.addLocals(m)
		e := &SpecEnv{ex: ex, vars: m, cur: st, old: ex.entry, oldMark: Add(ex.levels[0], I(1)), head: ex.headOf(fr, nil, false)}
		ex.oblige(st, "oncall", fmt.Sprintf("%s: at %s: %s", shortName(ex.top), key, cl.label), cl.tags, e.Bool(cl.expr)).clause = cl
	}
}

func (ex *Exec) applyContract(fr *Frame, st *State, c *Contract, args []Val, sig *types.Signature, key string) (*State, Val) {
	ex.contractsUsed[c.Key] = true
	vars := ex.bindParams(c.Params, args, key)
	for n, v := range ex.freeNames {
		if _, clash := vars[n]; !clash {
			vars[n] = v
		}
	}
	ex.freeNames = nil
	var anyOf []Param // the contract's logic variables the function in question does not share
	if ex.inSchema == nil {
		ex.inSchema = map[string]bool{}
	}
	for _, p := range c.Logic {
		if v, ok := ex.logic[p.name]; ok {
			vars[p.name] = v
		} else {
			e := &SpecEnv{ex: ex, vars: vars, cur: st}
			vars[p.name] = ex.freshVal("logic."+p.name, e.typeOf(p.typ), 0)
			anyOf = append(anyOf, p)
		}
	}
	pre := &SpecEnv{ex: ex, vars: vars, cur: st, old: st}
	// across modes only what means the same in both is passed on
	cross := c.Kind == "func" && (c.Mode == "bv") != bvMode && !c.Neutral
	for _, r := range c.Requires {
		if cross && !ex.pg.neutral(r.expr) {
			panic(specErr("%s and its caller treat machine words differently, so its precondition %s has no meaning here", key, r.label))
		}
		t := pre.Bool(r.expr)
		if o := ex.oblige(st, "requires", fmt.Sprintf("%s: requires of %s: %s", ex.fname(fr), key, r.label), r.tags, t); o != nil {
			o.clause = r
		}
		ex.assume(st, t)
	}
	before := len(ex.facts)
	old := st.clone()
	mark := Add(ex.levels[st.level], I(ex.allocN+1))
	st = st.clone()
	var locs []modLoc
	for _, m := range c.Modifies {
		locs = append(locs, pre.modLocs(m)...)
	}
	if c.Aborts && !ex.c.Aborts && !ex.c.MayPanic {
		ex.assumed["explicit panic statements in "+c.Key+" (taken on output errors) end the process"] = true
	}
	if c.MayPanic {
		if fr.recovers {
			ps := st.clone()
			psym := newVar("panics", SBool, nil)
			ps.cond = And(ps.cond, psym)
			st.cond = And(st.cond, Not(psym))
			if c.ModAll || !c.HasMod && c.Kind == "func" {
				ex.havocAll(ps, "panic")
			} else {
				ex.newLevel(ps)
				for _, m := range locs {
					ex.havocLoc(ps, m)
				}
			}
			pp := &SpecEnv{ex: ex, vars: vars, cur: ps, old: old, oldMark: mark}
			for _, cl := range c.Panics {
				ex.assume(ps, pp.Bool(cl.expr))
			}
			ex.raise(fr, ps)
		} else if !ex.c.MayPanic && !ex.noSafety {
			ps := st
			if len(c.Panics) > 0 { // only when the contract says so
				ps = st.clone()
				ps.cond = And(ps.cond, newVar("panics", SBool, nil))
				if c.ModAll || !c.HasMod && c.Kind == "func" {
					ex.havocAll(ps, "panic")
				} else {
					ex.newLevel(ps)
					for _, m := range locs {
						ex.havocLoc(ps, m)
					}
				}
				pp := &SpecEnv{ex: ex, vars: vars, cur: ps, old: old, oldMark: mark}
				for _, cl := range c.Panics {
					ex.assume(ps, pp.Bool(cl.expr))
				}
			}
			ex.oblige(ps, "safety", ex.fname(fr)+": "+key+" may panic", ex.c.SafetyTags, TFalse)
		}
	}
	if c.NoReturn {
		return nil, Val{}
	}
	if c.ModAll || !c.HasMod && c.Kind == "func" {
		ex.havocAll(st, "call")
	} else {
		ex.newLevel(st)
		for _, m := range locs {
			ex.havocLoc(st, m)
		}
	}
	// the clock may advance
	if !bvMode {
		ck := newVar("clk", SInt, nil)
		ex.assume(st, Le(ex.getScalar(old, "ghost:clock", SInt), ck))
		ex.setScalar(st, "ghost:clock", ck)
	}
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, ex.freshVal("r."+key, sig.Results().At(i).Type(), st.level))
	}
	post := &SpecEnv{ex: ex, vars: vars, cur: st, old: old, oldMark: mark}
	// a string result the contract defines outright is that string
	if c.Kind == "extern" && len(vs) == 1 && len(vs[0].l) == 1 && vs[0].l[0].sort == SStr && len(c.Ensures) > 0 && len(c.Results) == 1 {
		if n := c.Ensures[0].expr; n.op == "bin" && n.s == "==" && n.kids[0].op == "ident" && n.kids[0].s == c.Results[0] && !nodeUses(n.kids[1], c.Results[0]) {
			if v := post.eval(n.kids[1]); len(v.l) == 1 && v.l[0].sort == SStr {
				vs[0].l[0] = v.l[0]
			}
		}
	}
	bindResults(vars, c.Results, vs)
	if cross {
		for _, cl := range c.Sets {
			if !ex.pg.neutral(cl.expr) {
				panic(specErr("%s and its caller treat machine words differently (%s)", key, cl.src))
			}
		}
	}
	ex.applySets(c, st, old, pre, post)
	post.cur = st
	for _, cl := range c.Ensures {
		if hasTag(cl.tags, "own") || c.mentionsGiven(cl.expr) || cross && !ex.pg.neutral(cl.expr) {
			continue // checked for the function, not passed on to callers
		}
		n := cl.expr
		var qs []Param
		for _, p := range anyOf {
			if nodeUses(n, p.name) {
				qs = append(qs, p)
			}
		}
		if len(qs) > 0 {
			n = &Node{op: "quant", s: "forall", kids: []*Node{n}, vars: qs}
		}
		ex.assume(st, post.Bool(n))
	}
	if len(c.Ensures) > 0 && ex.dry == 0 {
		// an assumed contract must leave some continuation open
		o := ex.oblige(st, "cover", fmt.Sprintf("%s: contract of %s can be met", ex.fname(fr), key), nil, TTrue)
		o.cover, o.smoke, o.goal = true, true, st.cond
		o.before = &Obl{name: o.name, goal: old.cond, nfacts: before, cover: true}
	}
	return st, ex.tupleVal(resultType(sig), vs)
}

// applySets performs the ghost assignments of a contract in st.
func (ex *Exec) applySets(c *Contract, st, old *State, pre, post *SpecEnv) {
	for i, s := range c.Sets {
		post.cur = old
		post2 := *post
		post2.cur = st
		v := post2.eval(s.expr)
		lhs := c.SetsLHS[i]
		ls := pre.modLocs(lhs)
		if v.t == untypedT {
			g := lhs.s
			if lhs.op == "index" {
				g = lhs.kids[0].s
			}
			if gg := ex.pg.ghosts[g]; gg != nil {
				v = post2.coerceLit(v, post2.typeOf(gg.typ))
			}
		}
		if len(ls) != len(v.l) {
			panic(specErr("sets %s: shapes differ", s.src))
		}
		for k, l := range ls {
			h := st.get(l.key, l.srt, l.meta)
			ex.logWrite(l.key, l.base, l.srt, l.meta)
			if l.idx != nil {
				st.heap[l.key] = heapCell{Store(h, l.base, Store(Select(h, l.base), l.idx, v.l[k])), l.meta}
			} else {
				st.heap[l.key] = heapCell{Store(h, l.base, v.l[k]), l.meta}
			}
		}
		post.cur = st
	}
}

func hasTag(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// ---------- loop candidates ----------

func (ex *Exec) makeCands(fr *Frame, li *loopInfo, hphis, phis map[*ssa.Phi]Val, entry, st *State, mod map[string]*modEntry) []*activeCand {
	var out []*activeCand
	lname := fmt.Sprintf("%s/loop%d", ex.fname(fr), li.ord)
	seen := map[string]bool{}
	add := func(text string, auto bool, f func(s *State, ph map[*ssa.Phi]Val) *Term) {
		if seen[text] {
			return
		}
		seen[text] = true
		safe := func(s *State, ph map[*ssa.Phi]Val) (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case specError, unsupportedErr:
						t, ok = nil, false
						_ = x
					default:
						panic(r)
					}
				}
			}()
			return f(s, ph), true
		}
		if t, ok := safe(entry, phis); !ok || t == TFalse {
			return
		}
		if t, ok := safe(st, hphis); !ok || t == TTrue {
			return
		}
		c := &Cand{id: len(ex.cands), loop: lname, text: lname + ": " + text, alive: true, auto: auto}
		if ex.dry == 0 {
			ex.cands = append(ex.cands, c)
		}
		out = append(out, &activeCand{c: c, eval: func(s *State, ph map[*ssa.Phi]Val) *Term {
			t, ok := safe(s, ph)
			if !ok {
				return TFalse
			}
			return t
		}})
	}
	var order []*ssa.Phi
	for _, in := range li.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			order = append(order, p)
		}
	}
	cmps := func(a, b *Term, signed bool) *Term { // a <= b
		if isBV(a.sort) {
			if signed {
				return bvCmp("bvsle", a, b)
			}
			return bvCmp("bvule", a, b)
		}
		return Le(a, b)
	}
	// ---- automatic candidates
	for i, p := range order {
		p := p
		nm := fmt.Sprintf("%%%d", i)
		if p.Comment != "" {
			nm = p.Comment
		}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			_, signed, ok := isIntType(p.Type())
			if !ok {
				continue
			}
			v0 := phis[p].one()
			add(nm+" >= initial", true, func(s *State, ph map[*ssa.Phi]Val) *Term { return cmps(v0, ph[p].one(), signed) })
			add(nm+" <= initial", true, func(s *State, ph map[*ssa.Phi]Val) *Term { return cmps(ph[p].one(), v0, signed) })
			for _, k := range []int64{-1, 0} {
				k := k
				if !signed {
					continue
				}
				add(fmt.Sprintf("%s >= %d", nm, k), true, func(s *State, ph map[*ssa.Phi]Val) *Term {
					x := ph[p].one()
					if isBV(x.sort) {
						return bvCmp("bvsle", BVc(big64(k), x.sort), x)
					}
					return Le(I(k), x)
				})
			}
			// bounds from comparisons
			n := 0
			for b := range li.blocks {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok {
						continue
					}
					switch bo.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					default:
						continue
					}
					for side := 0; side < 2; side++ {
						x, y := bo.X, bo.Y
						if side == 1 {
							x, y = y, x
						}
						step := isStepOf(x, p)
						if x != ssa.Value(p) && !step {
							continue
						}
						yv, ok := ex.invariantVal(fr, li, y)
						if !ok {
							continue
						}
						n++
						bd := yv.one()
						tag := fmt.Sprintf("bound %s", y.Name())
						if bd.sort != v0.sort {
							continue
						}
						add(nm+" <= "+tag, true, func(s *State, ph map[*ssa.Phi]Val) *Term { return cmps(ph[p].one(), bd, signed) })
						if !isBV(bd.sort) {
							add(nm+" <= "+tag+"+1", true, func(s *State, ph map[*ssa.Phi]Val) *Term { return Le(ph[p].one(), Add(bd, I(1))) })
							add(nm+" <= max(initial,"+tag+"+1)", true, func(s *State, ph map[*ssa.Phi]Val) *Term {
								return Or(Le(ph[p].one(), Add(bd, I(1))), Le(ph[p].one(), v0))
							})
						}
						add(nm+" >= "+tag, true, func(s *State, ph map[*ssa.Phi]Val) *Term { return cmps(bd, ph[p].one(), signed) })
						add(nm+" < "+tag, true, func(s *State, ph map[*ssa.Phi]Val) *Term { return Not(cmps(bd, ph[p].one(), signed)) })
						add(nm+" <= max(initial,"+tag+")", true, func(s *State, ph map[*ssa.Phi]Val) *Term {
							return Or(cmps(ph[p].one(), bd, signed), cmps(ph[p].one(), v0, signed))
						})
						add(nm+" > "+tag, true, func(s *State, ph map[*ssa.Phi]Val) *Term { return Not(cmps(ph[p].one(), bd, signed)) })
					}
				}
			}
		case *types.Pointer, *types.Map, *types.Signature:
			add(nm+" != nil", true, func(s *State, ph map[*ssa.Phi]Val) *Term { return Ne(ph[p].l[0], I(0)) })
			_ = u
		case *types.Slice:
			v0 := phis[p]
			add(nm+" same array", true, func(s *State, ph map[*ssa.Phi]Val) *Term { return Eq(ph[p].l[0], v0.l[0]) })
			if !bvMode {
				add(nm+" fresh or same array", true, func(s *State, ph map[*ssa.Phi]Val) *Term {
					mark := Add(ex.levels[entry.level], I(1))
					return Or(Eq(ph[p].l[0], v0.l[0]), Le(mark, ph[p].l[0]))
				})
			}
		}
	}
	// ---- frames of fully forgotten heap keys
	keys := make([]string, 0, len(mod))
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	mark := Add(ex.levels[entry.level], I(1))
	for _, k := range keys {
		m := mod[k]
		if !m.full || strings.HasPrefix(k, "iter|") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		k := k
		add("objects existing before the loop keep "+k, true, func(s *State, ph map[*ssa.Phi]Val) *Term {
			return ex.unchangedKey(k, m.srt, m.meta, entry, s, func(r *Term) *Term { return Lt(r, mark) })
		})
		if mark0 := Add(ex.levels[0], I(1)); mark0 != mark {
			add("objects older than the call keep "+k, true, func(s *State, ph map[*ssa.Phi]Val) *Term {
				return ex.unchangedKey(k, m.srt, m.meta, entry, s, func(r *Term) *Term { return Lt(r, mark0) })
			})
		}
	}
	// ---- invariants given by the contract
	iter := ""
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if rg := n.Iter.(*ssa.Range); b == li.header {
					iter = fr.lastIter[rg]
				}
			}
		}
	}
	for _, cl := range ex.c.Inv {
		cl := cl
		made := len(out)
		type binding struct {
			name string
			get  func(ph map[*ssa.Phi]Val) Val
			txt  string
		}
		env := func(s *State, ph map[*ssa.Phi]Val, bs []binding) *SpecEnv {
			m := map[string]Val{}
			for k, v := range ex.params {
				m[k] = v
			}
			for i, p := range order {
				_ = i
				if p.Comment != "" {
					if _, clash := m[p.Comment]; !clash {
						m[p.Comment] = ph[p]
					}
				}
			}
			for _, b := range bs {
				m[b.name] = b.get(ph)
			}
			ex.addLocals(m)
			return &SpecEnv{ex: ex, vars: m, cur: s, old: ex.entry, entry: entry, head: ex.headOf(fr, li.header, true), oldMark: Add(ex.levels[0], I(1)), iter: iter}
		}
		if len(cl.sch) == 0 {
			add(cl.label, false, func(s *State, ph map[*ssa.Phi]Val) *Term { return env(s, ph, nil).Bool(cl.expr) })
			markAlt(cl, out[made:])
			continue
		}
		dom := make([][]binding, len(cl.sch))
		for i, sp := range cl.sch {
			var want types.Type
			func() {
				defer func() { recover() }()
				want = (&SpecEnv{ex: ex}).typeOf(sp.typ)
			}()
			if want == nil {
				continue
			}
			for j, p := range order {
				p := p
				if !types.Identical(types.Unalias(p.Type()), types.Unalias(want)) {
					continue
				}
				dom[i] = append(dom[i], binding{sp.name, func(ph map[*ssa.Phi]Val) Val { return ph[p] }, fmt.Sprintf("%s=%%%d", sp.name, j)})
				if _, _, ok := isIntType(p.Type()); ok {
					dom[i] = append(dom[i], binding{sp.name, func(ph map[*ssa.Phi]Val) Val {
						v := ph[p]
						one := constOf(p.Type(), constOne)
						return Val{t: v.t, l: []*Term{Add(v.one(), one.one())}}
					}, fmt.Sprintf("%s=%%%d+1", sp.name, j)})
				}
			}
			if strings.HasPrefix(sp.name, "$v") {
				dom[i] = nil
				var names []string
				byName := map[string]Val{}
				for sv, v := range fr.env {
					if in, ok := sv.(ssa.Instruction); ok && li.blocks[in.Block()] {
						continue
					}
					if v.t == nil || !types.Identical(types.Unalias(sv.Type()), types.Unalias(want)) {
						continue
					}
					if !ex.dominatesLoop(sv, li) {
						continue
					}
					names = append(names, sv.Name())
					byName[sv.Name()] = v
				}
				sort.Strings(names)
				for _, n := range names {
					v := byName[n]
					dom[i] = append(dom[i], binding{sp.name, func(map[*ssa.Phi]Val) Val { return v }, sp.name + "=" + n})
				}
			}
		}
		var rec func(i int, bs []binding)
		count := 0
		rec = func(i int, bs []binding) {
			if count > 200 {
				return
			}
			if i == len(dom) {
				count++
				cp := append([]binding(nil), bs...)
				txt := cl.label
				for _, b := range cp {
					txt += " " + b.txt
				}
				add(txt, false, func(s *State, ph map[*ssa.Phi]Val) *Term { return env(s, ph, cp).Bool(cl.expr) })
				return
			}
			for _, b := range dom[i] {
				rec(i+1, append(bs, b))
			}
		}
		rec(0, nil)
		markAlt(cl, out[made:])
	}
	return out
}

func markAlt(cl *Clause, made []*activeCand) {
	for _, t := range cl.tags {
		if t == "alt" {
			for _, c := range made {
				c.c.alt = true
			}
		}
	}
}

func (ex *Exec) dominatesLoop(v ssa.Value, li *loopInfo) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true // parameters
	}
	return in.Block() != nil && in.Block().Dominates(li.header) && in.Block() != li.header
}

// isStepOf: x = p + const
func isStepOf(x ssa.Value, p *ssa.Phi) bool {
	b, ok := x.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return false
	}
	return b.X == ssa.Value(p) || b.Y == ssa.Value(p)
}

func (ex *Exec) invariantVal(fr *Frame, li *loopInfo, v ssa.Value) (Val, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Val{}, false
		}
		if _, _, ok := isIntType(x.Type()); !ok {
			return Val{}, false
		}
		return ex.constVal(x), true
	case *ssa.Parameter:
		r, ok := fr.env[v]
		return r, ok && len(r.l) == 1
	}
	in, ok := v.(ssa.Instruction)
	if !ok || li.blocks[in.Block()] {
		return Val{}, false
	}
	r, ok := fr.env[v]
	return r, ok && len(r.l) == 1
}

// unchangedKey: heap key k holds the same in both states for every object satisfying where.
func (ex *Exec) unchangedKey(k, srt string, meta Meta, a, b *State, where func(*Term) *Term) *Term {
	x, y := a.get(k, srt, meta), b.get(k, srt, meta)
	if x == y {
		return TTrue
	}
	r := newBound("r", arrKey(srt))
	if arrKey(srt) == SInt {
		r.meta = &Meta{isRef: true}
	}
	bs := []*Term{r}
	xs, ys := Select(x, r), Select(y, r)
	if strings.HasPrefix(xs.sort, "[") {
		i := newBound("i", arrKey(xs.sort))
		bs = append(bs, i)
		xs, ys = Select(xs, i), Select(ys, i)
		if strings.HasPrefix(xs.sort, "[") {
			j := newBound("j", arrKey(xs.sort))
			bs = append(bs, j)
			xs, ys = Select(xs, j), Select(ys, j)
		}
	}
	return Forall(bs, Implies(where(r), Eq(xs, ys)))
}

// ---------- verifying one function against its contract ----------

type FuncResult struct {
	c     *Contract
	ex    *Exec
	kase  string
	obls  []*Obl
	err   string
	final *State
}

func (pg *Program) verifyCase(c *Contract, fn *ssa.Function, kase int) (res *FuncResult) {
	pg.reset()
	bvMode = c.Mode == "bv"
	ex := &Exec{pg: pg, c: c, top: fn, assumed: map[string]bool{}, inlined: map[string]bool{}, factSeen: map[int]bool{},
		logic: map[string]Val{}, oblNames: map[string]int{}, contractsUsed: map[string]bool{}, externals: map[string]bool{},
		params: map[string]Val{}, hookHits: map[string]int{}, okConds: map[int][]*Term{}, noSafety: c.NoSafety}
	res = &FuncResult{c: c, ex: ex}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specError:
				res.err = "contract does not fit the code: " + x.msg
			case unsupportedErr:
				res.err = "outside the verifier's reach: " + x.msg
			default:
				panic(r)
			}
			res.err += " (near " + ex.curPos + ")"
		}
	}()
	symCount++
	a0 := baseVar("alloc!0", SInt, &Meta{alloc: true, level: 0}, symCount)
	ex.levels = []*Term{a0}
	st := &State{heap: map[string]heapCell{}, base: &Base{name: "in", level: 0, birth: symCount}, cond: TTrue}
	fr := ex.newFrame(fn, nil)
	ex.topFrame = fr
	if len(c.Panics) > 0 {
		fr.recovers = true // panics are followed to the end of the function
	}
	var args []Val
	for _, p := range fn.Params {
		v := ex.freshVal("p."+p.Name(), p.Type(), 0)
		fr.env[p] = v
		args = append(args, v)
	}
	vars := ex.bindParams(c.Params, args, c.Key)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for _, f := range fn.FreeVars {
		v := ex.freshVal("free."+f.Name(), f.Type(), 0)
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			ex.fact(Ne(v.l[0], I(0)))
		}
		for i, g := range fr.free {
			if types.Identical(fn.FreeVars[i].Type(), f.Type()) && f.Pos() != fn.FreeVars[i].Pos() {
				ex.fact(Ne(g.l[0], v.l[0])) // different variables
			}
		}
		fr.free = append(fr.free, v)
		if _, clash := vars[f.Name()]; !clash {
			_, v.cell = f.Type().Underlying().(*types.Pointer)
			vars[f.Name()] = v
		}
	}
	env := &SpecEnv{ex: ex, vars: vars, cur: st, old: st, oldMark: Add(a0, I(1))}
	for _, p := range c.Logic {
		v := ex.freshVal("logic."+p.name, env.typeOf(p.typ), 0)
		vars[p.name] = v
		ex.logic[p.name] = v
	}
	ex.params = vars
	ex.addLocals(vars)
	if kase == 0 {
		// the cases cover everything the precondition allows
		var rs, es []*Term
		for _, r := range c.Requires {
			rs = append(rs, env.Bool(r.expr))
		}
		for _, v := range c.SplitVals {
			es = append(es, env.equal(env.eval(c.Split.expr), env.eval(parseExpr(v))))
		}
		ex.oblige(st, "split", shortName(fn)+": the case split is complete", nil, Implies(And(rs...), Or(es...)))
	}
	if kase >= 0 {
		// one case of the split
		n := c.Split.expr
		res.kase = fmt.Sprintf("[%s=%s]", strings.TrimSpace(c.Split.src), c.SplitVals[kase])
		cv := env.eval(parseExpr(c.SplitVals[kase]))
		if n.op == "ident" {
			cv = env.coerceLit(cv, vars[n.s].t)
			vars[n.s] = Val{t: vars[n.s].t, l: cv.l}
			for i, nm := range c.Params {
				if nm == n.s {
					fr.env[fn.Params[i]] = vars[n.s]
				}
			}
		} else if n.op == "sel" {
			x := env.eval(n.kids[0])
			a, t := env.fieldAddr(x, n.s)
			cv = env.coerceLit(cv, t)
			ex.store(st, a, Val{t: t, l: cv.l})
		} else {
			panic(specErr("split on %s", c.Split.src))
		}
	}
	ex.entry = st.clone()
	env.cur, env.old = st, ex.entry
	for _, r := range c.Requires {
		ex.fact(env.Bool(r.expr))
		if hasTag(r.tags, "assumed") {
			ex.assumed["precondition of the goroutine "+c.Key+" not checked where it starts: "+strings.TrimSpace(r.src)] = true
		} else if fn.Parent() != nil && !startedByGo(fn) {
			ex.assumed["precondition of the callback "+c.Key+" not checked where it is called: "+strings.TrimSpace(r.src)] = true
		}
	}
	for _, r := range c.Given {
		ex.fact(env.Bool(r.expr))
	}
	if o := ex.oblige(st, "cover", shortName(fn)+": precondition is satisfiable", nil, TTrue); o != nil {
		o.cover = true
	}
	ex.entry = st.clone()
	st = st.clone()
	fin, vals := ex.run(fr, st)
	for _, p := range fr.panics {
		for _, cl := range c.Panics {
			e := &SpecEnv{ex: ex, vars: vars, cur: p, old: ex.entry, oldMark: Add(a0, I(1))}
			ex.oblige(p, "panics", shortName(fn)+": on panic: "+cl.label, cl.tags, e.Bool(cl.expr)).clause = cl
		}
		if !c.MayPanic && !ex.noSafety {
			ex.oblige(p, "safety", shortName(fn)+": no panic leaves the function", c.SafetyTags, TFalse)
		}
	}
	for _, xs := range ex.exits {
		if len(c.Exits) == 0 {
			if !ex.noSafety {
				ex.oblige(xs, "safety", shortName(fn)+": the process does not exit", c.SafetyTags, TFalse)
			}
			continue
		}
		for _, cl := range c.Exits {
			e := &SpecEnv{ex: ex, vars: vars, cur: xs, old: ex.entry, oldMark: Add(a0, I(1))}
			ex.oblige(xs, "exits", shortName(fn)+": process exit: "+cl.label, cl.tags, e.Bool(cl.expr)).clause = cl
		}
	}
	if fin == nil || fin.cond == TFalse {
		if !c.NoReturn {
			o := ex.oblige(ex.entry, "cover", shortName(fn)+": can return", nil, TFalse)
			o.cover = true
			o.goal = TFalse
		}
		res.obls = ex.obls
		return
	}
	rv := map[string]Val{}
	for k, v := range vars {
		rv[k] = v
	}
	bindResults(rv, c.Results, vals)
	post := &SpecEnv{ex: ex, vars: rv, cur: fin, old: ex.entry, oldMark: Add(a0, I(1))}
	if len(c.Sets) > 0 {
		// ghost assignments of a function happen when it returns
		fin = fin.clone()
		post.cur = fin
		ex.applySets(c, fin, ex.entry, env, post)
		post.cur = fin
	}
	for _, cl := range c.Ensures {
		t := post.Bool(cl.expr)
		o := ex.oblige(fin, "ensures", shortName(fn)+": ensures "+cl.label, cl.tags, t)
		o.clause = cl
	}
	for _, cl := range c.Cover {
		t := post.Bool(cl.expr)
		o := ex.oblige(fin, "cover", shortName(fn)+": can reach "+cl.label, cl.tags, t)
		o.cover = true
		o.goal = And(fin.cond, t)
		o.clause = cl
	}
	o := ex.oblige(fin, "cover", shortName(fn)+": can return", nil, TTrue)
	o.cover = true
	o.goal = fin.cond
	// calls that must occur for an oncall clause to mean anything
	for _, cl := range c.OnCall {
		if ex.hookHits[cl.label] == 0 && !hasTag(cl.tags, "optional") {
			ex.oblige(fin, "oncall", shortName(fn)+": calls "+cl.key+" (for "+cl.label+")", cl.tags, TFalse).clause = cl
		}
	}
	if c.HasMod && !c.ModAll {
		ex.frameObls(fin, vars)
	}
	// instantiation terms
	for _, cl := range c.Inst {
		for _, s := range []*State{ex.entry, fin} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specError); ok {
							return
						}
						if _, ok := r.(unsupportedErr); ok {
							return
						}
						panic(r)
					}
				}()
				e := *post
				e.cur = s
				v := e.eval(cl.expr)
				if v.t == untypedT {
					v = e.coerceLit(v, intT)
				}
				for _, l := range v.l {
					ex.instTerms = append(ex.instTerms, l)
				}
			}()
		}
	}
	res.obls = ex.obls
	res.final = fin
	return
}

func (ex *Exec) frameObls(fin *State, vars map[string]Val) {
	c := ex.c
	name := shortName(ex.top)
	env := &SpecEnv{ex: ex, vars: vars, cur: ex.entry, old: ex.entry}
	var locs []modLoc
	for _, m := range c.Modifies {
		locs = append(locs, env.modLocs(m)...)
	}
	if fin.base != ex.entry.base {
		ex.oblige(fin, "frame", name+": modifies: a callee may change anything", nil, TFalse)
		return
	}
	keys := make([]string, 0, len(fin.heap))
	for k := range fin.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "iter|") || strings.HasPrefix(k, "box:") || strings.HasPrefix(k, "released:") || k == "ghost:#recovered" || k == "ghost:clock" {
			continue
		}
		cell := fin.heap[k]
		nw := cell.t
		od := ex.entry.get(k, nw.sort, cell.meta)
		if nw == od {
			continue
		}
		ks := arrKey(nw.sort)
		var r *Term
		var in []*Term
		if strings.HasPrefix(k, "ghost:") && ks == SInt && ex.ghostScalar(k) {
			r = I(0)
		} else {
			m := &Meta{level: 0}
			if ks == SInt {
				m.isRef = true
			}
			r = newVar("frame.r", ks, m)
		}
		var exempt []*Term
		x, y := Select(nw, r), Select(od, r)
		var k1 *Term
		if strings.HasPrefix(x.sort, "[") {
			k1 = newVar("frame.i", arrKey(x.sort), &Meta{level: 0})
			in = append(in, k1)
			if arrKey(x.sort) == SInt {
				k1.meta = nil
			}
			x, y = Select(x, k1), Select(y, k1)
			if strings.HasPrefix(x.sort, "[") {
				k2 := newVar("frame.j", arrKey(x.sort), &Meta{level: 0})
				in = append(in, k2)
			x, y = Select(x, k2), Select(y, k2)
			}
		}
		if ks == SInt && !strings.HasPrefix(k, "ghost:") {
			exempt = append(exempt, Eq(r, I(0))) // nothing lives at nil
		}
		full := false
		for _, l := range locs {
			if l.key != k {
				continue
			}
			if l.base == nil {
				full = true
				break
			}
			e := Eq(l.base, r)
			if l.idx != nil && k1 != nil {
				e = And(e, Eq(l.idx, k1))
			}
			exempt = append(exempt, e)
		}
		if full {
			continue
		}
		if o := ex.oblige(fin, "frame", name+": modifies nothing else: "+shortKey(k), nil, Implies(Not(Or(exempt...)), Eq(x, y))); o != nil {
			o.inst = append(in, r)
		}
	}
}

func (ex *Exec) ghostScalar(key string) bool {
	n := strings.TrimPrefix(key, "ghost:")
	for gn, g := range ex.pg.ghosts {
		if g.key == "" && (n == gn || strings.HasPrefix(n, gn+".") || strings.HasPrefix(n, gn+"#")) {
			return true
		}
	}
	return false
}

// mentionsGiven: the clause speaks about a logic variable defined by a given clause; its value means
// nothing to a caller.
func (c *Contract) mentionsGiven(n *Node) bool {
	if len(c.Given) == 0 {
		return false
	}
	vs := map[string]bool{}
	for _, g := range c.Given {
		m := g.expr
		for m.op == "quant" {
			m = m.kids[0]
		}
		vs[m.kids[1].s] = true
	}
	var walk func(n *Node) bool
	walk = func(n *Node) bool {
		if n.op == "ident" && vs[n.s] {
			return true
		}
		for _, k := range n.kids {
			if k != nil && walk(k) {
				return true
			}
		}
		return false
	}
	return walk(n)
}

func nodeUses(n *Node, name string) bool {
	if n.op == "ident" && n.s == name {
		return true
	}
	for _, k := range n.kids {
		if nodeUses(k, name) {
			return true
		}
	}
	return false
}

// startedByGo: the closure is only ever the body of a goroutine.
func startedByGo(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if g, ok := ins.(*ssa.Go); ok {
				if m, ok := g.Call.Value.(*ssa.MakeClosure); ok && m.Fn == fn {
					return true
				}
			}
		}
	}
	return false
}
