package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// addLocals binds the names the contract gives to variables of the function, found by their type.
func (ex *Exec) addLocals(m map[string]Val) {
	for _, p := range ex.c.Locals {
		if v, ok := ex.localVar(p); ok {
			m[p.name] = v
		}
	}
}

func (ex *Exec) localVar(p Param) (Val, bool) {
	t := (&SpecEnv{ex: ex}).typeOf(p.typ)
	fr := ex.topFrame
	same := func(x types.Type) bool { return types.Identical(types.Unalias(x), types.Unalias(t)) }
	var found []Val
	put := func(v Val) {
		for _, f := range found {
			if eqVal(f, v) == TTrue {
				return
			}
		}
		found = append(found, v)
	}
	for i, f := range fr.fn.FreeVars {
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok && same(pt.Elem()) {
			v := fr.free[i]
			v.t, v.cell = f.Type(), true
			if f.Name() == p.name && ex.c.LocalNth[p.name] > 0 {
				return v, true
			}
			put(v)
		}
	}
	if n := ex.c.LocalNth[p.name]; n > 0 && n <= len(found) {
		return found[n-1], true
	}
	if len(found) == 0 {
		var as []*ssa.Alloc
		for sv := range fr.env {
			if a, ok := sv.(*ssa.Alloc); ok && a.Comment != "new" && a.Comment != "complit" && same(derefType(a.Type())) {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
		for _, a := range as {
			v := fr.env[a]
			v.t, v.cell = a.Type(), true
			if a.Comment == p.name && ex.c.LocalNth[p.name] > 0 {
				return v, true
			}
			put(v)
		}
		if n := ex.c.LocalNth[p.name]; n > 0 && n <= len(found) {
			return found[n-1], true
		}
	}
	if len(found) == 0 {
		for sv, v := range fr.env {
			switch sv.(type) {
			case *ssa.Parameter, *ssa.MakeMap, *ssa.Call, *ssa.Extract:
				if same(sv.Type()) {
					v.t = sv.Type()
					put(v)
				}
			}
		}
	}
	if len(found) != 1 {
		return Val{}, false
	}
	return found[0], true
}

func (ex *Exec) monitorEnv(st *State) *SpecEnv {
	m := map[string]Val{}
	for k, v := range ex.params {
		m[k] = v
	}
	ex.addLocals(m)
	return &SpecEnv{ex: ex, vars: m, cur: st, old: ex.entry, oldMark: Add(ex.levels[0], I(1))}
}

// monitorLock: the address of the monitor's lock, nil while it does not exist.
func (ex *Exec) monitorLock(e *SpecEnv) *Term {
	if ex.c.Monitor == nil {
		return nil
	}
	v, ok := e.vars[ex.c.Monitor.lock]
	if !ok {
		return nil
	}
	return v.l[0]
}

// monitorTaken: the lock has just been taken.
func (ex *Exec) monitorTaken(st *State, a *Addr) {
	e := ex.monitorEnv(st)
	if l := ex.monitorLock(e); l == nil || l != a.base {
		return
	}
	for _, n := range ex.c.Monitor.changes {
		for _, m := range e.modLocs(n) {
			ex.havocLoc(st, m)
		}
	}
	for _, cl := range ex.c.Monitor.inv {
		ex.assume(st, e.Bool(cl.expr))
	}
	for _, cl := range ex.c.Monitor.given {
		ex.assumed["taken for granted when "+ex.c.Key+" takes its lock: "+cl.label] = true
		ex.assume(st, e.Bool(cl.expr))
	}
	if len(ex.c.Monitor.sets) > 0 {
		post := *e
		ex.applySets(&Contract{Sets: ex.c.Monitor.sets, SetsLHS: ex.c.Monitor.lhs}, st, st.clone(), e, &post)
	}
}

// monitorGiven: the lock is about to be given up, or another goroutine starts.
func (ex *Exec) monitorGiven(fr *Frame, st *State, base *Term, when string) {
	e := ex.monitorEnv(st)
	l := ex.monitorLock(e)
	if l == nil || base != nil && l != base {
		return
	}
	for _, cl := range ex.c.Monitor.inv {
		if o := ex.oblige(st, "lock", ex.fname(fr)+": "+cl.label+" holds when "+when, cl.tags, e.Bool(cl.expr)); o != nil {
			o.clause = cl
		}
	}
}

// mapGuard: maps the monitor guards are used with its lock held.
func (ex *Exec) mapGuard(fr *Frame, st *State, m Val) {
	if ex.c == nil || ex.c.Monitor == nil || len(ex.c.Monitor.guards) == 0 || ex.dry > 0 {
		return
	}
	e := ex.monitorEnv(st)
	held := TFalse
	if v, ok := e.vars[ex.c.Monitor.lock]; ok {
		held = ex.load(st, addrOf(v), derefType(v.t)).one()
	}
	for _, g := range ex.c.Monitor.guards {
		gv := e.eval(g.expr)
		if !types.Identical(gv.t.Underlying(), m.t.Underlying()) {
			continue
		}
		ex.oblige(st, "lock", ex.fname(fr)+": "+g.label+" is used with the lock held", nil, Implies(Eq(m.l[0], gv.l[0]), held)).clause = g
	}
}

// chanOp: what is known of an operation on a channel, by its contract "chan.ELEM.op".
func (ex *Exec) chanOp(fr *Frame, st *State, op string, ct types.Type, args []Val, rt types.Type) (*State, Val) {
	key := "chan." + ex.jsonTypeName(ct.Underlying().(*types.Chan).Elem()) + "." + op
	ex.hooks(fr, st, key, args)
	if c := ex.pg.contracts[key]; c != nil {
		var res []*types.Var
		if rt != nil {
			res = append(res, types.NewVar(0, nil, "", rt))
		}
		return ex.applyContract(fr, st, c, args, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(res...), false), key)
	}
	if rt != nil {
		return st, ex.freshVal("recv", rt, st.level)
	}
	return st, Val{}
}

// goStart: a goroutine is started: the preconditions of its contract hold.
func (ex *Exec) goStart(fr *Frame, st *State, x *ssa.Go) {
	if ex.c.Monitor != nil {
		ex.monitorGiven(fr, st, nil, "a goroutine starts")
	}
	fv := ex.val(fr, x.Call.Value)
	if x.Call.IsInvoke() || fv.fn == nil {
		if x.Call.IsInvoke() {
			args := []Val{fv}
			for _, a := range x.Call.Args {
				args = append(args, ex.val(fr, a))
			}
			ex.hooks(fr, st, ex.ifaceKey(&x.Call), args)
		}
		return
	}
	fn := fv.fn.fn
	args := []Val{}
	for _, a := range x.Call.Args {
		args = append(args, ex.val(fr, a))
	}
	ex.hooks(fr, st, ex.pg.keyOf(fn), args)
	c := ex.pg.contracts[ex.pg.keyOf(fn)]
	if c == nil || ex.dry > 0 || (c.Mode == "bv") != bvMode {
		return
	}
	vars := map[string]Val{}
	for i, n := range c.Params {
		if i < len(x.Call.Args) {
			vars[n] = ex.val(fr, x.Call.Args[i])
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(fv.fn.free) {
			v := fv.fn.free[i]
			v.t = f.Type()
			_, v.cell = f.Type().Underlying().(*types.Pointer)
			if _, clash := vars[f.Name()]; !clash {
				vars[f.Name()] = v
			}
		}
	}
	for _, p := range c.Locals {
		for i, f := range fn.FreeVars {
			t := (&SpecEnv{ex: ex}).typeOf(p.typ)
			if pt, ok := f.Type().Underlying().(*types.Pointer); ok && types.Identical(types.Unalias(pt.Elem()), types.Unalias(t)) {
				v := fv.fn.free[i]
				v.t, v.cell = f.Type(), true
				vars[p.name] = v
			}
		}
	}
	e := &SpecEnv{ex: ex, vars: vars, cur: st, old: st}
	for _, r := range c.Requires {
		if hasTag(r.tags, "assumed") {
			continue
		}
		if o := ex.oblige(st, "requires", ex.fname(fr)+": started goroutine "+c.Key+" requires "+r.label, r.tags, e.Bool(r.expr)); o != nil {
			o.clause = r
		}
	}
}

// rootVar: the variable a closure's free variable stands for.
func rootVar(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.FreeVar)
		if !ok || f.Parent().Parent() == nil {
			return v
		}
		i := 0
		for f.Parent().FreeVars[i] != f {
			i++
		}
		var b ssa.Value
		for _, blk := range f.Parent().Parent().Blocks {
			for _, ins := range blk.Instrs {
				if m, ok := ins.(*ssa.MakeClosure); ok && m.Fn == f.Parent() {
					b = m.Bindings[i]
				}
			}
		}
		if b == nil {
			return v
		}
		v = b
	}
}

// sharedAccess: the instruction reads or writes a variable that goroutines started by its function
// (or the function that made it) use at the same time, at least one of them writing it.
func (ex *Exec) sharedAccess(fn *ssa.Function, ins ssa.Instruction, addr ssa.Value) bool {
	v, ok := rootVar(addr).(*ssa.Alloc)
	if !ok {
		return false
	}
	if ex.shared == nil {
		ex.shared = map[*ssa.Alloc]map[ssa.Instruction]bool{}
	}
	m, done := ex.shared[v]
	if !done {
		m = sharedUses(v)
		ex.shared[v] = m
	}
	return m[ins]
}

// sharedUses: the accesses of v that may happen while another goroutine accesses it, if one may write.
func sharedUses(v *ssa.Alloc) map[ssa.Instruction]bool {
	type use struct {
		ins   ssa.Instruction
		write bool
	}
	owner := v.Parent()
	uses := map[*ssa.Function][]use{} // per goroutine: its body (the owner's: after a goroutine started)
	started := map[*ssa.BasicBlock]int{}
	goes := map[*ssa.Function]bool{}
	var walk func(fn, thread *ssa.Function)
	walk = func(fn, thread *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if rootVar(x.Addr) == ssa.Value(v) {
						uses[thread] = append(uses[thread], use{x, true})
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && rootVar(x.X) == ssa.Value(v) {
						uses[thread] = append(uses[thread], use{x, false})
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			t := thread
			for _, b := range fn.Blocks {
				for i, ins := range b.Instrs {
					if g, ok := ins.(*ssa.Go); ok {
						if m, ok := g.Call.Value.(*ssa.MakeClosure); ok && m.Fn == a {
							t = a
							goes[a] = true
							if fn == owner {
								for _, x := range m.Bindings {
									if x == ssa.Value(v) {
										if j, ok := started[b]; !ok || i < j {
											started[b] = i
										}
									}
								}
							}
						}
					}
				}
			}
			walk(a, t)
		}
	}
	walk(owner, owner)
	// the owner's accesses before the first goroutine that uses v are its own
	after := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !after[s] {
				after[s] = true
				reach(s)
			}
		}
	}
	for b := range started {
		reach(b)
	}
	late := uses[owner][:0:0]
	for _, u := range uses[owner] {
		b := u.ins.Block()
		if b.Parent() != owner { // a deferred or called closure of the owner
			late = append(late, u)
			continue
		}
		j, ok := started[b]
		k := 0
		for k < len(b.Instrs) && b.Instrs[k] != u.ins {
			k++
		}
		if after[b] || ok && k > j {
			late = append(late, u)
		}
	}
	uses[owner] = late
	threads, write := 0, false
	for _, us := range uses {
		if len(us) > 0 {
			threads++
		}
		for _, u := range us {
			write = write || u.write
		}
	}
	r := map[ssa.Instruction]bool{}
	if threads > 1 && write {
		for _, us := range uses {
			for _, u := range us {
				r[u.ins] = true
			}
		}
	}
	return r
}

// sharedCheck: variables shared with other goroutines are accessed with the monitor's lock held.
func (ex *Exec) sharedCheck(fr *Frame, st *State, ins ssa.Instruction, addr ssa.Value) {
	if ex.c == nil || ex.c.Monitor == nil || !ex.c.Monitor.shared || ex.dry > 0 || !ex.sharedAccess(fr.fn, ins, addr) {
		return
	}
	e := ex.monitorEnv(st)
	v, ok := e.vars[ex.c.Monitor.lock]
	if !ok {
		ex.oblige(st, "lock", ex.fname(fr)+": "+rootVar(addr).(*ssa.Alloc).Comment+" is accessed with a lock held", nil, TFalse)
		return
	}
	held := ex.load(st, addrOf(v), derefType(v.t)).one()
	ex.oblige(st, "lock", ex.fname(fr)+": "+rootVar(addr).(*ssa.Alloc).Comment+" is accessed with the lock held", nil, held)
}
