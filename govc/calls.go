package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 14

func (ex *Exec) tupleVal(t types.Type, vs []Val) Val {
	if tp, ok := t.(*types.Tuple); ok {
		r := Val{t: t}
		for _, v := range vs {
			r.l = append(r.l, v.l...)
		}
		for i := 0; i < tp.Len() && i < len(vs); i++ {
			v := vs[i]
			v.t = tp.At(i).Type()
			ex.remember(v)
		}
		return r
	}
	if len(vs) == 1 {
		v := vs[0]
		v.t = t
		return v
	}
	return Val{t: t}
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (ex *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, fnv Val, args []Val, instr ssa.Instruction) (*State, Val) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b, cc, args, instr)
	}
	sig := cc.Signature()
	if cc.IsInvoke() {
		ex.safety(fr, st, "nil interface call ."+cc.Method.Name(), Ne(fnv.l[0], I(0)))
		if st.cond == TFalse {
			return nil, Val{}
		}
		recv := fnv
		recv.t = cc.Value.Type()
		ex.hooks(fr, st, ex.ifaceKey(cc), append([]Val{recv}, args...))
		// statically known dynamic type
		if fnv.l[0].op == "const" {
			if ct, ok := ex.pg.tagType[fnv.l[0].val.Int64()]; ok {
				if m := ex.pg.prog.LookupMethod(ct, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					rv := ex.unbox(st, fnv, ct)
					return ex.callFn(fr, st, m, nil, append([]Val{rv}, args...), sig)
				}
			}
		}
		key := ex.ifaceKey(cc)
		if c := ex.pg.contracts[key]; c != nil {
			return ex.applyContract(fr, st, c, append([]Val{recv}, args...), sig, key)
		}
		return ex.libInvoke(fr, st, key, recv, args, sig)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var free []Val
		if fnv.fn != nil {
			free = fnv.fn.free
		}
		return ex.callFn(fr, st, fn, free, args, sig)
	}
	if fnv.fn != nil {
		return ex.callFn(fr, st, fnv.fn.fn, fnv.fn.free, args, sig)
	}
	// unknown function value
	ex.safety(fr, st, "call of nil function", Ne(fnv.l[0], I(0)))
	if st.cond == TFalse {
		return nil, Val{}
	}
	if key := ex.fieldCallKey(cc.Value); key != "" {
		ex.hooks(fr, st, key, append([]Val{fnv}, args...))
		c := ex.pg.contracts[key]
		if n := strings.TrimPrefix(key, "var "); n != key && fr.fn.Pkg != nil {
			c = ex.pg.contracts["var "+ex.pg.pkgName(fr.fn.Pkg.Pkg)+"."+n]
		}
		if c != nil {
			return ex.applyContract(fr, st, c, append([]Val{fnv}, args...), sig, key)
		}
	}
	ex.assumed["calls through unknown function values have no effect on the recorder's own state"] = true
	return st, ex.tupleVal(resultType(sig), ex.freshResults(st, sig, "fv"))
}

// fieldCallKey names a function value loaded from a struct field: "field pkg.Type.name".
// A captured or parameter function value is named "var name".
func (ex *Exec) fieldCallKey(v ssa.Value) string {
	if p, ok := v.(*ssa.Parameter); ok {
		return "var " + p.Name()
	}
	if p, ok := v.(*ssa.FreeVar); ok {
		return "var " + p.Name()
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	if p, ok := u.X.(*ssa.FreeVar); ok {
		return "var " + p.Name()
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Underlying().(*types.Struct)
	return "field " + ex.pg.pkgName(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + s.Field(fa.Field).Name()
}

func (ex *Exec) ifaceKey(cc *ssa.CallCommon) string {
	t := cc.Value.Type()
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name() + "." + cc.Method.Name()
		}
		k := ex.pg.pkgName(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + cc.Method.Name()
		return k
	}
	return ex.pg.objKey(cc.Method)
}

func (ex *Exec) freshResults(st *State, sig *types.Signature, why string) []Val {
	ex.newLevel(st)
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, ex.freshVal(why, sig.Results().At(i).Type(), st.level))
	}
	return out
}

// declared: a function written in some source file, not a wrapper made by go/ssa.
func declared(fn *ssa.Function) bool {
	return fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "from type information") || fn.Origin() != nil
}

func (ex *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, free []Val, args []Val, sig *types.Signature) (*State, Val) {
	key := ex.pg.keyOf(fn)
	if fn.Synthetic == "package initializer" && (ex.top == nil || fn.Pkg != ex.top.Pkg) {
		ex.assumed["initialisers of imported packages do not write this package's variables"] = true
		return st, Val{}
	}
	if declared(fn) {
		ex.hooks(fr, st, key, args)
		if c := ex.pg.contracts[key]; c != nil && !c.Inline {
			ex.freeNames = map[string]Val{}
			for i, f := range fn.FreeVars {
				if i < len(free) {
					v := free[i]
					v.t = f.Type()
					_, v.cell = f.Type().Underlying().(*types.Pointer)
					ex.freeNames[f.Name()] = v
				}
			}
			return ex.applyContract(fr, st, c, args, sig, key)
		}
	}
	if len(fn.Blocks) == 0 || fn.Pkg != nil && !ex.pg.srcPkgs[fn.Pkg] && fn.Synthetic == "" && fn.Origin() == nil {
		return ex.lib(fr, st, fn, key, args, sig)
	}
	if s2, v, ok := ex.libFirst(fr, st, key, args, sig); ok {
		return s2, v
	}
	// inline
	if ex.callDepth >= maxInline {
		panic(unsupported("inlining too deep at %s (recursion needs a contract)", key))
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported("recursive call of %s without a contract", key))
		}
	}
	if ex.top == fn {
		panic(unsupported("recursive call of %s without a contract", key))
	}
	ex.inlined[key] = true
	ex.callDepth++
	nf := ex.newFrame(fn, fr)
	nf.free = free
	for i, p := range fn.Params {
		v := args[i]
		v.t = p.Type()
		nf.env[p] = v
	}
	s2, vals := ex.run(nf, st)
	ex.callDepth--
	for _, p := range nf.panics {
		ex.raise(fr, p)
	}
	if s2 == nil || s2.cond == TFalse {
		return nil, Val{}
	}
	return s2, ex.tupleVal(resultType(sig), vals)
}

// ---------- builtins ----------

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, instr ssa.Instruction) (*State, Val) {
	var rt types.Type
	if v, ok := instr.(ssa.Value); ok {
		rt = v.Type()
	}
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return st, Val{t: rt, l: []*Term{v.l[2]}}
			}
			return st, Val{t: rt, l: []*Term{v.l[3]}}
		case *types.Basic:
			return st, Val{t: rt, l: []*Term{ex.strLen(v.one())}}
		case *types.Array:
			return st, Val{t: rt, l: []*Term{idxConst(u.Len())}}
		case *types.Pointer:
			return st, Val{t: rt, l: []*Term{idxConst(u.Elem().Underlying().(*types.Array).Len())}}
		case *types.Map:
			return st, Val{t: rt, l: []*Term{ex.mapLen(st, v)}}
		case *types.Chan:
			return st, ex.freshVal("chanlen", rt, st.level)
		}
	case "append":
		return ex.appendTo(fr, st, args, rt)
	case "copy":
		return ex.copyTo(fr, st, args, rt)
	case "delete":
		m := args[0]
		m.t = cc.Args[0].Type()
		ex.mapGuard(fr, st, m)
		ex.mapDelete(st, m, args[1])
		return st, Val{t: rt}
	case "recover":
		r := zeroVal(rt)
		if fr.parent != nil && fr.parent.panicing {
			r = ex.freshVal("recovered", rt, st.level)
			ex.assume(st, Ne(r.l[0], I(0)))
			ex.setScalar(st, "ghost:#recovered", TTrue)
		}
		return st, r
	case "panic":
		ex.doPanic(fr, st, "explicit panic")
		return nil, Val{}
	case "print", "println":
		return st, Val{t: rt}
	case "close":
		ex.safety(fr, st, "close of nil channel", Ne(args[0].one(), I(0)))
		return st, Val{t: rt}
	case "ssa:wrapnilchk":
		v := args[0]
		if v.addr == nil {
			ex.safety(fr, st, "nil dereference", Ne(v.l[0], I(0)))
		}
		if st.cond == TFalse {
			return nil, Val{}
		}
		v.t = rt
		return st, v
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			_, signed, isi := isIntType(r.t)
			if !isi {
				panic(unsupported("min/max of %s", r.t))
			}
			var le *Term
			if bvMode {
				if signed {
					le = bvCmp("bvsle", r.one(), a.one())
				} else {
					le = bvCmp("bvule", r.one(), a.one())
				}
			} else {
				le = Le(r.one(), a.one())
			}
			if b.Name() == "min" {
				r = iteVal(le, r, a)
			} else {
				r = iteVal(le, a, r)
			}
		}
		r.t = rt
		return st, r
	case "clear":
		panic(unsupported("clear"))
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (ex *Exec) mapLen(st *State, m Val) *Term {
	var srt = "Int"
	if bvMode {
		srt = "BV64"
	}
	v := newVar("maplen", srt, &Meta{lo: big.NewInt(0), hi: pow2(40)})
	return v
}

// elemArr reads the content array of a slice's backing store for one leaf.
func (ex *Exec) elemArr(st *State, et types.Type, l Leaf, base *Term) (*Term, string, string) {
	key := elemPrefix(et) + l.path
	srt := arrSort(SInt, arrSort(idxSort(), l.sort))
	h := st.get(key, srt, l.meta)
	return Select(h, base), key, srt
}

func (ex *Exec) ult(a, b *Term) *Term {
	if isBV(a.sort) {
		return bvCmp("bvult", a, b)
	}
	return Lt(a, b)
}

// appendTo: append(s, t...). The result is modelled as a fresh backing array holding both
// contents, or (when capacity allows) possibly the same backing array; writing the tail in
// place is visible through s only beyond its length, which the model drops: the result always
// gets a fresh array (assumption: no other slice aliases the spare capacity).
func (ex *Exec) appendTo(fr *Frame, st *State, args []Val, rt types.Type) (*State, Val) {
	s := args[0]
	et := rt.Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		return st, s
	}
	t := args[1]
	var tn *Term
	isStr := isString(t.t)
	if isStr {
		tn = ex.strLen(t.one())
	} else {
		tn = t.l[2]
	}
	n := Add(s.l[2], tn)
	ref := ex.allocRef(st)
	ex.instTerms = append(ex.instTerms, s.l[2]) // the position of the first element appended
	for _, l := range leavesOf(et) {
		sa, key, srt := ex.elemArr(st, et, l, s.l[0])
		so, sl := s.l[1], s.l[2]
		var get func(i *Term) *Term
		var tb int
		if isStr {
			ss := t.one()
			get = func(i *Term) *Term { return ex.strAt(ss, Sub(i, sl)) }
			tb = ss.birth
		} else {
			ta, _, _ := ex.elemArr(st, et, l, t.l[0])
			to := t.l[1]
			get = func(i *Term) *Term { return Select(ta, Add(to, Sub(i, sl))) }
			tb = ta.birth
		}
		if sa.birth > tb {
			tb = sa.birth
		}
		z := zeroLeaf(l)
		body := Lam(arrSort(idxSort(), l.sort), tb, func(i *Term) *Term {
			return Ite(ex.ult(i, sl), Select(sa, Add(so, i)), Ite(ex.ult(i, n), get(i), z))
		})
		h := st.get(key, srt, l.meta)
		ex.logWrite(key, ref, srt, l.meta)
		st.heap[key] = heapCell{Store(h, ref, body), l.meta}
	}
	ex.assumed["append always yields a backing array of its own (spare capacity is not shared)"] = true
	c := newVar("cap", idxSort(), &Meta{lo: big.NewInt(0), hi: pow2(47)})
	if bvMode {
		ex.fact(And(bvCmp("bvule", n, c), bvCmp("bvule", c, BVc(pow2(47), "BV64"))))
	} else {
		ex.fact(Le(n, c))
	}
	// append(nil) of nothing stays nil
	z := idxConst(0)
	r := Ite(And(Eq(s.l[0], I(0)), Eq(tn, z)), I(0), ref)
	if r != ref {
		c = Ite(Eq(r, I(0)), z, c)
	}
	return st, Val{t: rt, l: []*Term{r, z, n, c}}
}

func (ex *Exec) copyTo(fr *Frame, st *State, args []Val, rt types.Type) (*State, Val) {
	d, s := args[0], args[1]
	et := d.t.Underlying().(*types.Slice).Elem()
	var sn *Term
	isStr := isString(s.t)
	if isStr {
		sn = ex.strLen(s.one())
	} else {
		sn = s.l[2]
	}
	n := Ite(ex.ult(sn, d.l[2]), sn, d.l[2])
	for _, l := range leavesOf(et) {
		da, key, srt := ex.elemArr(st, et, l, d.l[0])
		do := d.l[1]
		var get func(i *Term) *Term
		var b int
		if isStr {
			ss := s.one()
			get = func(i *Term) *Term { return ex.strAt(ss, i) }
			b = ss.birth
		} else {
			sa, _, _ := ex.elemArr(st, et, l, s.l[0])
			so := s.l[1]
			get = func(i *Term) *Term { return Select(sa, Add(so, i)) }
			b = sa.birth
		}
		if da.birth > b {
			b = da.birth
		}
		body := Lam(arrSort(idxSort(), l.sort), b, func(i *Term) *Term {
			var in *Term
			if bvMode {
				in = And(bvCmp("bvule", do, i), bvCmp("bvult", i, Add(do, n)))
			} else {
				in = And(Le(do, i), Lt(i, Add(do, n)))
			}
			return Ite(in, get(Sub(i, do)), Select(da, i))
		})
		h := st.get(key, srt, l.meta)
		ex.logWrite(key, d.l[0], srt, l.meta)
		st.heap[key] = heapCell{Store(h, d.l[0], body), l.meta}
	}
	return st, Val{t: rt, l: []*Term{n}}
}

// ---------- library semantics ----------

func (ex *Exec) now(st *State) *Term {
	cur := ex.getScalar(st, "ghost:clock", SInt)
	t := newVar("now", SInt, nil)
	ex.assume(st, And(Le(cur, t), Lt(I(0), t)))
	ex.setScalar(st, "ghost:clock", t)
	return t
}

func (ex *Exec) nonNilErr(st *State) Val {
	r := ex.freshVal("err", types.Universe.Lookup("error").Type(), st.level)
	ex.assume(st, Ne(r.l[0], I(0)))
	return r
}

// libFirst: functions that have source but are better given directly.
func (ex *Exec) libFirst(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val, bool) {
	return nil, Val{}, false
}

func (ex *Exec) lib(fr *Frame, st *State, fn *ssa.Function, key string, args []Val, sig *types.Signature) (*State, Val) {
	rt := resultType(sig)
	one := func(t *Term) (*State, Val) { return st, Val{t: rt, l: []*Term{t}} }
	pkg := key
	if i := strings.IndexByte(key, '.'); i >= 0 {
		pkg = key[:i]
	}
	need := func(v Val) bool {
		if v.addr == nil {
			ex.safety(fr, st, "nil receiver of "+key, Ne(v.l[0], I(0)))
		}
		return st.cond != TFalse
	}
	switch pkg {
	case "logrus":
		if strings.HasSuffix(key, ".Fatal") || strings.HasSuffix(key, ".Fatalf") || strings.HasSuffix(key, ".Fatalln") {
			return ex.applyExit(fr, st)
		}
		if strings.HasSuffix(key, ".Panic") || strings.HasSuffix(key, ".Panicf") {
			ex.doPanic(fr, st, "log.Panic")
			return nil, Val{}
		}
		ex.assumed["logging (logrus) has no effect and does not panic"] = true
		vs := ex.freshNonNil(st, sig)
		return st, ex.tupleVal(rt, vs)
	}
	switch key {
	case "os.Exit":
		return ex.applyExit(fr, st)
	case "time.Now":
		if bvMode {
			return st, ex.freshVal("now", rt, st.level)
		}
		return one(ex.now(st))
	case "time.Since":
		return one(Sub(ex.now(st), args[0].one()))
	case "time.Time.Sub":
		return one(Sub(args[0].one(), args[1].one()))
	case "time.Time.Add":
		return one(Add(args[0].one(), args[1].one()))
	case "time.Time.IsZero":
		return one(Eq(args[0].one(), I(0)))
	case "time.Time.After":
		return one(Lt(args[1].one(), args[0].one()))
	case "time.Time.Before":
		return one(Lt(args[0].one(), args[1].one()))
	case "time.Time.UTC", "time.Time.Local", "time.Time.Round":
		return one(args[0].one())
	case "time.Time.Unix", "time.Time.UnixMilli", "time.Time.UnixNano":
		return one(App(key, SInt, args[0].one()))
	case "time.Duration.Milliseconds", "time.Duration.Microseconds", "time.Duration.Nanoseconds":
		if !bvMode {
			unit := map[string]int64{"Milliseconds": 1000000, "Microseconds": 1000, "Nanoseconds": 1}[key[len("time.Duration."):]]
			return one(ex.tdiv(args[0].one(), I(unit)))
		}
		return st, ex.freshVal("dur", rt, st.level)
	case "time.Duration.Seconds":
		return st, ex.freshVal("dur", rt, st.level)
	case "errors.New", "fmt.Errorf":
		return st, func() Val { v := ex.nonNilErr(st); v.t = rt; return v }()
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one(newVar("sprintf", SStr, nil))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		return st, ex.tupleVal(rt, ex.freshResults(st, sig, "fmt"))
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		if !need(args[0]) {
			return nil, Val{}
		}
		a := addrOf(args[0])
		t := derefType(args[0].t)
		held := ex.load(st, a, t).one()
		ex.oblige(st, "lock", ex.fname(fr)+": lock not already held", nil, Not(held))
		ex.assume(st, Not(held))
		ex.relock(st, a)
		ex.store(st, a, Val{t: t, l: []*Term{TTrue}})
		if c, inv := ex.guardInv(st, a); c != nil {
			ex.assume(st, inv)
		}
		ex.monitorTaken(st, a)
		return st, Val{t: rt}
	case "sync.Mutex.TryLock":
		if !need(args[0]) {
			return nil, Val{}
		}
		a := addrOf(args[0])
		t := derefType(args[0].t)
		ok := newVar("trylock", SBool, nil)
		held := ex.load(st, a, t).one()
		ex.assume(st, Implies(held, Not(ok)))
		ex.store(st, a, Val{t: t, l: []*Term{Or(held, ok)}})
		return one(ok)
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		if !need(args[0]) {
			return nil, Val{}
		}
		a := addrOf(args[0])
		t := derefType(args[0].t)
		held := ex.load(st, a, t).one()
		ex.oblige(st, "lock", ex.fname(fr)+": unlock of a held lock", nil, held)
		if c, inv := ex.guardInv(st, a); c != nil {
			ex.oblige(st, "lock", ex.fname(fr)+": "+c.label+" holds when the lock is given up", nil, inv)
		}
		ex.monitorGiven(fr, st, a.base, "the lock is given up")
		ex.store(st, a, Val{t: t, l: []*Term{TFalse}})
		ex.setReleased(st, a)
		return st, Val{t: rt}
	case "sync.Map.Load", "sync.Map.Store", "sync.Map.Delete", "sync.Map.LoadOrStore", "sync.Map.LoadAndDelete":
		return ex.syncMap(fr, st, key, args, sig)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		return one(App(key, SStr, args[0].one()))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		return one(App(key, SBool, args[0].one(), args[1].one()))
	case "strings.TrimPrefix", "strings.TrimSuffix":
		return one(App(key, SStr, args[0].one(), args[1].one()))
	case "path.Clean", "path.Dir", "path.Base", "path.Ext", "filepath.Ext", "filepath.Clean", "filepath.Dir", "filepath.Base":
		return one(App(strings.Replace(key, "filepath.", "path.", 1), SStr, args[0].one()))
	case "context.Background", "context.TODO":
		return st, ex.tupleVal(rt, ex.freshNonNil(st, sig))
	case "context.WithValue":
		ex.safety(fr, st, "context.WithValue with nil parent", Ne(args[0].l[0], I(0)))
		if st.cond == TFalse {
			return nil, Val{}
		}
		v := ex.freshNonNil(st, sig)
		return st, ex.tupleVal(rt, v)
	case "context.WithCancel", "context.WithTimeout":
		return st, ex.tupleVal(rt, ex.freshNonNil(st, sig))
	case "strconv.ParseUint":
		v := ex.freshResults(st, sig, "parse")
		ok := App("parseuint.ok", SBool, args[0].one(), args[1].one(), args[2].one())
		val := App("parseuint.val", v[0].l[0].sort, args[0].one(), args[1].one(), args[2].one())
		ex.assume(st, Eq(Eq(v[1].l[0], I(0)), ok))
		ex.assume(st, Implies(ok, Eq(v[0].one(), val)))
		if !bvMode && args[2].one().op == "const" {
			ex.assume(st, Implies(ok, Lt(v[0].one(), IBig(pow2(uint(args[2].one().val.Int64()))))))
		}
		return st, ex.tupleVal(rt, v)
	case "time.NewTicker", "time.NewTimer":
		return st, ex.tupleVal(rt, ex.freshNonNil(st, sig))
	case "json.Unmarshal", "json5.Unmarshal":
		return ex.jsonUnmarshal(fr, st, key, args, sig)
	case "json.Marshal":
		return ex.jsonMarshal(fr, st, key, args, sig)
	case "errors.Is":
		return one(newVar("errors.Is", SBool, nil))
	case "math.Abs":
		x := args[0].one()
		z := RConst(new(big.Rat))
		return one(Ite(Le(z, x), x, Sub(z, x)))
	}
	if strings.HasPrefix(key, "atomic.") {
		return ex.atomicOp(fr, st, key, args, sig)
	}
	return ex.unknown(fr, st, key, args, sig)
}

func (ex *Exec) freshNonNil(st *State, sig *types.Signature) []Val {
	vs := ex.freshResults(st, sig, "lib")
	for _, v := range vs {
		switch v.t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
			ex.assume(st, Ne(v.l[0], I(0)))
		}
	}
	return vs
}

// applyExit: the process ends. Contracts may state what must hold then.
func (ex *Exec) applyExit(fr *Frame, st *State) (*State, Val) {
	ex.exits = append(ex.exits, st)
	return nil, Val{}
}

// unknown external function: arbitrary results; memory directly reachable from pointer
// arguments is forgotten.
func (ex *Exec) unknown(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val) {
	ex.externals[key] = true
	for _, a := range args {
		v := a
		t := v.t
		if isIface(t) {
			if len(v.l) == 2 && v.l[0].op == "const" {
				if ct, ok := ex.pg.tagType[v.l[0].val.Int64()]; ok {
					if _, isp := ct.Underlying().(*types.Pointer); isp {
						v = ex.unbox(st, v, ct)
						t = ct
						v.t = ct
					}
				}
			}
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if v.addr != nil || v.l[0] != I(0) {
				if ex.ownType(p.Elem()) {
					ex.havocAt(st, addrOf(v), p.Elem(), "ext")
				}
			}
		}
	}
	return st, ex.tupleVal(resultType(sig), ex.freshResults(st, sig, "ext"))
}

// ownType: a type whose content we track (declared in the repository, or unnamed/basic).
func (ex *Exec) ownType(t types.Type) bool {
	if isOpaque(t) {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
	}
	return true
}

func (ex *Exec) libInvoke(fr *Frame, st *State, key string, recv Val, args []Val, sig *types.Signature) (*State, Val) {
	rt := resultType(sig)
	switch key {
	case "error.Error":
		return st, Val{t: rt, l: []*Term{App("error.Error", SStr, recv.l[0], recv.l[1])}}
	case "context.Context.Value":
		return st, ex.tupleVal(rt, ex.freshResults(st, sig, "ctxval"))
	}
	ex.externals[key] = true
	return st, ex.tupleVal(rt, ex.freshResults(st, sig, "inv"))
}

func (ex *Exec) atomicOp(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val) {
	return ex.unknown(fr, st, key, args, sig)
}

func (ex *Exec) syncMap(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val) {
	if args[0].addr == nil {
		ex.safety(fr, st, "nil dereference", Ne(args[0].l[0], I(0)))
		if st.cond == TFalse {
			return nil, Val{}
		}
	}
	a := addrOf(args[0])
	t := derefType(args[0].t)
	m := ex.load(st, a, t)
	strT := types.Typ[types.String]
	if args[1].l[0] != ex.pg.typeTag(strT) {
		panic(unsupported("sync.Map key is not a string"))
	}
	k := ex.unbox(st, args[1], strT).one()
	has := Select(m.l[0], k)
	vt, vr := Select(m.l[1], k), Select(m.l[2], k)
	rt := resultType(sig)
	switch key {
	case "sync.Map.Load":
		ex.assume(st, Implies(has, Le(I(0), vt)))
		return st, Val{t: rt, l: []*Term{Ite(has, vt, I(0)), Ite(has, vr, I(0)), has}}
	case "sync.Map.Store":
		ex.store(st, a, Val{t: t, l: []*Term{Store(m.l[0], k, TTrue), Store(m.l[1], k, args[2].l[0]), Store(m.l[2], k, args[2].l[1])}})
		return st, Val{t: rt}
	case "sync.Map.Delete":
		ex.store(st, a, Val{t: t, l: []*Term{Store(m.l[0], k, TFalse), m.l[1], m.l[2]}})
		return st, Val{t: rt}
	case "sync.Map.LoadAndDelete":
		ex.store(st, a, Val{t: t, l: []*Term{Store(m.l[0], k, TFalse), m.l[1], m.l[2]}})
		return st, Val{t: rt, l: []*Term{Ite(has, vt, I(0)), Ite(has, vr, I(0)), has}}
	case "sync.Map.LoadOrStore":
		nt, nr := Ite(has, vt, args[2].l[0]), Ite(has, vr, args[2].l[1])
		ex.store(st, a, Val{t: t, l: []*Term{Store(m.l[0], k, TTrue), Store(m.l[1], k, nt), Store(m.l[2], k, nr)}})
		return st, Val{t: rt, l: []*Term{nt, nr, has}}
	}
	panic(fmt.Sprint("syncMap ", key))
}
