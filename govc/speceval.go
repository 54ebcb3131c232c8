package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// SpecEnv evaluates specification expressions.
type SpecEnv struct {
	ex      *Exec
	vars    map[string]Val
	cur     *State
	old     *State
	entry   *State // loop entry
	oldMark *Term  // references >= oldMark were allocated after old
	head    *State // the head of the current iteration of the loop around
	lenient bool   // operators without a meaning here have an arbitrary value
	iter    string // heap key of the keys visited by the loop's map iteration
	depth   int
}

var (
	refT     = types.Typ[types.UnsafePointer]
	boolT    = types.Typ[types.Bool]
	intT     = types.Typ[types.Int]
	untypedT = types.Typ[types.UntypedInt]
	stringT  = types.Typ[types.String]
)

func (e *SpecEnv) with(m map[string]Val) *SpecEnv {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+len(m))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range m {
		n.vars[k] = v
	}
	return &n
}
func (e *SpecEnv) at(st *State) *SpecEnv {
	n := *e
	n.cur = st
	return &n
}

func (e *SpecEnv) Bool(n *Node) *Term {
	v := e.eval(n)
	if len(v.l) != 1 || v.l[0].sort != SBool {
		panic(specErr("not a boolean: %s", nodeStr(n)))
	}
	return v.l[0]
}

func nodeStr(n *Node) string {
	s := n.op + ":" + n.s
	for _, k := range n.kids {
		s += " (" + nodeStr(k) + ")"
	}
	return s
}

func (e *SpecEnv) typeOf(s string) types.Type {
	switch s {
	case "ref":
		return refT
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.typeOf(s[1:]))
	}
	if strings.HasPrefix(s, "chan(") && strings.HasSuffix(s, ")") {
		return types.NewChan(types.SendRecv, e.typeOf(s[5:len(s)-1]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(e.typeOf(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.IndexByte(s, ']')
		return types.NewMap(e.typeOf(s[4:i]), e.typeOf(s[i+1:]))
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		if p := e.ex.pg.pkgs[s[:i]]; p != nil {
			if tn, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	panic(specErr("unknown type %s", s))
}

func boolVal(t *Term) Val { return Val{t: boolT, l: []*Term{t}} }

// coerce an untyped integer literal to type t.
func (e *SpecEnv) coerce(v Val, t types.Type) Val {
	if v.t == untypedT && t != untypedT {
		if isFloat(t) {
			return Val{t: t, l: []*Term{RConst(new(big.Rat).SetInt(v.l[0].val))}}
		}
		if _, _, ok := isIntType(t); ok {
			return e.coerceLit(v, t)
		}
		if len(leavesOf(t)) == 1 && leavesOf(t)[0].sort == SInt {
			v.t = t
			return v
		}
	}
	return v
}

func bigConst(n *big.Int) constant.Value {
	return constant.Make(n)
}

func (e *SpecEnv) unify(a, b Val) (Val, Val) {
	if a.t == untypedT && b.t != untypedT {
		return e.coerceLit(a, b.t), b
	}
	if b.t == untypedT && a.t != untypedT {
		return a, e.coerceLit(b, a.t)
	}
	return a, b
}

func (e *SpecEnv) coerceLit(v Val, t types.Type) Val {
	if isFloat(t) {
		if v.l[0].op == "const" {
			return Val{t: t, l: []*Term{RConst(new(big.Rat).SetInt(v.l[0].val))}}
		}
		return Val{t: t, l: []*Term{mk("to_real", SReal, "", nil, v.l[0])}}
	}
	if bits, _, ok := isIntType(t); ok && bvMode {
		if x := v.l[0]; x.op == "ite" {
			a := e.coerceLit(Val{t: v.t, l: []*Term{x.args[1]}}, t)
			b := e.coerceLit(Val{t: v.t, l: []*Term{x.args[2]}}, t)
			return Val{t: t, l: []*Term{Ite(x.args[0], a.one(), b.one())}}
		}
		if v.l[0].op != "const" {
			panic(specErr("cannot use a mathematical integer in bv mode"))
		}
		return Val{t: t, l: []*Term{BVc(v.l[0].val, "BV"+strconv.Itoa(int(bits)))}}
	}
	v.t = t
	return v
}

func (e *SpecEnv) eval(n *Node) Val {
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 200 {
		panic(specErr("recursive definition"))
	}
	switch n.op {
	case "int":
		b, ok := new(big.Int).SetString(n.s, 0)
		if !ok {
			panic(specErr("bad integer %s", n.s))
		}
		return Val{t: untypedT, l: []*Term{IBig(b)}}
	case "str":
		s, err := strconv.Unquote(n.s)
		if err != nil {
			panic(specErr("bad string %s", n.s))
		}
		return Val{t: stringT, l: []*Term{StrConst(s)}}
	case "bool":
		return boolVal(B(n.s == "true"))
	case "ident":
		return e.ident(n.s)
	case "quant":
		m := map[string]Val{}
		var bs []*Term
		for _, p := range n.vars {
			t := e.typeOf(p.typ)
			v := Val{t: t}
			for _, l := range leavesOf(t) {
				b := newBound(p.name+l.path, l.sort)
				mm := l.meta
				b.meta = &mm
				bs = append(bs, b)
				v.l = append(v.l, b)
			}
			m[p.name] = v
		}
		body := e.with(m).Bool(n.kids[0])
		// range of the bound variables
		var rng []*Term
		for _, b := range bs {
			if b.sort == SInt && b.meta != nil && !b.meta.isRef && b.meta.lo != nil {
				rng = append(rng, Le(IBig(b.meta.lo), b), Le(b, IBig(b.meta.hi)))
			}
		}
		_ = rng // integers in specifications range over the type's values only through skolem metadata
		if n.s == "forall" {
			return boolVal(Forall(bs, body))
		}
		return boolVal(Exists(bs, body))
	case "cond":
		c := e.Bool(n.kids[0])
		a, b := e.unify(e.eval(n.kids[1]), e.eval(n.kids[2]))
		return iteVal(c, a, b)
	case "un":
		return e.unary(n)
	case "bin":
		return e.binary(n)
	case "sel":
		return e.sel(n)
	case "index":
		return e.index(n)
	case "call":
		return e.callExpr(n)
	}
	panic(specErr("cannot evaluate %s", n.op))
}

func (e *SpecEnv) ident(s string) Val {
	if v, ok := e.vars[s]; ok {
		if v.cell { // a captured variable
			v.cell = false
			return e.ex.load(e.cur, addrOf(v), derefType(v.t))
		}
		return v
	}
	switch s {
	case "nil":
		return Val{t: types.Typ[types.UntypedNil], l: []*Term{I(0)}}
	case "clock":
		return Val{t: untypedT, l: []*Term{e.ex.getScalar(e.cur, "ghost:clock", SInt)}}
	}
	if g := e.ex.pg.ghosts[s]; g != nil && g.key == "" {
		return e.ghostGet(g, nil)
	}
	panic(specErr("unknown name %s", s))
}

func (e *SpecEnv) ghostKeySort(g *Ghost) string {
	switch g.key {
	case "string":
		return SStr
	case "ref":
		return SInt
	}
	return leavesOf(e.typeOf(g.key))[0].sort
}

func (e *SpecEnv) ghostGet(g *Ghost, key *Term) Val {
	t := e.typeOf(g.typ)
	v := Val{t: t}
	for _, l := range leavesOf(t) {
		k := "ghost:" + g.name + l.path
		if g.key == "" {
			v.l = append(v.l, Select(e.cur.get(k, arrSort(SInt, l.sort), l.meta), I(0)))
		} else {
			v.l = append(v.l, Select(e.cur.get(k, arrSort(e.ghostKeySort(g), l.sort), l.meta), key))
		}
	}
	e.ex.typeFacts(v)
	return v
}

func (e *SpecEnv) unary(n *Node) Val {
	switch n.s {
	case "!":
		return boolVal(Not(e.Bool(n.kids[0])))
	case "-":
		v := e.eval(n.kids[0])
		if v.t == untypedT {
			return Val{t: v.t, l: []*Term{Sub(I(0), v.one())}}
		}
		z := e.coerceLit(Val{t: untypedT, l: []*Term{I(0)}}, v.t)
		return Val{t: v.t, l: []*Term{Sub(z.one(), v.one())}}
	case "*":
		v := e.eval(n.kids[0])
		if _, ok := v.t.Underlying().(*types.Pointer); !ok {
			panic(specErr("* of non-pointer"))
		}
		r := e.ex.load(e.cur, addrOf(v), derefType(v.t))
		return r
	}
	panic(specErr("unary %s", n.s))
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *SpecEnv) binary(n *Node) Val {
	switch n.s {
	case "&&":
		a := e.Bool(n.kids[0])
		if a == TFalse {
			return boolVal(TFalse)
		}
		return boolVal(And(a, e.Bool(n.kids[1])))
	case "||":
		a := e.Bool(n.kids[0])
		if a == TTrue {
			return boolVal(TTrue)
		}
		return boolVal(Or(a, e.Bool(n.kids[1])))
	case "==>":
		a := e.Bool(n.kids[0])
		if a == TFalse {
			return boolVal(TTrue)
		}
		return boolVal(Implies(a, e.Bool(n.kids[1])))
	case "<==>":
		return boolVal(Eq(e.Bool(n.kids[0]), e.Bool(n.kids[1])))
	}
	a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
	if n.s == "==" || n.s == "!=" {
		t := e.equal(a, b)
		if n.s == "!=" {
			t = Not(t)
		}
		return boolVal(t)
	}
	a, b = e.unify(a, b)
	x, y := a.one(), b.one()
	if x.sort != y.sort {
		panic(specErr("operands of %s differ: %s %s", n.s, x.sort, y.sort))
	}
	_, signed, _ := isIntType(a.t)
	res := func(t *Term) Val { return Val{t: a.t, l: []*Term{t}} }
	if isBV(x.sort) {
		pick := func(s, u string) string {
			if signed {
				return s
			}
			return u
		}
		switch n.s {
		case "+":
			return res(bvBin("bvadd", x, y))
		case "-":
			return res(bvBin("bvsub", x, y))
		case "*":
			return res(bvBin("bvmul", x, y))
		case "/":
			return res(bvBin(pick("bvsdiv", "bvudiv"), x, y))
		case "%":
			return res(bvBin(pick("bvsrem", "bvurem"), x, y))
		case "&":
			return res(bvBin("bvand", x, y))
		case "|":
			return res(bvBin("bvor", x, y))
		case "^":
			return res(bvBin("bvxor", x, y))
		case "&^":
			return res(bvBin("bvand", x, bvNot(y)))
		case "<<":
			return res(bvBin("bvshl", x, y))
		case ">>":
			return res(bvBin(pick("bvashr", "bvlshr"), x, y))
		case "<":
			return boolVal(bvCmp(pick("bvslt", "bvult"), x, y))
		case "<=":
			return boolVal(bvCmp(pick("bvsle", "bvule"), x, y))
		case ">":
			return boolVal(bvCmp(pick("bvslt", "bvult"), y, x))
		case ">=":
			return boolVal(bvCmp(pick("bvsle", "bvule"), y, x))
		}
		panic(specErr("bv op %s", n.s))
	}
	if x.sort == SStr {
		switch n.s {
		case "+":
			return res(StrCat(x, y))
		case "<":
			return boolVal(App("strlt", SBool, x, y))
		}
	}
	switch n.s {
	case "+":
		return res(Add(x, y))
	case "-":
		return res(Sub(x, y))
	case "*":
		return res(Mul(x, y))
	case "<":
		return boolVal(Not(Le(y, x)))
	case "<=":
		return boolVal(Le(x, y))
	case ">":
		return boolVal(Not(Le(x, y)))
	case ">=":
		return boolVal(Le(y, x))
	case "/":
		if x.sort == SReal {
			return res(mk("r/", SReal, "", nil, x, y))
		}
		return res(e.ex.tdiv(x, y))
	case "%":
		if y.op == "const" && y.val.Sign() > 0 {
			return res(EMod(x, y))
		}
		return res(e.ex.trem(x, y))
	case "&":
		bits, _, _ := isIntType(a.t)
		return res(e.ex.bitAnd(x, y, bits))
	case "|":
		return res(e.ex.bitOr(x, y))
	case "<<":
		if y.op == "const" {
			return res(Mul(x, IBig(pow2(uint(y.val.Uint64())))))
		}
	case ">>":
		if y.op == "const" {
			return res(EDiv(x, IBig(pow2(uint(y.val.Uint64())))))
		}
	}
	if e.lenient {
		return res(newVar("any", x.sort, nil))
	}
	panic(specErr("operator %s", n.s))
}

// opaque: a predicate that speaks of machine words, in integers: an unknown function of its arguments
// and of all it reads.
func (e *SpecEnv) opaque(p *Pure, args []Val) Val {
	if p.reads == nil {
		seen := map[string]bool{}
		p.reads = []readKey{}
		base := &Base{name: "reads", rec: func(key, srt string, meta Meta) {
			if !seen[key] {
				seen[key] = true
				p.reads = append(p.reads, readKey{key, srt, meta})
			}
		}}
		x := &Exec{pg: e.ex.pg, c: e.ex.c, top: e.ex.top, assumed: map[string]bool{}, inlined: map[string]bool{}, factSeen: map[int]bool{},
			logic: map[string]Val{}, oblNames: map[string]int{}, contractsUsed: map[string]bool{}, externals: map[string]bool{},
			params: map[string]Val{}, hookHits: map[string]int{}, okConds: map[int][]*Term{}, dry: 1, levels: []*Term{I(0)}}
		m := map[string]Val{}
		for i, nm := range p.params {
			m[nm] = args[i]
		}
		st := &State{heap: map[string]heapCell{}, base: base, cond: TTrue}
		(&SpecEnv{ex: x, vars: m, cur: st, old: st, lenient: true}).Bool(p.body)
		sort.Slice(p.reads, func(i, j int) bool { return p.reads[i].key < p.reads[j].key })
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.l...)
	}
	for _, r := range p.reads {
		ts = append(ts, version(e.cur.get(r.key, r.srt, r.meta)))
	}
	return boolVal(App("machine:"+p.name, SBool, ts...))
}

// version: a number that tells apart the contents of arrays (equal numbers: equal contents).
func version(t *Term) *Term {
	if !strings.HasPrefix(t.sort, "[") {
		return t
	}
	switch t.op {
	case "ite":
		return Ite(t.args[0], version(t.args[1]), version(t.args[2]))
	case "store":
		return App("ver:store:"+t.args[1].sort+":"+arrVal(t.sort), SInt, version(t.args[0]), t.args[1], version(t.args[2]))
	case "select":
		return App("ver:row:"+t.args[1].sort, SInt, version(t.args[0]), t.args[1])
	}
	return baseVar("ver!"+strconv.Itoa(t.id), SInt, nil, t.birth)
}

// neutral: the expression means the same whether machine words are integers or bit vectors.
func (pg *Program) neutral(n *Node) bool {
	switch n.op {
	case "un":
		if n.s == "-" {
			return false
		}
	case "bin":
		switch n.s {
		case "&&", "||", "==>", "<==>", "==", "!=", "<", "<=", ">", ">=":
		default:
			return false
		}
	case "call":
		switch n.s {
		case "len", "has", "old", "fresh", "held", "ref", "array", "istype", "as", "at", "entry", "head", "zero":
		default:
			p := pg.pures[n.s]
			if p == nil || !p.machine && !pg.neutral(p.body) {
				return false
			}
		}
	}
	for _, k := range n.kids {
		if k != nil && !pg.neutral(k) {
			return false
		}
	}
	return true
}

func (e *SpecEnv) equal(a, b Val) *Term {
	if isNilT(b.t) {
		a, b = b, a
	}
	if isNilT(a.t) {
		if isNilT(b.t) {
			return TTrue
		}
		if b.addr != nil {
			return TFalse
		}
		switch b.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
			return Eq(b.l[0], I(0))
		case *types.Struct:
			return TFalse
		}
		if b.t == refT {
			return Eq(b.l[0], I(0))
		}
		panic(specErr("nil compared with %s", b.t))
	}
	a, b = e.unify(a, b)
	if isIface(a.t) && isIface(b.t) {
		return And(Eq(a.l[0], b.l[0]), Eq(a.l[1], b.l[1]))
	}
	if isIface(a.t) && len(b.l) == 1 && isPtrLike(b.t) {
		return And(Eq(a.l[0], e.ex.pg.typeTag(b.t)), Eq(a.l[1], b.l[0]))
	}
	if isIface(b.t) && len(a.l) == 1 && isPtrLike(a.t) {
		return And(Eq(b.l[0], e.ex.pg.typeTag(a.t)), Eq(b.l[1], a.l[0]))
	}
	if len(a.l) != len(b.l) {
		panic(specErr("== of %s and %s", a.t, b.t))
	}
	for i := range a.l {
		if a.l[i].sort != b.l[i].sort {
			panic(specErr("== of %s and %s", a.t, b.t))
		}
	}
	return eqVal(a, b)
}

func (e *SpecEnv) sel(n *Node) Val {
	// package-qualified name
	if k := n.kids[0]; k.op == "ident" {
		if _, isVar := e.vars[k.s]; !isVar {
			if p := e.ex.pg.pkgs[k.s]; p != nil {
				o := p.Scope().Lookup(n.s)
				switch x := o.(type) {
				case *types.Const:
					if b, ok := x.Type().(*types.Basic); ok && b.Kind() == types.UntypedInt {
						return Val{t: untypedT, l: []*Term{IBig(bigOf(constant.ToInt(x.Val())))}}
					}
					return constOf(x.Type(), x.Val())
				case *types.Var:
					sp := e.ex.pg.prog.Package(p)
					if sp != nil {
						if g := sp.Var(n.s); g != nil {
							pv := Val{t: g.Type(), l: []*Term{e.ex.pg.globalRef(g)}}
							return e.ex.load(e.cur, addrOf(pv), derefType(g.Type()))
						}
					}
				}
				panic(specErr("unknown %s.%s", k.s, n.s))
			}
		}
	}
	x := e.eval(n.kids[0])
	return e.field(x, n.s)
}

func (e *SpecEnv) fieldAddr(x Val, name string) (*Addr, types.Type) {
	t := derefType(x.t)
	a := addrOf(x)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(specErr("%s has no fields", t))
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return &Addr{prefix: a.prefix + "." + name, base: a.base, idx: a.idx}, f.Type()
		}
	}
	// promoted
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		if sf, ok := f.Type().Underlying().(*types.Struct); ok && hasField(sf, name) {
			na := &Addr{prefix: a.prefix + "." + f.Name(), base: a.base, idx: a.idx}
			return e.fieldAddr(Val{t: types.NewPointer(f.Type()), l: []*Term{x.l[0]}, addr: na}, name)
		}
	}
	panic(specErr("no field %s in %s", name, t))
}
func hasField(s *types.Struct, name string) bool {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name {
			return true
		}
		if f.Embedded() {
			if sf, ok := f.Type().Underlying().(*types.Struct); ok && hasField(sf, name) {
				return true
			}
		}
	}
	return false
}

func (e *SpecEnv) field(x Val, name string) Val {
	if _, ok := x.t.Underlying().(*types.Pointer); ok {
		a, t := e.fieldAddr(x, name)
		return e.ex.load(e.cur, a, t)
	}
	if st, ok := x.t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				a, b := fieldRange(st, i)
				v := Val{t: st.Field(i).Type(), l: x.l[a:b]}
				e.ex.recall(&v)
				return v
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if sf, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && hasField(sf, name) {
				a, b := fieldRange(st, i)
				return e.field(Val{t: f.Type(), l: x.l[a:b]}, name)
			}
		}
	}
	panic(specErr("no field %s in %s", name, x.t))
}

func (e *SpecEnv) toIdx(v Val) *Term {
	if v.t == untypedT {
		if bvMode {
			return BVc(v.l[0].val, "BV64")
		}
		return v.l[0]
	}
	return e.ex.toIdx(v)
}

func keyTerm(v Val) *Term {
	return v.l[len(v.l)-1]
}

func (e *SpecEnv) index(n *Node) Val {
	if k := n.kids[0]; k.op == "ident" {
		if _, isVar := e.vars[k.s]; !isVar {
			if g := e.ex.pg.ghosts[k.s]; g != nil && g.key != "" {
				kv := e.eval(n.kids[1])
				if kv.t == untypedT {
					kv = e.coerceLit(kv, e.typeOf(g.key))
				}
				return e.ghostGet(g, keyTerm(kv))
			}
		}
	}
	x := e.eval(n.kids[0])
	iv := e.eval(n.kids[1])
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		i := e.toIdx(iv)
		return e.ex.load(e.cur, &Addr{prefix: elemPrefix(u.Elem()), base: x.l[0], idx: Add(x.l[1], i)}, u.Elem())
	case *types.Array:
		i := e.toIdx(iv)
		r := Val{t: u.Elem()}
		for _, l := range x.l {
			r.l = append(r.l, Select(l, i))
		}
		return r
	case *types.Map:
		if iv.t == untypedT {
			iv = e.coerceLit(iv, u.Key())
		}
		k := iv.one()
		has := e.ex.mapHas(e.cur, x, k)
		v := e.ex.mapGet(e.cur, x, k)
		z := zeroVal(v.t)
		r := Val{t: v.t}
		for i := range v.l {
			r.l = append(r.l, Ite(has, v.l[i], z.l[i]))
		}
		return r
	case *types.Basic:
		if isString(x.t) {
			bt := types.Typ[types.Uint8]
			return Val{t: bt, l: []*Term{e.ex.strAt(x.one(), e.toIdx(iv))}}
		}
	}
	panic(specErr("index of %s", x.t))
}

func (e *SpecEnv) callExpr(n *Node) Val {
	arg := func(i int) Val {
		if i >= len(n.kids) {
			panic(specErr("%s: too few arguments", n.s))
		}
		return e.eval(n.kids[i])
	}
	switch n.s {
	case "old":
		if e.old == nil {
			panic(specErr("old() not available here"))
		}
		return e.at(e.old).eval(n.kids[0])
	case "entry":
		if e.entry == nil {
			panic(specErr("entry() not available here"))
		}
		return e.at(e.entry).eval(n.kids[0])
	case "head":
		if e.head == nil {
			panic(specErr("head() not available here"))
		}
		return e.at(e.head).eval(n.kids[0])
	case "len":
		v := arg(0)
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return Val{t: intT, l: []*Term{v.l[2]}}
		case *types.Basic:
			return Val{t: intT, l: []*Term{e.ex.strLen(v.one())}}
		case *types.Array:
			return Val{t: intT, l: []*Term{idxConst(u.Len())}}
		}
		panic(specErr("len of %s", v.t))
	case "cap":
		v := arg(0)
		return Val{t: intT, l: []*Term{v.l[3]}}
	case "has":
		m := arg(0)
		k := arg(1)
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			if k.t == untypedT {
				k = e.coerceLit(k, mt.Key())
			}
			return boolVal(e.ex.mapHas(e.cur, m, k.one()))
		}
		if isNamed(m.t, "sync.Map") {
			return boolVal(Select(m.l[0], k.one()))
		}
		panic(specErr("has on %s", m.t))
	case "visited": // the key was visited by the map iteration of this loop
		k := arg(0)
		if e.iter == "" {
			return boolVal(TFalse)
		}
		return boolVal(Select(e.ex.getScalar(e.cur, e.iter, arrSort(k.one().sort, SBool)), k.one()))
	case "at": // sync.Map value at a string key, as an interface
		m := arg(0)
		k := arg(1)
		if !isNamed(m.t, "sync.Map") {
			panic(specErr("at on %s", m.t))
		}
		return Val{t: types.NewInterfaceType(nil, nil), l: []*Term{Select(m.l[1], k.one()), Select(m.l[2], k.one())}}
	case "istype":
		v := arg(0)
		t := e.typeOf(n.kids[1].s)
		if !isIface(v.t) {
			return boolVal(B(types.Identical(v.t, t)))
		}
		return boolVal(e.ex.hasType(v, t))
	case "as":
		v := arg(0)
		t := e.typeOf(n.kids[1].s)
		if !isIface(v.t) {
			v.t = t
			return v
		}
		return e.ex.unbox(e.cur, v, t)
	case "zero":
		return zeroVal(e.typeOf(n.kids[0].s))
	case "ref":
		v := arg(0)
		return Val{t: refT, l: []*Term{keyTerm(v)}}
	case "owner": // the object an interior pointer points into
		v := arg(0)
		if v.addr != nil {
			return Val{t: refT, l: []*Term{v.addr.base}}
		}
		return Val{t: refT, l: []*Term{v.l[0]}}
	case "array": // backing array reference of a slice
		v := arg(0)
		return Val{t: refT, l: []*Term{v.l[0]}}
	case "offset":
		v := arg(0)
		return Val{t: intT, l: []*Term{v.l[1]}}
	case "fresh":
		v := arg(0)
		if e.oldMark == nil {
			panic(specErr("fresh() not available here"))
		}
		k := v.l[0]
		if isIface(v.t) {
			k = v.l[1]
		}
		return boolVal(Le(e.oldMark, k))
	case "allocated": // exists by now
		v := arg(0)
		k := v.l[0]
		if isIface(v.t) {
			k = v.l[1]
		}
		return boolVal(Lt(k, Add(e.ex.levels[e.cur.level], I(e.ex.allocN+1))))
	case "held":
		v := arg(0)
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			v = e.ex.load(e.cur, addrOf(v), derefType(v.t))
		}
		return boolVal(v.one())
	case "wrap16", "wrap32":
		v := arg(0)
		b := uint(16)
		t := types.Typ[types.Uint16]
		if n.s == "wrap32" {
			b = 32
			t = types.Typ[types.Uint32]
		}
		return Val{t: t, l: []*Term{EMod(v.one(), IBig(pow2(b)))}}
	case "abs":
		v := arg(0)
		return Val{t: v.t, l: []*Term{Ite(Le(I(0), v.one()), v.one(), Sub(I(0), v.one()))}}
	case "real":
		v := arg(0)
		if v.l[0].op == "const" {
			return Val{t: types.Typ[types.Float64], l: []*Term{RConst(new(big.Rat).SetInt(v.l[0].val))}}
		}
		return Val{t: types.Typ[types.Float64], l: []*Term{mk("to_real", SReal, "", nil, v.one())}}
	}
	if p := e.ex.pg.pures[n.s]; p != nil {
		if len(n.kids) != len(p.params) {
			panic(specErr("%s takes %d arguments", n.s, len(p.params)))
		}
		m := map[string]Val{}
		var as []Val
		for i, nm := range p.params {
			m[nm] = arg(i)
			as = append(as, m[nm])
		}
		if p.machine && !bvMode && !e.lenient {
			return e.opaque(p, as)
		}
		ne := *e
		ne.vars = m
		for _, k := range []string{"result"} {
			if v, ok := e.vars[k]; ok {
				ne.vars[k] = v
			}
		}
		return ne.eval(p.body)
	}
	if u := e.ex.pg.ufs[n.s]; u != nil {
		var as []*Term
		for i := range n.kids {
			v := arg(i)
			if v.t == untypedT && i < len(u.args) {
				v = e.coerceLit(v, e.typeOf(u.args[i]))
			}
			as = append(as, v.l...)
		}
		t := e.typeOf(u.res)
		ls := leavesOf(t)
		if len(ls) != 1 {
			r := Val{t: t}
			for i, l := range ls {
				r.l = append(r.l, App(fmt.Sprintf("%s#%d", n.s, i), l.sort, as...))
			}
			return r
		}
		return Val{t: t, l: []*Term{App(n.s, ls[0].sort, as...)}}
	}
	// library function symbols shared with the code
	switch n.s {
	case "errtext":
		v := arg(0)
		return Val{t: stringT, l: []*Term{App("error.Error", SStr, v.l[0], v.l[1])}}
	}
	// conversion
	func() {
		defer func() { recover() }()
	}()
	t := e.tryType(n.s)
	if t != nil {
		v := arg(0)
		if v.t == untypedT {
			return e.coerceLit(v, t)
		}
		return e.ex.convert(nil, e.cur, v, t)
	}
	panic(specErr("unknown function %s", n.s))
}

func (e *SpecEnv) tryType(s string) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	return e.typeOf(s)
}

var constOne = constant.MakeInt64(1)

func big64(n int64) *big.Int { return big.NewInt(n) }
