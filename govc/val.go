package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bvMode bool

// Leaf is one scalar component of a Go value.
type Leaf struct {
	path string
	sort string
	meta Meta
	typ  types.Type // the Go type this leaf comes from
}

var leafCache = map[string][]Leaf{}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intBits(b *types.Basic) (bits uint, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isIntType(t types.Type) (bits uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	return intBits(b)
}

func idxSort() string {
	if bvMode {
		return "BV64"
	}
	return SInt
}
func idxConst(n int64) *Term {
	if bvMode {
		return BVc(big.NewInt(n), "BV64")
	}
	return I(n)
}

var opaqueTypes = map[string][]Leaf{}

func lenMeta() Meta { return Meta{lo: big.NewInt(0), hi: pow2(47)} }

func leavesOf(t types.Type) []Leaf {
	k := typeKey(t)
	if bvMode {
		k = "bv:" + k
	}
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := computeLeaves(t)
	leafCache[k] = l
	return l
}

func isNamed(t types.Type, full string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isNamed(types.Unalias(a), full)
		}
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path()+"."+o.Name() == full
}

func computeLeaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isNamed(t, "time.Time") {
		return []Leaf{{"", SInt, Meta{}, t}}
	}
	if isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex") {
		return []Leaf{{"", SBool, Meta{}, t}}
	}
	if isNamed(t, "sync.Map") {
		return []Leaf{{"#dom", arrSort(SStr, SBool), Meta{}, t}, {"#vt", arrSort(SStr, SInt), Meta{lo: big.NewInt(0)}, t}, {"#vr", arrSort(SStr, SInt), Meta{isRef: true}, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return []Leaf{{"", SBool, Meta{}, t}}
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return []Leaf{{"", SStr, Meta{}, t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, Meta{}, t}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, Meta{isRef: true}, t}}
		}
		if bits, signed, ok := intBits(u); ok {
			if bvMode {
				return []Leaf{{"", fmt.Sprintf("BV%d", bits), Meta{}, t}}
			}
			m := Meta{lo: big.NewInt(0), hi: new(big.Int).Sub(pow2(bits), big.NewInt(1))}
			if signed {
				m.lo = new(big.Int).Neg(pow2(bits - 1))
				m.hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
			}
			return []Leaf{{"", SInt, m, t}}
		}
		return []Leaf{{"", SInt, Meta{}, t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, Meta{isRef: true}, t}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, Meta{lo: big.NewInt(0)}, t}, {"#r", SInt, Meta{isRef: true}, t}}
	case *types.Slice:
		if bvMode {
			return []Leaf{{"#a", SInt, Meta{isRef: true}, t}, {"#o", "BV64", Meta{}, t}, {"#l", "BV64", Meta{}, t}, {"#c", "BV64", Meta{}, t}}
		}
		return []Leaf{{"#a", SInt, Meta{isRef: true}, t}, {"#o", SInt, lenMeta(), t}, {"#l", SInt, lenMeta(), t}, {"#c", SInt, lenMeta(), t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.path, l.sort, l.meta, l.typ})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, Leaf{"[]" + l.path, arrSort(idxSort(), l.sort), l.meta, l.typ})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.meta, l.typ})
			}
		}
		return out
	case *types.TypeParam:
		return []Leaf{{"", SInt, Meta{}, t}}
	}
	panic(fmt.Sprintf("leavesOf %T %s", t, t))
}

// Addr is a location: heap key prefix + base reference (+ element index).
type Addr struct {
	prefix string
	base   *Term
	idx    *Term // element index for prefixes denoting element arrays
}

// FuncVal is a statically known function value.
type FuncVal struct {
	fn   *ssa.Function
	free []Val
	// bound method / interface method values carry the receiver in free[0]
}

// Val is a Go value: the vector of its leaves, plus static knowledge.
type Val struct {
	cell bool // in a specification: the address of a captured variable
	t    types.Type
	l    []*Term
	addr *Addr
	fn   *FuncVal
}

func (v Val) one() *Term {
	if len(v.l) != 1 {
		panic(fmt.Sprintf("value of type %v has %d leaves", v.t, len(v.l)))
	}
	return v.l[0]
}

// field offset of struct field i within the leaves.
func fieldRange(st *types.Struct, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(leavesOf(st.Field(k).Type()))
	}
	return off, off + len(leavesOf(st.Field(i).Type()))
}
func tupleRange(tp *types.Tuple, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(leavesOf(tp.At(k).Type()))
	}
	return off, off + len(leavesOf(tp.At(i).Type()))
}

func zeroLeaf(l Leaf) *Term {
	if strings.HasPrefix(l.sort, "[") {
		inner := Leaf{l.path, arrVal(l.sort), l.meta, l.typ}
		return ConstArr(l.sort, zeroLeaf(inner))
	}
	switch {
	case l.sort == SBool:
		return TFalse
	case l.sort == SInt:
		return I(0)
	case l.sort == SReal:
		return RConst(new(big.Rat))
	case l.sort == SStr:
		return StrConst("")
	case isBV(l.sort):
		return BVc(big.NewInt(0), l.sort)
	}
	panic("zeroLeaf " + l.sort)
}

func zeroVal(t types.Type) Val {
	ls := leavesOf(t)
	v := Val{t: t, l: make([]*Term, len(ls))}
	for i, l := range ls {
		v.l[i] = zeroLeaf(l)
	}
	return v
}

func iteVal(c *Term, a, b Val) Val {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if len(a.l) != len(b.l) {
		panic(fmt.Sprintf("iteVal %v %v", a.t, b.t))
	}
	r := Val{t: a.t, l: make([]*Term, len(a.l))}
	for i := range a.l {
		r.l[i] = Ite(c, a.l[i], b.l[i])
	}
	if a.fn != nil && b.fn != nil && a.fn.fn == b.fn.fn && len(a.fn.free) == len(b.fn.free) {
		f := &FuncVal{fn: a.fn.fn}
		for i := range a.fn.free {
			f.free = append(f.free, iteVal(c, a.fn.free[i], b.fn.free[i]))
		}
		r.fn = f
	}
	if a.addr != nil || b.addr != nil {
		if a.addr != nil && b.addr != nil && a.addr.prefix == b.addr.prefix && (a.addr.idx == nil) == (b.addr.idx == nil) {
			n := &Addr{prefix: a.addr.prefix, base: Ite(c, a.addr.base, b.addr.base)}
			if a.addr.idx != nil {
				n.idx = Ite(c, a.addr.idx, b.addr.idx)
			}
			r.addr = n
		} else if sameTerms(a, b) {
			r.addr = a.addr
		} else {
			panic(unsupported("merge of different interior pointers"))
		}
	}
	return r
}
func sameTerms(a, b Val) bool {
	for i := range a.l {
		if a.l[i] != b.l[i] {
			return false
		}
	}
	return (a.addr == nil) == (b.addr == nil)
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}
func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func eqVal(a, b Val) *Term {
	if len(a.l) != len(b.l) {
		panic(fmt.Sprintf("eqVal %v %v", a.t, b.t))
	}
	var cs []*Term
	for i := range a.l {
		if strings.HasPrefix(a.l[i].sort, "[") {
			panic(unsupported("comparison of arrays"))
		}
		cs = append(cs, Eq(a.l[i], b.l[i]))
	}
	return And(cs...)
}

func derefType(t types.Type) types.Type {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		panic(fmt.Sprintf("deref of %s", t))
	}
	return p.Elem()
}

// addrOf gives the location a pointer value denotes.
func addrOf(v Val) *Addr {
	if v.addr != nil {
		return v.addr
	}
	root := derefType(v.t)
	if a, ok := root.Underlying().(*types.Array); ok && !isOpaque(root) {
		return &Addr{prefix: "[]" + typeKey(a.Elem()) + "|arr", base: v.l[0]}
	}
	return &Addr{prefix: typeKey(root), base: v.l[0]}
}
func isOpaque(t types.Type) bool {
	return isNamed(t, "time.Time") || isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex") || isNamed(t, "sync.Map")
}

func elemPrefix(elem types.Type) string { return "[]" + typeKey(elem) }
