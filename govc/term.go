package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term. Arrays are never emitted as such unless they are
// base symbols: select over store/ite/lam is always resolved when the term is built.
type Term struct {
	id    int
	op    string // var const true false str and or not ite = < <= + * select store lam app forall exists bound + bv ops
	args  []*Term
	sort  string
	name  string
	val   *big.Int
	lam   func(*Term) *Term
	birth int  // newest symbol contained
	bound bool // contains a bound variable
	q     int8 // quantifiers inside: 0 unknown 1 no 2 yes
	meta  *Meta
}

// Meta describes what is known about the values of a symbol (or of the leaves of an array symbol).
type Meta struct {
	lo, hi *big.Int
	isRef  bool
	level  int // refs: value < allocSyms[level]
	alloc  bool
	nonneg bool
}

const (
	SBool = "Bool"
	SInt  = "Int"
	SReal = "Real"
	SStr  = "Str"
)

func arrSort(k, v string) string { return "[" + k + "]" + v }
func arrVal(s string) string {
	i := strings.IndexByte(s, ']')
	return s[i+1:]
}
func arrKey(s string) string {
	i := strings.IndexByte(s, ']')
	return s[1:i]
}
func isBV(s string) bool { return strings.HasPrefix(s, "BV") }
func bvWidth(s string) int {
	n, _ := strconv.Atoi(s[2:])
	return n
}
func smtSort(s string) string {
	if strings.HasPrefix(s, "[") {
		return "(Array " + smtSort(arrKey(s)) + " " + smtSort(arrVal(s)) + ")"
	}
	if isBV(s) {
		return "(_ BitVec " + s[2:] + ")"
	}
	return s
}

var (
	terms     = map[string]*Term{}
	termCount int
	symCount  int
	selCache  = map[[2]int]*Term{}
	TTrue     *Term
	TFalse    *Term
)

func resetTerms() {
	terms = map[string]*Term{}
	selCache = map[[2]int]*Term{}
	termCount = 0
	symCount = 0
	TTrue = mk("true", SBool, "", nil)
	TFalse = mk("false", SBool, "", nil)
}

func mk(op, srt, name string, val *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	if val != nil {
		sb.WriteString(val.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := terms[k]; ok {
		return t
	}
	t := &Term{id: termCount, op: op, args: args, sort: srt, name: name, val: val}
	termCount++
	for _, a := range args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		if a.bound {
			t.bound = true
		}
	}
	terms[k] = t
	return t
}

func newVar(prefix, srt string, meta *Meta) *Term {
	symCount++
	t := mk("var", srt, prefix+"!"+strconv.Itoa(symCount), nil)
	t.birth = symCount
	t.meta = meta
	return t
}
func newBound(prefix, srt string) *Term {
	symCount++
	t := mk("bound", srt, prefix+"?"+strconv.Itoa(symCount), nil)
	t.bound = true
	return t
}
// baseVar makes (or finds) a symbol by name.
func baseVar(name, srt string, meta *Meta, birth int) *Term {
	t := mk("var", srt, name, nil)
	if t.meta == nil {
		t.meta = meta
	}
	if t.birth == 0 {
		t.birth = birth
	}
	return t
}

func I(n int64) *Term        { return mk("const", SInt, "", big.NewInt(n)) }
func IBig(n *big.Int) *Term  { return mk("const", SInt, "", n) }
func RConst(r *big.Rat) *Term {
	t := mk("rconst", SReal, r.RatString(), nil)
	return t
}
func BVc(n *big.Int, srt string) *Term {
	w := uint(bvWidth(srt))
	m := new(big.Int).Lsh(big.NewInt(1), w)
	v := new(big.Int).Mod(n, m)
	return mk("const", srt, "", v)
}
func StrConst(s string) *Term { return mk("str", SStr, strconv.Quote(s), nil) }
func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func App(name, srt string, args ...*Term) *Term { return mk("app", srt, name, nil, args...) }

func Lam(srt string, birth int, f func(*Term) *Term) *Term {
	symCount++
	t := mk("lam", srt, strconv.Itoa(symCount), nil)
	t.lam = f
	t.birth = birth
	return t
}

func (t *Term) isConst() bool { return t.op == "const" }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, "", nil, a)
}

func flatten(op string, in []*Term, out *[]*Term, seen map[int]bool) {
	for _, a := range in {
		if a.op == op {
			flatten(op, a.args, out, seen)
		} else if !seen[a.id] {
			seen[a.id] = true
			*out = append(*out, a)
		}
	}
}

func And(in ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	flatten("and", in, &out, seen)
	res := out[:0]
	for _, a := range out {
		if a == TTrue {
			continue
		}
		if a == TFalse {
			return TFalse
		}
		if a.op == "not" && seen[a.args[0].id] {
			return TFalse
		}
		res = append(res, a)
	}
	switch len(res) {
	case 0:
		return TTrue
	case 1:
		return res[0]
	}
	res = append([]*Term(nil), res...)
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	return mk("and", SBool, "", nil, res...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t == TTrue {
		return nil
	}
	return []*Term{t}
}

// factor returns the common conjuncts of ts and the remainders.
func factor(ts []*Term) (common []*Term, rem []*Term) {
	if len(ts) == 0 {
		return nil, nil
	}
	cnt := map[int]int{}
	for _, t := range ts {
		for _, c := range conj(t) {
			cnt[c.id]++
		}
	}
	for _, c := range conj(ts[0]) {
		if cnt[c.id] == len(ts) {
			common = append(common, c)
		}
	}
	for _, t := range ts {
		var r []*Term
		for _, c := range conj(t) {
			if cnt[c.id] != len(ts) {
				r = append(r, c)
			}
		}
		rem = append(rem, And(r...))
	}
	return
}

func Or(in ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	flatten("or", in, &out, seen)
	var res []*Term
	for _, a := range out {
		if a == TFalse {
			continue
		}
		if a == TTrue {
			return TTrue
		}
		if a.op == "not" && seen[a.args[0].id] {
			return TTrue
		}
		res = append(res, a)
	}
	switch len(res) {
	case 0:
		return TFalse
	case 1:
		return res[0]
	}
	// pairwise absorption: (c & b) | (c & !b) = c ; (c&b)|c = c
	changed := true
	for changed && len(res) > 1 {
		changed = false
	outer:
		for i := 0; i < len(res); i++ {
			for j := i + 1; j < len(res); j++ {
				if res[i].op != "and" && res[j].op != "and" {
					continue
				}
				com, rem := factor([]*Term{res[i], res[j]})
				var m *Term
				if rem[0] == TTrue || rem[1] == TTrue {
					m = And(com...)
				} else if len(com) > 0 && Not(rem[0]) == rem[1] {
					m = And(com...)
				}
				if m != nil {
					res[i] = m
					res = append(res[:j], res[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	if len(res) == 1 {
		return res[0]
	}
	com, rem := factor(res)
	if len(com) > 0 {
		return And(append(append([]*Term{}, com...), Or(rem...))...)
	}
	seen2 := map[int]bool{}
	for _, r := range res {
		seen2[r.id] = true
		if r == TTrue {
			return TTrue
		}
	}
	for _, r := range res {
		if r.op == "not" && seen2[r.args[0].id] {
			return TTrue
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	return mk("or", SBool, "", nil, res...)
}

func Implies(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b.op == "and" && len(b.args) < 8 {
		// keep as one implication
	}
	return Or(Not(a), b)
}

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", a.sort, "", nil, c, a, b)
}

// ---- linear integer arithmetic normal form ----

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}
func addLin(l *lin, t *Term, k *big.Int) {
	switch {
	case t.op == "const":
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
	case t.op == "+":
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case t.op == "*" && t.args[0].op == "const":
		addLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].val))
	default:
		if o, ok := l.co[t]; ok {
			o = new(big.Int).Add(o, k)
			if o.Sign() == 0 {
				delete(l.co, t)
			} else {
				l.co[t] = o
			}
		} else {
			l.co[t] = new(big.Int).Set(k)
		}
	}
}
func (l lin) term() *Term {
	if len(l.co) == 0 {
		return IBig(l.c)
	}
	keys := make([]*Term, 0, len(l.co))
	for k := range l.co {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var parts []*Term
	for _, k := range keys {
		co := l.co[k]
		if co.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, k)
		} else {
			parts = append(parts, mk("*", SInt, "", nil, IBig(co), k))
		}
	}
	if l.c.Sign() != 0 {
		parts = append(parts, IBig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", SInt, "", nil, parts...)
}

func Add(a, b *Term) *Term {
	if a.sort == SReal {
		return mk("r+", SReal, "", nil, a, b)
	}
	if isBV(a.sort) {
		return bvBin("bvadd", a, b)
	}
	l := toLin(a)
	addLin(&l, b, big.NewInt(1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return mk("r-", SReal, "", nil, a, b)
	}
	if isBV(a.sort) {
		return bvBin("bvsub", a, b)
	}
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return mk("r*", SReal, "", nil, a, b)
	}
	if isBV(a.sort) {
		return bvBin("bvmul", a, b)
	}
	if b.op == "const" {
		a, b = b, a
	}
	if a.op == "const" {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		if a.val.Sign() != 0 {
			addLin(&l, b, a.val)
		}
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, "", nil, a, b)
}

// Div and Mod: Euclidean (SMT) versions on Int.
func EDiv(a, b *Term) *Term {
	if a.op == "const" && b.op == "const" && b.val.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.val, b.val, new(big.Int))
		return IBig(q)
	}
	if b.op == "const" && b.val.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("div", SInt, "", nil, a, b)
}
func EMod(a, b *Term) *Term {
	if a.op == "const" && b.op == "const" && b.val.Sign() > 0 {
		return IBig(new(big.Int).Mod(a.val, b.val))
	}
	if b.op == "const" && b.val.Sign() > 0 {
		// drop multiples of b in the linear form, and mod terms of the same modulus
		l := toLin(a)
		l2 := lin{new(big.Int).Mod(l.c, b.val), map[*Term]*big.Int{}}
		for k, co := range l.co {
			r := new(big.Int).Mod(co, b.val)
			if r.Sign() == 0 {
				continue
			}
			// prefer small negative coefficient
			if new(big.Int).Sub(b.val, r).Cmp(r) < 0 {
				r.Sub(r, b.val)
			}
			if k.op == "mod" && k.args[1] == b {
				addLin(&l2, k.args[0], r)
			} else {
				addLin(&l2, k, r)
			}
		}
		l2.c.Mod(l2.c, b.val)
		a = l2.term()
		if a.op == "const" {
			return IBig(new(big.Int).Mod(a.val, b.val))
		}
		if lo, hi := rangeOf(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.val) < 0 {
			return a
		}
	}
	return mk("mod", SInt, "", nil, a, b)
}

// rangeOf gives a syntactic range of an Int term from symbol metadata.
func rangeOf(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "const":
		return t.val, t.val
	case "var", "select":
		if m := baseMeta(t); m != nil && !m.isRef {
			return m.lo, m.hi
		}
	case "mod":
		if t.args[1].op == "const" && t.args[1].val.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].val, big.NewInt(1))
		}
	case "ite":
		a, b := rangeOf(t.args[1])
		c, d := rangeOf(t.args[2])
		if a == nil || b == nil || c == nil || d == nil {
			return nil, nil
		}
		if c.Cmp(a) < 0 {
			a = c
		}
		if d.Cmp(b) > 0 {
			b = d
		}
		return a, b
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, x := range t.args {
			k := big.NewInt(1)
			if x.op == "*" && x.args[0].op == "const" {
				k = x.args[0].val
				x = x.args[1]
			}
			a, b := rangeOf(x)
			if a == nil || b == nil {
				return nil, nil
			}
			if k.Sign() < 0 {
				a, b = b, a
			}
			lo.Add(lo, new(big.Int).Mul(a, k))
			hi.Add(hi, new(big.Int).Mul(b, k))
		}
		return lo, hi
	}
	return nil, nil
}

func baseMeta(t *Term) *Meta {
	for t.op == "select" {
		t = t.args[0]
	}
	if t.op == "var" {
		return t.meta
	}
	return nil
}

// selBase is the first index of a chain of selects.
func selBase(t *Term) *Term {
	for t.args[0].op == "select" {
		t = t.args[0]
	}
	return t.args[1]
}

// refLevel: ok if t is known to be < allocSym(level).
func refLevel(t *Term) (int, bool) {
	switch t.op {
	case "const":
		return -1, true
	case "var":
		if m := t.meta; m != nil && m.isRef {
			return m.level, true
		}
	case "select":
		// a reference read from memory as it was at some level: for an object that existed then it
		// is older than that level; for one allocated later (by a callee) no newer than that object's level
		m := baseMeta(t)
		if m == nil || !m.isRef {
			return 0, false
		}
		b := selBase(t)
		if b.sort != SInt {
			return m.level, true
		}
		lv, ok := refLevel(b)
		if !ok {
			lv, ok = freshRef(b)
		}
		if !ok {
			return 0, false
		}
		if lv < m.level {
			lv = m.level
		}
		return lv, true
	case "ite":
		a, ok := refLevel(t.args[1])
		if !ok {
			return 0, false
		}
		b, ok := refLevel(t.args[2])
		if !ok {
			return 0, false
		}
		if b > a {
			a = b
		}
		return a, true
	}
	return 0, false
}

// freshRef: t = allocSym(level)+k, k>=0
func freshRef(t *Term) (int, bool) {
	if t.op == "var" && t.meta != nil && t.meta.alloc {
		return t.meta.level, true
	}
	if t.op == "+" && len(t.args) == 2 && t.args[0].op == "var" && t.args[0].meta != nil && t.args[0].meta.alloc && t.args[1].op == "const" && t.args[1].val.Sign() >= 0 {
		return t.args[0].meta.level, true
	}
	return 0, false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SBool:
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	case SInt:
		l := toLin(a)
		addLin(&l, b, big.NewInt(-1))
		if len(l.co) == 0 {
			return B(l.c.Sign() == 0)
		}
		if lv, ok := freshRef(a); ok {
			if l2, ok := refLevel(b); ok && l2 <= lv {
				return TFalse
			}
		}
		if lv, ok := freshRef(b); ok {
			if l2, ok := refLevel(a); ok && l2 <= lv {
				return TFalse
			}
		}
		if lo, hi := rangeOf(a); lo != nil && hi != nil && b.op == "const" && (b.val.Cmp(lo) < 0 || b.val.Cmp(hi) > 0) {
			return TFalse
		}
		if lo, hi := rangeOf(b); lo != nil && hi != nil && a.op == "const" && (a.val.Cmp(lo) < 0 || a.val.Cmp(hi) > 0) {
			return TFalse
		}
		// ite with constant leaves against a constant
		if a.op == "const" && b.op == "ite" {
			a, b = b, a
		}
		if a.op == "ite" && b.op == "const" && (a.args[1].op == "const" || a.args[2].op == "const") {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return B(a.name == b.name)
		}
		if a.op == "str" && b.op == "ite" {
			a, b = b, a
		}
		if a.op == "ite" && b.op == "str" && (a.args[1].op == "str" || a.args[2].op == "str") {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	default:
		if a.op == "const" && b.op == "const" {
			return B(a.val.Cmp(b.val) == 0)
		}
		if a.op == "rconst" && b.op == "rconst" {
			return B(a.name == b.name)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Le(a, b *Term) *Term {
	if a.sort == SReal {
		return mk("<=", SBool, "", nil, a, b)
	}
	if a == b {
		return TTrue
	}
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	if len(l.co) == 0 {
		return B(l.c.Sign() <= 0)
	}
	if lo, hi := rangeOf(l.term()); lo != nil && hi != nil {
		if hi.Sign() <= 0 {
			return TTrue
		}
		if lo.Sign() > 0 {
			return TFalse
		}
	}
	return mk("<=", SBool, "", nil, a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- bit-vectors ----

func bvBin(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bv sorts %s: %s %s: %s / %s", op, a.sort, b.sort, a, b))
	}
	w := uint(bvWidth(a.sort))
	if a.op == "const" && b.op == "const" {
		x, y := a.val, b.val
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BVc(r.Add(x, y), a.sort)
		case "bvsub":
			return BVc(r.Sub(x, y), a.sort)
		case "bvmul":
			return BVc(r.Mul(x, y), a.sort)
		case "bvand":
			return BVc(r.And(x, y), a.sort)
		case "bvor":
			return BVc(r.Or(x, y), a.sort)
		case "bvxor":
			return BVc(r.Xor(x, y), a.sort)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVc(r, a.sort)
			}
			return BVc(r.Lsh(x, uint(y.Uint64())), a.sort)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVc(r, a.sort)
			}
			return BVc(r.Rsh(x, uint(y.Uint64())), a.sort)
		case "bvudiv":
			if y.Sign() > 0 {
				return BVc(r.Div(x, y), a.sort)
			}
		case "bvurem":
			if y.Sign() > 0 {
				return BVc(r.Mod(x, y), a.sort)
			}
		}
	}
	if b.op == "const" && b.val.Sign() == 0 {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr":
			return a
		}
	}
	if a.op == "const" && a.val.Sign() == 0 {
		switch op {
		case "bvadd", "bvor", "bvxor":
			return b
		}
	}
	// power of two division and remainder
	if b.op == "const" && b.val.Sign() > 0 && new(big.Int).And(b.val, new(big.Int).Sub(b.val, big.NewInt(1))).Sign() == 0 {
		k := b.val.BitLen() - 1
		switch op {
		case "bvudiv":
			return bvBin("bvlshr", a, BVc(big.NewInt(int64(k)), a.sort))
		case "bvurem":
			return bvBin("bvand", a, BVc(new(big.Int).Sub(b.val, big.NewInt(1)), a.sort))
		}
	}
	// (x + c1) + c2
	if op == "bvadd" || op == "bvsub" {
		if b.op == "const" {
			c := b.val
			if op == "bvsub" {
				c = new(big.Int).Neg(c)
			}
			if a.op == "bvadd" && a.args[1].op == "const" {
				s := BVc(new(big.Int).Add(a.args[1].val, c), a.sort)
				if s.val.Sign() == 0 {
					return a.args[0]
				}
				return mk("bvadd", a.sort, "", nil, a.args[0], s)
			}
			return mk("bvadd", a.sort, "", nil, a, BVc(c, a.sort))
		}
		if op == "bvadd" && a.op == "const" {
			return bvBin("bvadd", b, a)
		}
		if op == "bvsub" && a == b {
			return BVc(big.NewInt(0), a.sort)
		}
		if op == "bvsub" && b.op == "bvadd" && b.args[1].op == "const" && b.args[0] == a {
			return BVc(new(big.Int).Neg(b.args[1].val), a.sort)
		}
		if op == "bvsub" && a.op == "bvadd" && a.args[1].op == "const" && a.args[0] == b {
			return a.args[1]
		}
	}
	return mk(op, a.sort, "", nil, a, b)
}
func bvCmp(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bv sorts %s: %s %s: %s / %s", op, a.sort, b.sort, a, b))
	}
	if a.op == "const" && b.op == "const" {
		switch op {
		case "bvult":
			return B(a.val.Cmp(b.val) < 0)
		case "bvule":
			return B(a.val.Cmp(b.val) <= 0)
		case "bvslt":
			return B(sgn(a).Cmp(sgn(b)) < 0)
		case "bvsle":
			return B(sgn(a).Cmp(sgn(b)) <= 0)
		}
	}
	if a == b {
		return B(op == "bvule" || op == "bvsle")
	}
	return mk(op, SBool, "", nil, a, b)
}
func sgn(t *Term) *big.Int {
	w := uint(bvWidth(t.sort))
	v := new(big.Int).Set(t.val)
	if v.Bit(int(w-1)) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), w))
	}
	return v
}
func bvNot(a *Term) *Term {
	if a.op == "const" {
		return BVc(new(big.Int).Not(a.val), a.sort)
	}
	return mk("bvnot", a.sort, "", nil, a)
}
func bvResize(a *Term, to string, signed bool) *Term {
	wa, wb := bvWidth(a.sort), bvWidth(to)
	if wa == wb {
		return a
	}
	if a.op == "const" {
		if signed {
			return BVc(sgn(a), to)
		}
		return BVc(a.val, to)
	}
	if wb < wa {
		if (a.op == "zext" || a.op == "sext") && bvWidth(a.args[0].sort) == wb {
			return a.args[0]
		}
		return mk("extract", to, strconv.Itoa(wb-1), nil, a)
	}
	if signed {
		return mk("sext", to, strconv.Itoa(wb-wa), nil, a)
	}
	return mk("zext", to, strconv.Itoa(wb-wa), nil, a)
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	switch a.op {
	case "lam":
		k := [2]int{a.id, i.id}
		if t, ok := selCache[k]; ok {
			return t
		}
		t := a.lam(i)
		selCache[k] = t
		return t
	case "store", "ite":
		k := [2]int{a.id, i.id}
		if t, ok := selCache[k]; ok {
			return t
		}
		var t *Term
		if a.op == "store" {
			c := Eq(a.args[1], i)
			if c == TTrue {
				t = a.args[2]
			} else {
				r := Select(a.args[0], i)
				t = Ite(c, a.args[2], r)
			}
		} else {
			t = Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		selCache[k] = t
		return t
	}
	if !strings.HasPrefix(a.sort, "[") {
		panic("select on " + a.sort)
	}
	if arrKey(a.sort) != i.sort {
		panic("select index sort " + i.sort + " for " + a.sort + " " + a.String())
	}
	return mk("select", arrVal(a.sort), "", nil, a, i)
}
func Store(a, i, v *Term) *Term {
	if arrKey(a.sort) != i.sort || arrVal(a.sort) != v.sort {
		panic("store sorts " + a.sort + " " + i.sort + " " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if Select(a, i) == v {
		return a
	}
	return mk("store", a.sort, "", nil, a, i, v)
}

// ConstArr is the array with the same value everywhere.
func ConstArr(srt string, v *Term) *Term {
	return Lam(srt, v.birth, func(*Term) *Term { return v })
}

func (t *Term) String() string { return t.show(6) }
func (t *Term) show(d int) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "const":
		return t.val.String()
	case "var", "bound", "str", "rconst":
		return t.name
	case "lam":
		return "λ" + t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	if t.name != "" {
		sb.WriteString(":" + t.name)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.show(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

func Forall(vars []*Term, body *Term) *Term { return quant("forall", vars, body) }
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body) }
func quant(op string, vars []*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	t := mk(op, SBool, "", nil, append(append([]*Term{}, vars...), body)...)
	t.bound = false
	// nested quantifiers: free bound variables of the body other than vars
	free := map[int]bool{}
	collectBound(body, free, map[int]bool{})
	for _, v := range vars {
		delete(free, v.id)
	}
	t.bound = len(free) > 0
	return t
}
func collectBound(t *Term, out, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bound" {
		out[t.id] = true
	}
	if t.op == "forall" || t.op == "exists" {
		inner := map[int]bool{}
		collectBound(t.args[len(t.args)-1], inner, map[int]bool{})
		for _, v := range t.args[:len(t.args)-1] {
			delete(inner, v.id)
		}
		for k := range inner {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		collectBound(a, out, seen)
	}
}

// subst replaces bound/var terms. Lams are rebuilt lazily.
func subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 && t.op != "lam" {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == "lam" {
		r = Lam(t.sort, t.birth, func(i *Term) *Term { return subst(t.lam(i), m, map[int]*Term{}) })
	} else {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t.id] = r
	return r
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return EDiv(a[0], a[1])
	case "mod":
		return EMod(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvudiv", "bvurem", "bvashr", "bvsdiv", "bvsrem":
		return bvBin(t.op, a[0], a[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		return bvCmp(t.op, a[0], a[1])
	case "bvnot":
		return bvNot(a[0])
	case "extract":
		return bvResize(a[0], t.sort, false)
	case "zext":
		return bvResize(a[0], t.sort, false)
	case "sext":
		return bvResize(a[0], t.sort, true)
	case "forall", "exists":
		return quant(t.op, a[:len(a)-1], a[len(a)-1])
	}
	return mk(t.op, t.sort, t.name, t.val, a...)
}
