package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- state ----------

// Base resolves heap keys never written in a state.
type Base struct {
	name  string
	level int
	birth int
	cond  *Term // merged base: cond ? a : b
	a, b  *Base
	rec   func(key, srt string, meta Meta) // told of what is read
}

func (b *Base) get(key, srt string, meta Meta) *Term {
	if b.cond != nil {
		return Ite(b.cond, b.a.get(key, srt, meta), b.b.get(key, srt, meta))
	}
	if b.rec != nil {
		b.rec(key, srt, meta)
	}
	m := meta
	m.level = b.level
	return baseVar("H."+b.name+"."+key, srt, &m, b.birth)
}

type heapCell struct {
	t    *Term
	meta Meta
}

type State struct {
	heap  map[string]heapCell
	base  *Base
	level int
	cond  *Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]heapCell, len(s.heap)+4), base: s.base, level: s.level, cond: s.cond}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) with(c *Term) *State {
	n := s.clone()
	n.cond = And(s.cond, c)
	return n
}

func (s *State) get(key, srt string, meta Meta) *Term {
	if c, ok := s.heap[key]; ok {
		return c.t
	}
	if strings.HasPrefix(key, "released:") {
		return ConstArr(srt, TFalse)
	}
	return s.base.get(key, srt, meta)
}

// mergeStates merges states on mutually exclusive conditions; returns also the selection conditions.
func mergeStates(ss []*State) (*State, []*Term) {
	if len(ss) == 1 {
		return ss[0], []*Term{TTrue}
	}
	conds := make([]*Term, len(ss))
	for i, s := range ss {
		conds[i] = s.cond
	}
	_, rem := factor(conds)
	out := &State{heap: map[string]heapCell{}, cond: Or(conds...)}
	keys := map[string]bool{}
	for _, s := range ss {
		for k := range s.heap {
			keys[k] = true
		}
		if s.level > out.level {
			out.level = s.level
		}
	}
	last := len(ss) - 1
	out.base = ss[last].base
	for i := last - 1; i >= 0; i-- {
		if ss[i].base != out.base {
			out.base = &Base{cond: rem[i], a: ss[i].base, b: out.base}
		}
	}
	for k := range keys {
		var c heapCell
		for _, s := range ss {
			if x, ok := s.heap[k]; ok {
				c = x
				break
			}
		}
		t := ss[last].get(k, c.t.sort, c.meta)
		for i := last - 1; i >= 0; i-- {
			t = Ite(rem[i], ss[i].get(k, c.t.sort, c.meta), t)
		}
		out.heap[k] = heapCell{t, c.meta}
	}
	return out, rem
}

// ---------- obligations ----------

type Fact struct {
	t   *Term
	sel *Cand // loop candidate this fact depends on
}

type Obl struct {
	name   string
	kind   string // safety, requires, ensures, frame, oncall, lock, cand, cover
	tags   []string
	goal   *Term // already includes the guard
	nfacts int
	cand   *Cand
	inst   []*Term // instances this obligation needs in particular
	pos    string
	clause *Clause
	cover  bool // must be satisfiable
	before *Obl // ... unless this one is unsatisfiable already (dead code)
	smoke  bool
	group  int
	result string
	solver string
	secs   float64
	model  string
	reason string
}

type Cand struct {
	id    int
	loop  string
	text  string
	alive bool
	auto  bool
	late  bool // dropped without an answer from a solver
	alt   bool // wanted only when the loop is written in another way ({alt})
}

// ---------- frames ----------

type deferEntry struct {
	call  *ssa.Defer
	args  []Val
	fnv   Val
	cond  *Term
	block *ssa.BasicBlock
}

type retEdge struct {
	st  *State
	val []Val
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	free     []Val
	defers   []*deferEntry
	rets     []retEdge
	panics   []*State
	parent   *Frame
	depth    int
	recovers bool // this frame or an ancestor has a recovering deferred call
	selfRec  bool
	panicing bool
	lastIter map[*ssa.Range]string
	args     []Val
	heads    map[*ssa.BasicBlock]*State // per loop header: the state at the head of the current iteration
	block    *ssa.BasicBlock
}

type Exec struct {
	shared map[*ssa.Alloc]map[ssa.Instruction]bool
	guardDone map[int]bool
	pg       *Program
	c        *Contract
	top      *ssa.Function
	facts    []Fact
	obls     []*Obl
	dry      int
	writes   []writeRec
	allocN   int64
	levels   []*Term
	entry    *State
	topFrame *Frame
	cands    []*Cand
	assumed  map[string]bool
	inlined  map[string]bool
	factSeen map[int]bool
	logic    map[string]Val
	oblNames map[string]int
	curPos   string
	noPanic  bool
	callDepth int
	freeNames map[string]Val
	contractsUsed map[string]bool
	noSafety bool
	exits     []*State
	externals map[string]bool
	params    map[string]Val
	hookHits  map[string]int
	inSchema  map[string]bool
	instTerms []*Term
	okConds   map[int][]*Term
	group     int
}

type writeRec struct {
	key  string
	base *Term
	srt  string
	meta Meta
	all  bool // everything
}

func (ex *Exec) newLevel(st *State) {
	n := len(ex.levels)
	var t *Term
	symCount++
	t = baseVar(fmt.Sprintf("alloc!%d", n), SInt, &Meta{alloc: true, level: n}, symCount)
	ex.levels = append(ex.levels, t)
	st.level = n
}

func (ex *Exec) allocRef(st *State) *Term {
	ex.allocN++
	r := Add(ex.levels[st.level], I(ex.allocN))
	for _, n := range sortedKeys(ex.pg.ghosts) {
		if g := ex.pg.ghosts[n]; g.zero {
			e := &SpecEnv{ex: ex, cur: st}
			v := e.ghostGet(g, r)
			ex.assume(st, Eq(v.one(), zeroVal(v.t).one()))
		}
	}
	return r
}

func (ex *Exec) assume(st *State, t *Term) { ex.fact(Implies(st.cond, t)) }
func (ex *Exec) fact(t *Term) {
	if t == TTrue || ex.dry > 0 && false {
		return
	}
	if ex.factSeen[t.id] {
		return
	}
	ex.factSeen[t.id] = true
	ex.facts = append(ex.facts, Fact{t: t})
}

func (ex *Exec) oblige(st *State, kind, name string, tags []string, goal *Term) *Obl {
	if ex.dry > 0 {
		return nil
	}
	g := Implies(st.cond, goal)
	n := ex.oblNames[name]
	ex.oblNames[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n+1)
	}
	o := &Obl{name: name, kind: kind, tags: tags, goal: g, nfacts: len(ex.facts), pos: ex.curPos}
	ex.obls = append(ex.obls, o)
	return o
}

// safety: condition that must hold or the program panics.
func (ex *Exec) safety(fr *Frame, st *State, what string, ok *Term) {
	if ok == TTrue {
		return
	}
	if fr.recovers {
		bad := st.with(Not(ok))
		if bad.cond != TFalse {
			ex.raise(fr, bad)
		}
		st.cond = And(st.cond, ok)
		return
	}
	if ex.c.MayPanic {
		st.cond = And(st.cond, ok)
		return
	}
	if !ex.noSafety {
		if ex.dry > 0 {
			return
		}
		// already established on a more general path?
		have := conjSet(st.cond)
	next:
		for _, c := range ex.okConds[ok.id] {
			for _, x := range conj(c) {
				if !have[x.id] {
					continue next
				}
			}
			return
		}
		ex.okConds[ok.id] = append(ex.okConds[ok.id], st.cond)
		ex.oblige(st, "safety", ex.fname(fr)+": "+what, ex.c.SafetyTags, ok)
	}
	ex.assume(st, ok)
}

func conjSet(t *Term) map[int]bool {
	m := map[int]bool{}
	for _, c := range conj(t) {
		m[c.id] = true
	}
	return m
}

func (ex *Exec) fname(fr *Frame) string {
	n := shortName(ex.top)
	if fr != nil && fr.fn != ex.top {
		n += " > " + shortName(fr.fn)
	}
	return n
}

func shortName(f *ssa.Function) string {
	s := f.String()
	return shortKey(s)
}
func shortKey(s string) string {
	// strip package paths to their last element
	var sb strings.Builder
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '/':
			start = i + 1
		case '(', '*', ')', ' ', '[', ',':
			sb.WriteString(s[start : i+1])
			start = i + 1
		}
	}
	sb.WriteString(s[start:])
	return sb.String()
}

// raise: a panic happens in state st.
func (ex *Exec) raise(fr *Frame, st *State) {
	if st.cond == TFalse {
		return
	}
	fr.panics = append(fr.panics, st)
}

// ---------- heap access ----------

func (ex *Exec) leafLoc(a *Addr, path string) string {
	if strings.HasSuffix(a.prefix, "|arr") {
		return strings.TrimSuffix(a.prefix, "|arr") + strings.TrimPrefix(path, "[]")
	}
	return a.prefix + path
}

func (ex *Exec) heapSortFor(a *Addr, l Leaf) string {
	if a.idx != nil {
		return arrSort(SInt, arrSort(idxSort(), l.sort))
	}
	return arrSort(SInt, l.sort)
}

func (ex *Exec) load(st *State, a *Addr, t types.Type) Val {
	v := Val{t: t}
	for _, l := range leavesOf(t) {
		h := st.get(ex.leafLoc(a, l.path), ex.heapSortFor(a, l), l.meta)
		x := Select(h, a.base)
		if a.idx != nil {
			x = Select(x, a.idx)
		}
		v.l = append(v.l, x)
	}
	ex.typeFacts(v)
	if _, ok := t.Underlying().(*types.Signature); ok {
		v.fn = ex.pg.knownFunc[v.l[0].id]
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		v.addr = ex.pg.knownAddr[v.l[0].id]
	}
	return v
}

// typeFacts states the cross-leaf facts of freshly read values.
func (ex *Exec) typeFacts(v Val) {
	ex.typeFactsAt(v.t, v.l)
}
func (ex *Exec) typeFactsAt(t types.Type, l []*Term) {
	if isOpaque(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, o, n, c := l[0], l[1], l[2], l[3]
		if n.bound || c.bound || a.bound || o.bound {
			return
		}
		if a.op == "const" && n.op == "const" {
			return
		}
		if _, ok := freshRef(a); ok {
			return
		}
		if bvMode {
			z := idxConst(0)
			lim := BVc(pow2(47), "BV64")
			ex.fact(And(bvCmp("bvule", n, c), bvCmp("bvule", c, lim), bvCmp("bvule", o, lim), bvCmp("bvsle", z, n)))
			ex.fact(Implies(Eq(a, I(0)), Eq(c, z)))
		} else {
			ex.fact(Le(n, c))
			ex.fact(Implies(Eq(a, I(0)), Eq(c, I(0))))
		}
	case *types.Interface:
		if l[0].bound || l[0].op == "const" {
			return
		}
		ex.fact(Implies(Eq(l[0], I(0)), Eq(l[1], I(0))))
	case *types.Struct:
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leavesOf(u.Field(i).Type()))
			ex.typeFactsAt(u.Field(i).Type(), l[off:off+n])
			off += n
		}
	}
}

func (ex *Exec) store(st *State, a *Addr, v Val) {
	for i, l := range leavesOf(v.t) {
		ex.storeLeaf(st, a, l, v.l[i])
	}
	ex.remember(v)
}

func (ex *Exec) remember(v Val) {
	if v.fn != nil && len(v.l) == 1 {
		ex.pg.knownFunc[v.l[0].id] = v.fn
	}
	if v.addr != nil {
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			if v.l[0].op == "const" {
				panic(unsupported("storing an anonymous interior pointer"))
			}
			ex.pg.knownAddr[v.l[0].id] = v.addr
		}
	}
}

func (ex *Exec) storeLeaf(st *State, a *Addr, l Leaf, x *Term) {
	key := ex.leafLoc(a, l.path)
	srt := ex.heapSortFor(a, l)
	h := st.get(key, srt, l.meta)
	var n *Term
	if a.idx != nil {
		n = Store(h, a.base, Store(Select(h, a.base), a.idx, x))
	} else {
		n = Store(h, a.base, x)
	}
	ex.logWrite(key, a.base, srt, l.meta)
	st.heap[key] = heapCell{n, l.meta}
}

func (ex *Exec) logWrite(key string, base *Term, srt string, meta Meta) {
	ex.writes = append(ex.writes, writeRec{key: key, base: base, srt: srt, meta: meta})
}

func (ex *Exec) freshVal(prefix string, t types.Type, level int) Val {
	v := Val{t: t}
	for _, l := range leavesOf(t) {
		m := l.meta
		m.level = level
		v.l = append(v.l, newVar(prefix+l.path, l.sort, &m))
	}
	ex.typeFacts(v)
	return v
}

// havocAt gives fresh contents to the location a of type t.
func (ex *Exec) havocAt(st *State, a *Addr, t types.Type, why string) {
	v := ex.freshVal(why, t, st.level)
	ex.store(st, a, v)
}

// havocAll forgets the whole heap.
func (ex *Exec) havocAll(st *State, why string) {
	ex.newLevel(st)
	symCount++
	st.base = &Base{name: fmt.Sprintf("%s%d", why, symCount), level: st.level, birth: symCount}
	keep := map[string]heapCell{}
	for k, c := range st.heap {
		if strings.HasPrefix(k, "iter|") || strings.HasPrefix(k, "cell!") {
			keep[k] = c
		}
	}
	st.heap = keep
	ex.writes = append(ex.writes, writeRec{all: true})
}

// ---------- executing functions ----------

func (ex *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, lastIter: map[*ssa.Range]string{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.recovers = parent.recovers
	}
	if hasRecover(fn) {
		fr.recovers = true
		fr.selfRec = true
	}
	return fr
}

// hasRecover: fn defers a function that calls recover.
func hasRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				var callee *ssa.Function
				switch v := d.Call.Value.(type) {
				case *ssa.Function:
					callee = v
				case *ssa.MakeClosure:
					callee, _ = v.Fn.(*ssa.Function)
				}
				if callee != nil {
					for _, b2 := range callee.Blocks {
						for _, in2 := range b2.Instrs {
							if c, ok := in2.(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// run executes the body of fr.fn from st; returns the merged normal exit (nil if none).
// Panics that leave the frame are in fr.panics.
func (ex *Exec) run(fr *Frame, st *State) (*State, []Val) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: %s", fn))
	}
	ex.execBlocks(fr, st)
	// panicking exits run the deferred calls
	if len(fr.panics) > 0 && len(fr.defers) > 0 {
		ps := fr.panics
		fr.panics = nil
		for _, p := range ps {
			fr.panicing = true
			s2 := p.clone()
			ex.setScalar(s2, "ghost:#recovered", TFalse)
			s2 = ex.runDefers(fr, s2, nil)
			fr.panicing = false
			rec := ex.getScalar(s2, "ghost:#recovered", SBool)
			if fr.selfRec && rec != TFalse {
				ok := s2.with(rec)
				if ok.cond != TFalse {
					if fn.Recover != nil {
						ex.execRecover(fr, ok)
					} else {
						fr.rets = append(fr.rets, retEdge{ok, zeroResults(fn)})
					}
				}
			}
			no := s2.with(Not(rec))
			if no.cond != TFalse {
				fr.panics = append(fr.panics, no)
			}
		}
	}
	if len(fr.panics) > 1 {
		m, _ := mergeStates(fr.panics)
		fr.panics = []*State{m}
	}
	if len(fr.rets) == 0 {
		return nil, nil
	}
	ss := make([]*State, len(fr.rets))
	for i, r := range fr.rets {
		ss[i] = r.st
	}
	m, rem := mergeStates(ss)
	m = m.clone()
	last := len(ss) - 1
	vals := append([]Val(nil), fr.rets[last].val...)
	for i := last - 1; i >= 0; i-- {
		for k := range vals {
			vals[k] = iteVal(rem[i], fr.rets[i].val[k], vals[k])
		}
	}
	return m, vals
}

func zeroResults(fn *ssa.Function) []Val {
	var out []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, zeroVal(rs.At(i).Type()))
	}
	return out
}

func (ex *Exec) execRecover(fr *Frame, st *State) {
	ex.execBlock(fr, fr.fn.Recover, st, nil, nil)
}

func (ex *Exec) setScalar(st *State, key string, t *Term) {
	srt := arrSort(SInt, t.sort)
	h := st.get(key, srt, Meta{})
	ex.logWrite(key, I(0), srt, Meta{})
	st.heap[key] = heapCell{Store(h, I(0), t), Meta{}}
}
func (ex *Exec) getScalar(st *State, key, srt string) *Term {
	return Select(st.get(key, arrSort(SInt, srt), Meta{}), I(0))
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

// loop structure
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func loopsOf(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock) {
	// topological order ignoring back edges (edges to dominators)
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := loops[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = li
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	n := 0
	for _, b := range order {
		if l := loops[b]; l != nil {
			l.ord = n
			n++
		}
	}
	return loops, order
}

type loopRun struct {
	li      *loopInfo
	header  *State
	cands   []*activeCand
	backs   int
}

type activeCand struct {
	c    *Cand
	eval func(st *State, phis map[*ssa.Phi]Val) *Term
}

func (ex *Exec) execBlocks(fr *Frame, st *State) {
	loops, order := loopsOf(fr.fn)
	in := map[*ssa.BasicBlock][]edge{}
	in[fr.fn.Blocks[0]] = []edge{{nil, st}}
	ex.execRegion(fr, loops, order, in, nil, nil)
}

// execRegion executes the given blocks (topological order). If only != nil, execution is
// confined to those blocks (dry run of a loop body): edges leaving are dropped, back edges to
// the region's header are collected in backs.
func (ex *Exec) execRegion(fr *Frame, loops map[*ssa.BasicBlock]*loopInfo, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, only *loopInfo, backs *[]edge) {
	runs := map[*ssa.BasicBlock]*loopRun{}
	done := map[*ssa.BasicBlock]*loopInfo{} // unrolled loops
	for _, b := range order {
		if only != nil && !only.blocks[b] {
			continue
		}
		unrolled := false
		for _, l := range done {
			unrolled = unrolled || l.blocks[b]
		}
		if unrolled {
			continue
		}
		es := in[b]
		var live []edge
		for _, e := range es {
			if e.st.cond != TFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		li := loops[b]
		isHeader := li != nil && !(only != nil && only.header == b)
		var st *State
		if isHeader {
			var ent []*State
			for _, e := range live {
				ent = append(ent, e.st)
			}
			m, rem := mergeStates(ent)
			st = m.clone()
			phis := ex.evalPhis(fr, b, live, rem)
			if n, ok := fewTurns(li); ok {
				done[b] = li
				ex.unroll(fr, loops, order, li, st, phis, n, in)
				continue
			}
			lr := ex.enterLoop(fr, loops, order, li, st, phis)
			runs[b] = lr
		} else if only != nil && only.header == b {
			// state and phis prepared by the caller
			st = live[0].st
		} else {
			var ss []*State
			for _, e := range live {
				ss = append(ss, e.st)
			}
			m, rem := mergeStates(ss)
			st = m.clone()
			phis := ex.evalPhis(fr, b, live, rem)
			for p, v := range phis {
				fr.env[p] = v
			}
		}
		ex.execBlock(fr, b, st, in, func(to *ssa.BasicBlock, s *State) bool {
			if to.Dominates(b) && loops[to] != nil && loops[to].blocks[b] {
				if only != nil && only.header == to {
					*backs = append(*backs, edge{b, s})
				} else if lr := runs[to]; lr != nil {
					ex.backEdge(fr, lr, b, s)
				}
				return true
			}
			return false
		})
	}
}

func (ex *Exec) evalPhis(fr *Frame, b *ssa.BasicBlock, live []edge, rem []*Term) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for i := len(live) - 1; i >= 0; i-- {
			x := ex.phiVal(fr, p, live[i].from)
			if i == len(live)-1 {
				v = x
			} else {
				v = iteVal(rem[i], x, v)
			}
		}
		v.t = p.Type()
		out[p] = v
	}
	return out
}

func (ex *Exec) phiVal(fr *Frame, p *ssa.Phi, from *ssa.BasicBlock) Val {
	for i, pr := range p.Block().Preds {
		if pr == from {
			return ex.val(fr, p.Edges[i])
		}
	}
	panic("phi edge")
}

// fewTurns: the loop counts from a constant to a constant, or through a list written out in the
// code, in at most four turns; it is then executed turn by turn instead of being cut.
func fewTurns(li *loopInfo) (int64, bool) {
	br, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
	if !ok || !li.blocks[li.header.Succs[0]] {
		return 0, false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != li.header {
		return 0, false
	}
	step := func(v ssa.Value) (*ssa.Phi, bool) { // phi + 1
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return nil, false
		}
		p, ok := b.X.(*ssa.Phi)
		return p, ok && p.Block() == li.header
	}
	phi, ok := c.X.(*ssa.Phi)
	extra := int64(0)
	if !ok {
		if phi, ok = step(c.X); !ok {
			return 0, false
		}
		extra = 1
	}
	if phi.Block() != li.header {
		return 0, false
	}
	start := int64(0)
	for i, e := range phi.Edges {
		if li.blocks[li.header.Preds[i]] {
			if p, ok := step(e); !ok || p != phi {
				return 0, false
			}
		} else if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			start = k.Int64()
		} else {
			return 0, false
		}
	}
	end := int64(-1)
	switch y := c.Y.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.Int {
			end = y.Int64()
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if sl, ok := y.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						end = at.Len()
					}
				}
			}
		}
	}
	n := end - start - extra
	return n, end >= 0 && n >= 0 && n <= 4
}

// unroll executes a loop of n turns turn by turn. A value defined in the loop and used after it is
// the one of the turn in which the loop was left.
func (ex *Exec) unroll(fr *Frame, loops map[*ssa.BasicBlock]*loopInfo, order []*ssa.BasicBlock, li *loopInfo, st *State, phis map[*ssa.Phi]Val, n int64, in map[*ssa.BasicBlock][]edge) {
	var used []ssa.Value
	for b := range li.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !li.blocks[r.Block()] {
					used = append(used, v)
					break
				}
			}
		}
	}
	sort.Slice(used, func(i, j int) bool { return used[i].Name() < used[j].Name() })
	type exit struct {
		cond *Term
		vals map[ssa.Value]Val
	}
	var exits []exit
	for turn := int64(0); ; turn++ {
		if turn > n+1 {
			panic(unsupported("a loop of a constant number of turns does not end"))
		}
		for p, v := range phis {
			fr.env[p] = v
		}
		if fr.heads == nil {
			fr.heads = map[*ssa.BasicBlock]*State{}
		}
		fr.heads[li.header] = st.clone()
		var backs []edge
		in1 := map[*ssa.BasicBlock][]edge{li.header: {{nil, st}}}
		ex.execRegion(fr, loops, order, in1, li, &backs)
		vals := map[ssa.Value]Val{}
		for _, v := range used {
			if x, ok := fr.env[v]; ok {
				vals[v] = x
			}
		}
		for _, to := range order {
			if li.blocks[to] {
				continue
			}
			for _, e := range in1[to] {
				in[to] = append(in[to], e)
				if e.st.cond != TFalse {
					exits = append(exits, exit{e.st.cond, vals})
				}
			}
		}
		var live []edge
		for _, e := range backs {
			if e.st.cond != TFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			break
		}
		var ss []*State
		for _, e := range live {
			ss = append(ss, e.st)
		}
		m, rem := mergeStates(ss)
		st = m.clone()
		phis = ex.evalPhis(fr, li.header, live, rem)
	}
	for _, v := range used {
		var out Val
		have := false
		for i := len(exits) - 1; i >= 0; i-- {
			x, ok := exits[i].vals[v]
			switch {
			case !ok:
			case !have:
				out, have = x, true
			default:
				out = iteVal(exits[i].cond, x, out)
			}
		}
		if have {
			fr.env[v] = out
		}
	}
}

// enterLoop: cut the loop at its header. Havocs what the loop may modify, assumes candidates.
func (ex *Exec) enterLoop(fr *Frame, loops map[*ssa.BasicBlock]*loopInfo, order []*ssa.BasicBlock, li *loopInfo, st *State, phis map[*ssa.Phi]Val) *loopRun {
	entry := st.clone()
	birth0 := symCount
	mod := map[string]*modEntry{}
	all := false
	// fixpoint of the modified set by dry runs
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("loop modification set does not stabilise"))
		}
		s := entry.clone()
		ex.newLevel(s)
		ex.applyHavoc(s, mod, all)
		saved := fr.snapshot()
		for p := range phis {
			fr.env[p] = ex.freshPhi(p, phis[p], s.level)
		}
		savedW := ex.writes
		savedF, savedFS := len(ex.facts), ex.factSeen
		ex.factSeen = copyIntSet(ex.factSeen)
		ex.writes = nil
		ex.dry++
		var backs []edge
		in := map[*ssa.BasicBlock][]edge{li.header: {{nil, s}}}
		ex.execRegion(fr, loops, order, in, li, &backs)
		ex.dry--
		w := ex.writes
		ex.writes = savedW
		ex.facts = ex.facts[:savedF]
		ex.factSeen = savedFS
		fr.restore(saved)
		changed := false
		for _, r := range w {
			if r.all {
				if !all {
					all = true
					changed = true
				}
				continue
			}
			if _, ok := entry.heap[r.key]; !ok && strings.HasPrefix(r.key, "iter|") {
				continue // an iteration begun inside the loop
			}
			m := mod[r.key]
			if m == nil {
				m = &modEntry{srt: r.srt, meta: r.meta, bases: map[int]*Term{}}
				mod[r.key] = m
				changed = true
			}
			if m.full {
				continue
			}
			if lv, ok := freshRef(r.base); ok && lv > entry.level && ex.levels[lv].birth > birth0 {
				continue // object allocated inside the loop
			}
			if r.base.birth > birth0 {
				m.full = true
				changed = true
			} else if _, ok := m.bases[r.base.id]; !ok {
				m.bases[r.base.id] = r.base
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	ex.newLevel(st)
	ex.applyHavoc(st, mod, all)
	// the real writes happen too (a write through a reference that changes from iteration to
	// iteration is recorded when the body is executed from the loop's head)
	for k, m := range mod {
		for _, b := range m.bases {
			ex.writes = append(ex.writes, writeRec{key: k, base: b, srt: m.srt, meta: m.meta})
		}
	}
	if all {
		ex.writes = append(ex.writes, writeRec{all: true})
	}
	lr := &loopRun{li: li}
	hphis := map[*ssa.Phi]Val{}
	for p := range phis {
		hphis[p] = ex.freshPhi(p, phis[p], st.level)
		if _, _, ok := isIntType(p.Type()); ok && ex.c.NoPatterns {
			one := constOf(p.Type(), constOne)
			ex.instTerms = append(ex.instTerms, hphis[p].one(), Add(hphis[p].one(), one.one()), phis[p].one())
			if p.Comment == "rangeindex" && ex.c.NoPatterns {
				// a range over the rest of a list
				ex.instTerms = append(ex.instTerms, Add(Add(hphis[p].one(), one.one()), one.one()))
			}
		}
	}
	// candidates
	cs := ex.makeCands(fr, li, hphis, phis, entry, st, mod)
	start := len(ex.obls)
	for _, ac := range cs {
		initT := ac.eval(entry, phis)
		if initT == TFalse {
			ac.c.alive = false
			continue
		}
		if ex.dry == 0 {
			o := ex.oblige(entry, "cand", "init "+ac.c.text, nil, initT)
			o.cand = ac.c
		}
	}
	ex.closeGroup(start)
	for _, ac := range cs {
		if !ac.c.alive {
			continue
		}
		inv := ac.eval(st, hphis)
		if ex.dry == 0 {
			ex.facts = append(ex.facts, Fact{t: Implies(st.cond, inv), sel: ac.c})
		}
		lr.cands = append(lr.cands, ac)
	}
	for p, v := range hphis {
		fr.env[p] = v
	}
	lr.header = st
	if fr.heads == nil {
		fr.heads = map[*ssa.BasicBlock]*State{}
	}
	fr.heads[li.header] = st.clone()
	return lr
}

// headOf: the state at the head of the current iteration of the innermost loop around block b
// (around the loop that b heads, if outer).
func (ex *Exec) headOf(fr *Frame, b *ssa.BasicBlock, outer bool) *State {
	for f := fr; f != nil; f = f.parent {
		if b == nil {
			b = f.block
		}
		var best *loopInfo
		loops, _ := loopsOf(f.fn)
		for _, li := range loops {
			if b == nil || !li.blocks[b] || outer && li.header == b {
				continue
			}
			if best == nil || best.blocks[li.header] {
				best = li
			}
		}
		if best != nil {
			return f.heads[best.header]
		}
		b, outer = nil, false
	}
	return nil
}

type modEntry struct {
	srt   string
	meta  Meta
	full  bool
	bases map[int]*Term
}

func (ex *Exec) applyHavoc(st *State, mod map[string]*modEntry, all bool) {
	if all {
		symCount++
		st.base = &Base{name: fmt.Sprintf("loop%d", symCount), level: st.level, birth: symCount}
		keep := map[string]heapCell{}
		for k, c := range st.heap {
			if strings.HasPrefix(k, "iter|") || strings.HasPrefix(k, "cell!") {
				keep[k] = c
			}
		}
		st.heap = keep
	}
	keys := make([]string, 0, len(mod))
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m := mod[k]
		meta := m.meta
		meta.level = st.level
		fresh := newVar("L."+k, m.srt, &meta)
		if m.full {
			st.heap[k] = heapCell{fresh, m.meta}
			continue
		}
		if len(m.bases) == 0 {
			continue
		}
		old := st.get(k, m.srt, m.meta)
		t := old
		bs := make([]*Term, 0, len(m.bases))
		for _, b := range m.bases {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
		for _, b := range bs {
			t = Store(t, b, Select(fresh, b))
		}
		st.heap[k] = heapCell{t, m.meta}
	}
}

func copyIntSet(m map[int]bool) map[int]bool {
	n := make(map[int]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

type frameSnap struct {
	env    map[ssa.Value]Val
	ndef   int
	nret   int
	npanic int
}

func (fr *Frame) snapshot() frameSnap {
	e := make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		e[k] = v
	}
	return frameSnap{e, len(fr.defers), len(fr.rets), len(fr.panics)}
}
func (fr *Frame) restore(s frameSnap) {
	fr.env = s.env
	fr.defers = fr.defers[:s.ndef]
	fr.rets = fr.rets[:s.nret]
	fr.panics = fr.panics[:s.npanic]
}

func (ex *Exec) freshPhi(p *ssa.Phi, entry Val, level int) Val {
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	v := ex.freshVal("phi."+name, p.Type(), level)
	if entry.addr != nil {
		panic(unsupported("loop-carried interior pointer %s", name))
	}
	return v
}

func (ex *Exec) backEdge(fr *Frame, lr *loopRun, from *ssa.BasicBlock, st *State) {
	if st.cond == TFalse {
		return
	}
	phis := map[*ssa.Phi]Val{}
	for _, in := range lr.li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.phiVal(fr, p, from)
		v.t = p.Type()
		phis[p] = v
	}
	if ex.dry > 0 {
		return
	}
	start := len(ex.obls)
	for _, ac := range lr.cands {
		o := ex.oblige(st, "cand", "keep "+ac.c.text, nil, ac.eval(st, phis))
		o.cand = ac.c
	}
	ex.closeGroup(start)
}

// closeGroup marks the candidate obligations since start as one event.
func (ex *Exec) closeGroup(start int) {
	if ex.dry > 0 || len(ex.obls) == start {
		return
	}
	ex.group++
	for _, o := range ex.obls[start:] {
		o.group = ex.group
		o.nfacts = len(ex.facts)
	}
}

// execBlock executes b's instructions; successors get edges via in (or back via onEdge).
func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]edge, onEdge func(to *ssa.BasicBlock, s *State) bool) {
	fr.block = b
	push := func(to *ssa.BasicBlock, s *State) {
		if s.cond == TFalse {
			return
		}
		if onEdge != nil && onEdge(to, s) {
			return
		}
		in[to] = append(in[to], edge{b, s})
	}
	for _, ins := range b.Instrs {
		if st.cond == TFalse {
			return
		}
		if p := ins.Pos(); p.IsValid() {
			pos := ex.pg.prog.Fset.Position(p)
			ex.curPos = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := ex.val(fr, x.Cond).one()
			t := st.with(c)
			e := st.with(Not(c))
			if b.Succs[0] == b.Succs[1] {
				push(b.Succs[0], st)
				return
			}
			push(b.Succs[0], t)
			push(b.Succs[1], e)
			return
		case *ssa.Jump:
			push(b.Succs[0], st)
			return
		case *ssa.Return:
			var vs []Val
			for i, r := range x.Results {
				v := ex.val(fr, r)
				v.t = fr.fn.Signature.Results().At(i).Type()
				vs = append(vs, v)
			}
			fr.rets = append(fr.rets, retEdge{st, vs})
			return
		case *ssa.Panic:
			ex.doPanic(fr, st, "explicit panic")
			return
		case *ssa.RunDefers:
			st = ex.runDefers(fr, st, b)
			if st == nil {
				return
			}
		default:
			st = ex.instr(fr, st, ins)
			if st == nil {
				return
			}
		}
	}
}

func (ex *Exec) doPanic(fr *Frame, st *State, what string) {
	if fr.recovers {
		ex.raise(fr, st.clone())
		return
	}
	if ex.c.MayPanic {
		return
	}
	if ex.c.Aborts {
		ex.assumed["explicit panic statements (taken on output errors) end the process; what holds afterwards is not considered"] = true
		return
	}
	if !ex.noSafety {
		ex.oblige(st, "safety", ex.fname(fr)+": no "+what, ex.c.SafetyTags, TFalse)
	}
}

func (ex *Exec) runDefers(fr *Frame, st *State, at *ssa.BasicBlock) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		always := at != nil && d.block.Dominates(at)
		if !always {
			// path-sensitive: does st's condition imply d.cond syntactically?
			_, rem := factor([]*Term{st.cond, d.cond})
			if rem[1] == TTrue {
				always = true
			}
		}
		if always {
			st = ex.callDeferred(fr, st, d)
			if st == nil {
				return nil
			}
			continue
		}
		yes := st.with(d.cond)
		no := st.with(Not(d.cond))
		if yes.cond == TFalse {
			continue
		}
		r := ex.callDeferred(fr, yes, d)
		if r == nil {
			st = no
		} else if no.cond == TFalse {
			st = r
		} else {
			m, _ := mergeStates([]*State{r, no})
			st = m.clone()
		}
	}
	return st
}

func (ex *Exec) callDeferred(fr *Frame, st *State, d *deferEntry) *State {
	r, _ := ex.call(fr, st.clone(), &d.call.Call, d.fnv, d.args, d.call)
	return r
}

// ---------- values ----------

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		r := ex.pg.funcRef(x)
		return Val{t: x.Type(), l: []*Term{r}, fn: &FuncVal{fn: x}}
	case *ssa.Global:
		return Val{t: x.Type(), l: []*Term{ex.pg.globalRef(x)}}
	case *ssa.Builtin:
		return Val{t: x.Type(), l: []*Term{I(0)}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
			}
		}
		panic(unsupported("free variable %s", x.Name()))
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported("value %s = %s in %s", v.Name(), v, fr.fn))
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	return constOf(c.Type(), c.Value)
}

func constOf(t types.Type, v constant.Value) Val {
	b, _ := t.Underlying().(*types.Basic)
	if b == nil {
		// named types over basic handled by Underlying; type params etc. unsupported
		panic(unsupported("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{t: t, l: []*Term{B(constant.BoolVal(v))}}
	case b.Info()&types.IsString != 0:
		return Val{t: t, l: []*Term{StrConst(constant.StringVal(v))}}
	case b.Info()&types.IsInteger != 0:
		n := bigOf(constant.ToInt(v))
		if bvMode {
			bits, _, _ := intBits(b)
			return Val{t: t, l: []*Term{BVc(n, fmt.Sprintf("BV%d", bits))}}
		}
		return Val{t: t, l: []*Term{IBig(n)}}
	case b.Info()&types.IsFloat != 0:
		f := constant.ToFloat(v)
		num, den := constant.Num(f), constant.Denom(f)
		r := new(big.Rat).SetFrac(bigOf(num), bigOf(den))
		return Val{t: t, l: []*Term{RConst(r)}}
	}
	panic(unsupported("constant %s", v))
}
func bigOf(v constant.Value) *big.Int {
	n := new(big.Int)
	n.SetString(v.ExactString(), 10)
	return n
}

// wrap reduces an Int term to the range of an integer type.
func wrapInt(t *Term, bits uint, signed bool) *Term {
	if bits == 64 && signed {
		return t // int64 treated as mathematical (assumption: no overflow)
	}
	if lo, hi := rangeOf(t); lo != nil && hi != nil {
		tl, th := big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
		if signed {
			tl = new(big.Int).Neg(pow2(bits - 1))
			th = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
		}
		if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return t
		}
	}
	if !signed {
		return EMod(t, IBig(pow2(bits)))
	}
	h := IBig(pow2(bits - 1))
	return Sub(EMod(Add(t, h), IBig(pow2(bits))), h)
}

func (ex *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) *State {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		t := derefType(x.Type())
		var ref *Term
		ref = ex.allocRef(st)
		v := Val{t: x.Type(), l: []*Term{ref}}
		ex.store(st, addrOf(v), zeroVal(t))
		fr.env[x] = v
		return st
	case *ssa.BinOp:
		r := ex.binop(fr, st, x.Op, ex.val(fr, x.X), ex.val(fr, x.Y), x.Type())
		if st.cond == TFalse {
			return nil
		}
		fr.env[x] = r
		return st
	case *ssa.UnOp:
		return ex.unop(fr, st, x)
	case *ssa.ChangeType:
		v := ex.val(fr, x.X)
		v.t = x.Type()
		fr.env[x] = v
		return st
	case *ssa.ChangeInterface:
		v := ex.val(fr, x.X)
		v.t = x.Type()
		fr.env[x] = v
		return st
	case *ssa.Convert:
		fr.env[x] = ex.convert(fr, st, ex.val(fr, x.X), x.Type())
		return st
	case *ssa.MultiConvert:
		fr.env[x] = ex.convert(fr, st, ex.val(fr, x.X), x.Type())
		return st
	case *ssa.Extract:
		tv := ex.val(fr, x.Tuple)
		tp := x.Tuple.Type().(*types.Tuple)
		a, b := tupleRange(tp, x.Index)
		v := Val{t: tp.At(x.Index).Type(), l: tv.l[a:b]}
		ex.recall(&v)
		fr.env[x] = v
		return st
	case *ssa.Field:
		sv := ex.val(fr, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		a, b := fieldRange(s, x.Field)
		v := Val{t: x.Type(), l: sv.l[a:b]}
		ex.recall(&v)
		fr.env[x] = v
		return st
	case *ssa.FieldAddr:
		pv := ex.val(fr, x.X)
		ad := addrOf(pv)
		if pv.addr == nil {
			ex.safety(fr, st, "nil dereference", Ne(pv.l[0], I(0)))
			if st.cond == TFalse {
				return nil
			}
		}
		s := derefType(x.X.Type()).Underlying().(*types.Struct)
		n := &Addr{prefix: ad.prefix + "." + s.Field(x.Field).Name(), base: ad.base, idx: ad.idx}
		fr.env[x] = ex.ptrVal(x.Type(), n)
		return st
	case *ssa.IndexAddr:
		return ex.indexAddr(fr, st, x)
	case *ssa.Index:
		return ex.index(fr, st, x)
	case *ssa.Lookup:
		return ex.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m := ex.val(fr, x.Map)
		ex.safety(fr, st, "assignment to nil map", Ne(m.one(), I(0)))
		if st.cond == TFalse {
			return nil
		}
		m.t = x.Map.Type()
		ex.mapGuard(fr, st, m)
		ex.mapSet(st, m, ex.val(fr, x.Key), ex.val(fr, x.Value))
		return st
	case *ssa.MakeMap:
		ref := ex.allocRef(st)
		v := Val{t: x.Type(), l: []*Term{ref}}
		mt := x.Type().Underlying().(*types.Map)
		ks := ex.mapKeySort(mt)
		key := ex.mapKey(mt) + "#dom"
		srt := arrSort(SInt, arrSort(ks, SBool))
		ex.logWrite(key, ref, srt, Meta{})
		st.heap[key] = heapCell{Store(st.get(key, srt, Meta{}), ref, ConstArr(arrSort(ks, SBool), TFalse)), Meta{}}
		fr.env[x] = v
		return st
	case *ssa.MakeChan:
		ref := ex.allocRef(st)
		fr.env[x] = Val{t: x.Type(), l: []*Term{ref}}
		st, _ = ex.chanOp(fr, st, "make", x.Type(), []Val{ex.val(fr, x.Size), fr.env[x]}, nil)
		return st
	case *ssa.MakeSlice:
		n := ex.toIdx(ex.val(fr, x.Len))
		c := ex.toIdx(ex.val(fr, x.Cap))
		z := idxConst(0)
		ex.safety(fr, st, "make slice length", And(ex.sle(z, n), ex.sle(n, c)))
		ref := ex.allocRef(st)
		et := x.Type().Underlying().(*types.Slice).Elem()
		ex.zeroElems(st, et, ref)
		fr.env[x] = Val{t: x.Type(), l: []*Term{ref, z, n, c}}
		return st
	case *ssa.MakeInterface:
		fr.env[x] = ex.makeIface(st, ex.val(fr, x.X), x.X.Type(), x.Type())
		return st
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		fv := &FuncVal{fn: fn}
		for _, b := range x.Bindings {
			fv.free = append(fv.free, ex.val(fr, b))
		}
		ref := ex.allocRef(st)
		ex.pg.knownFunc[ref.id] = fv
		fr.env[x] = Val{t: x.Type(), l: []*Term{ref}, fn: fv}
		return st
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, x)
	case *ssa.Slice:
		return ex.slice(fr, st, x)
	case *ssa.Store:
		p := ex.val(fr, x.Addr)
		if p.addr == nil {
			ex.safety(fr, st, "nil dereference", Ne(p.l[0], I(0)))
			if st.cond == TFalse {
				return nil
			}
		}
		v := ex.val(fr, x.Val)
		v.t = derefType(x.Addr.Type())
		ex.guardCheck(fr, st, addrOf(p))
		ex.sharedCheck(fr, st, x, x.Addr)
		ex.store(st, addrOf(p), v)
		return st
	case *ssa.Range:
		return ex.rangeInit(fr, st, x)
	case *ssa.Next:
		return ex.next(fr, st, x)
	case *ssa.Send:
		ex.assumed["channel send: may block; blocking is not modelled"] = true
		st, _ = ex.chanOp(fr, st, "send", x.Chan.Type(), []Val{ex.val(fr, x.Chan), ex.val(fr, x.X)}, nil)
		return st
	case *ssa.Select:
		tp := x.Type().(*types.Tuple)
		v := ex.freshVal("select", tp, st.level)
		n := len(x.States)
		lo := int64(0)
		if !x.Blocking {
			lo = -1
		}
		if bvMode {
			panic(unsupported("select in bv mode"))
		}
		ex.assume(st, And(Le(I(lo), v.l[0]), Lt(v.l[0], I(int64(n)))))
		ex.assumed["select: any ready case may be taken; received values arbitrary"] = true
		fr.env[x] = v
		return st
	case *ssa.Go:
		ex.goStart(fr, st, x)
		ex.assumed["goroutine bodies run outside the verified call: "+x.Call.Value.Name()] = true
		return st
	case *ssa.Defer:
		d := &deferEntry{call: x, cond: st.cond, block: x.Block()}
		if x.Call.IsInvoke() || true {
			d.fnv, d.args = ex.callOperands(fr, &x.Call)
		}
		// inside a loop?
		loops, _ := loopsOf(fr.fn)
		for _, l := range loops {
			if l.blocks[x.Block()] {
				panic(unsupported("defer inside a loop"))
			}
		}
		fr.defers = append(fr.defers, d)
		return st
	case *ssa.Call:
		fnv, args := ex.callOperands(fr, &x.Call)
		r, v := ex.call(fr, st, &x.Call, fnv, args, x)
		if r == nil {
			return nil
		}
		if x.Type() != nil {
			fr.env[x] = v
		}
		return r
	}
	panic(unsupported("instruction %T %s", ins, ins))
}

func (ex *Exec) recall(v *Val) {
	if len(v.l) != 1 {
		return
	}
	switch v.t.Underlying().(type) {
	case *types.Signature:
		v.fn = ex.pg.knownFunc[v.l[0].id]
	case *types.Pointer:
		v.addr = ex.pg.knownAddr[v.l[0].id]
	}
}

// ptrVal makes a pointer value to an interior location; the reference term is an
// uninterpreted injection so that comparisons with nil are decided.
func (ex *Exec) ptrVal(t types.Type, a *Addr) Val {
	args := []*Term{a.base}
	if a.idx != nil {
		args = append(args, a.idx)
	}
	r := App("ptr:"+a.prefix, SInt, args...)
	return Val{t: t, l: []*Term{r}, addr: a}
}

func (ex *Exec) callOperands(fr *Frame, c *ssa.CallCommon) (Val, []Val) {
	var fnv Val
	if c.IsInvoke() {
		fnv = ex.val(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(fr, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		v := ex.val(fr, a)
		v.t = a.Type()
		args = append(args, v)
	}
	return fnv, args
}

func (ex *Exec) sle(a, b *Term) *Term {
	if isBV(a.sort) {
		return bvCmp("bvsle", a, b)
	}
	return Le(a, b)
}
func (ex *Exec) slt(a, b *Term) *Term {
	if isBV(a.sort) {
		return bvCmp("bvslt", a, b)
	}
	return Lt(a, b)
}

func (ex *Exec) toIdx(v Val) *Term {
	t := v.one()
	if bvMode {
		_, signed, _ := isIntType(v.t)
		return bvResize(t, "BV64", signed)
	}
	return t
}

func (ex *Exec) zeroElems(st *State, et types.Type, ref *Term) {
	for _, l := range leavesOf(et) {
		key := elemPrefix(et) + l.path
		srt := arrSort(SInt, arrSort(idxSort(), l.sort))
		h := st.get(key, srt, l.meta)
		ex.logWrite(key, ref, srt, l.meta)
		st.heap[key] = heapCell{Store(h, ref, ConstArr(arrSort(idxSort(), l.sort), zeroLeaf(l))), l.meta}
	}
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) *State {
	v := ex.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		if v.addr == nil {
			ex.safety(fr, st, "nil dereference", Ne(v.l[0], I(0)))
			if st.cond == TFalse {
				return nil
			}
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if g.Name() == "init$guard" { // the package initializer runs once
				fr.env[x] = Val{t: x.Type(), l: []*Term{TFalse}}
				return st
			}
		}
		ex.guardCheck(fr, st, addrOf(v))
		ex.sharedCheck(fr, st, x, x.X)
		r := ex.load(st, addrOf(v), x.Type())
		r.t = x.Type()
		fr.env[x] = r
		return st
	case token.NOT:
		fr.env[x] = Val{t: x.Type(), l: []*Term{Not(v.one())}}
		return st
	case token.SUB:
		t := v.one()
		var z Val
		if t.sort == SReal {
			fr.env[x] = Val{t: x.Type(), l: []*Term{Sub(RConst(new(big.Rat)), t)}}
			return st
		}
		z = constOf(x.Type(), constant.MakeInt64(0))
		fr.env[x] = ex.binop(fr, st, token.SUB, z, v, x.Type())
		return st
	case token.XOR:
		t := v.one()
		if isBV(t.sort) {
			fr.env[x] = Val{t: x.Type(), l: []*Term{bvNot(t)}}
			return st
		}
		bits, signed, _ := isIntType(x.Type())
		r := Sub(I(-1), t)
		fr.env[x] = Val{t: x.Type(), l: []*Term{wrapInt(r, bits, signed)}}
		return st
	case token.ARROW:
		ex.assumed["channel receive: any value may arrive; blocking is not modelled"] = true
		if x.CommaOk {
			fr.env[x] = ex.freshVal("recv", x.Type(), st.level)
			return st
		}
		st2, v := ex.chanOp(fr, st, "recv", x.X.Type(), []Val{ex.val(fr, x.X)}, x.Type())
		fr.env[x] = v
		return st2
	}
	panic(unsupported("unop %s", x.Op))
}

// read from the heap; error sentinels and such need nothing here.

func (ex *Exec) binop(fr *Frame, st *State, op token.Token, a, b Val, rt types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		// nil slices: compare the array reference (a non-nil empty slice has a reference)
		if _, ok := a.t.Underlying().(*types.Slice); ok {
			t = Eq(a.l[0], b.l[0])
		} else if isIface(a.t) && !isIface(b.t) {
			bb := ex.makeIface(st, b, b.t, a.t)
			t = ex.eqIface(a, bb)
		} else if isIface(b.t) && !isIface(a.t) {
			aa := ex.makeIface(st, a, a.t, b.t)
			t = ex.eqIface(aa, b)
		} else if isIface(a.t) {
			t = ex.eqIface(a, b)
		} else {
			t = eqVal(a, b)
		}
		if op == token.NEQ {
			t = Not(t)
		}
		return Val{t: rt, l: []*Term{t}}
	}
	x, y := a.one(), b.one()
	switch x.sort {
	case SBool:
		switch op {
		case token.AND:
			return Val{t: rt, l: []*Term{And(x, y)}}
		case token.OR:
			return Val{t: rt, l: []*Term{Or(x, y)}}
		}
	case SStr:
		switch op {
		case token.ADD:
			return Val{t: rt, l: []*Term{StrCat(x, y)}}
		case token.LSS:
			return Val{t: rt, l: []*Term{App("strlt", SBool, x, y)}}
		case token.GTR:
			return Val{t: rt, l: []*Term{App("strlt", SBool, y, x)}}
		case token.LEQ:
			return Val{t: rt, l: []*Term{Not(App("strlt", SBool, y, x))}}
		case token.GEQ:
			return Val{t: rt, l: []*Term{Not(App("strlt", SBool, x, y))}}
		}
	case SReal:
		var t *Term
		switch op {
		case token.ADD:
			t = Add(x, y)
		case token.SUB:
			t = Sub(x, y)
		case token.MUL:
			t = Mul(x, y)
		case token.QUO:
			t = mk("r/", SReal, "", nil, x, y)
		case token.LSS:
			t = Not(Le(y, x))
		case token.LEQ:
			t = Le(x, y)
		case token.GTR:
			t = Not(Le(x, y))
		case token.GEQ:
			t = Le(y, x)
		}
		if t != nil {
			ex.assumed["float64 arithmetic treated as exact real arithmetic"] = true
			return Val{t: rt, l: []*Term{t}}
		}
	}
	bits, signed, isint := isIntType(a.t)
	if !isint {
		panic(unsupported("binop %s on %s", op, a.t))
	}
	if isBV(x.sort) {
		return Val{t: rt, l: []*Term{ex.bvop(fr, st, op, a, b, signed)}}
	}
	var t *Term
	switch op {
	case token.ADD:
		t = wrapInt(Add(x, y), bits, signed)
	case token.SUB:
		t = wrapInt(Sub(x, y), bits, signed)
	case token.MUL:
		t = wrapInt(Mul(x, y), bits, signed)
	case token.QUO:
		ex.safety(fr, st, "division by zero", Ne(y, I(0)))
		t = ex.tdiv(x, y)
	case token.REM:
		ex.safety(fr, st, "division by zero", Ne(y, I(0)))
		t = ex.trem(x, y)
	case token.LSS:
		t = Lt(x, y)
	case token.LEQ:
		t = Le(x, y)
	case token.GTR:
		t = Gt(x, y)
	case token.GEQ:
		t = Ge(x, y)
	case token.AND:
		t = ex.bitAnd(x, y, bits)
	case token.OR:
		t = ex.bitOr(x, y)
	case token.AND_NOT:
		if y.op == "const" && !signed {
			m := new(big.Int).Sub(pow2(bits), big.NewInt(1))
			m.AndNot(m, y.val)
			t = ex.bitAnd(x, IBig(m), bits)
		} else {
			t = App("bitandnot", SInt, x, y)
		}
	case token.XOR:
		t = App("bitxor", SInt, x, y)
	case token.SHL:
		if signedT(b.t) {
			ex.safety(fr, st, "negative shift", Le(I(0), y))
		}
		if y.op == "const" {
			if y.val.Cmp(big.NewInt(int64(bits))) >= 0 {
				t = I(0)
			} else {
				t = wrapInt(Mul(x, IBig(pow2(uint(y.val.Uint64())))), bits, signed)
			}
		} else {
			t = App("shl", SInt, x, y)
		}
	case token.SHR:
		if signedT(b.t) {
			ex.safety(fr, st, "negative shift", Le(I(0), y))
		}
		if y.op == "const" {
			t = EDiv(x, IBig(pow2(uint(y.val.Uint64()))))
		} else {
			t = App("shr", SInt, x, y)
		}
	default:
		panic(unsupported("binop %s", op))
	}
	if st.cond == TFalse {
		return Val{t: rt, l: []*Term{t}}
	}
	return Val{t: rt, l: []*Term{t}}
}

func signedT(t types.Type) bool { _, s, ok := isIntType(t); return ok && s }

// bitAnd with a constant mask of the form 2^k-1 or a contiguous field is arithmetic; otherwise UF.
func (ex *Exec) bitAnd(x, y *Term, bits uint) *Term {
	if x.op == "const" {
		x, y = y, x
	}
	if y.op == "const" && y.val.Sign() >= 0 {
		if x.op == "const" {
			return IBig(new(big.Int).And(x.val, y.val))
		}
		m := y.val
		if m.Sign() == 0 {
			return I(0)
		}
		// contiguous ones?
		tz := uint(m.TrailingZeroBits())
		sh := new(big.Int).Rsh(m, tz)
		if new(big.Int).And(sh, new(big.Int).Add(sh, big.NewInt(1))).Sign() == 0 {
			w := uint(sh.BitLen())
			t := x
			if tz > 0 {
				t = EDiv(x, IBig(pow2(tz)))
			}
			t = EMod(t, IBig(pow2(w)))
			return Mul(t, IBig(pow2(tz)))
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return App("bitand", SInt, x, y)
}

// disjointShift: x | y where the bits cannot overlap is x + y.
func (ex *Exec) bitOr(x, y *Term) *Term {
	if x.op == "const" && y.op == "const" && x.val.Sign() >= 0 && y.val.Sign() >= 0 {
		return IBig(new(big.Int).Or(x.val, y.val))
	}
	if x.op == "const" && x.val.Sign() == 0 {
		return y
	}
	if y.op == "const" && y.val.Sign() == 0 {
		return x
	}
	lx, hx := rangeOf(x)
	ly, hy := rangeOf(y)
	if lx != nil && hx != nil && lx.Sign() >= 0 && ly != nil && hy != nil && ly.Sign() >= 0 {
		if divisible(y, uint(hx.BitLen())) {
			return Add(x, y)
		}
		if divisible(x, uint(hy.BitLen())) {
			return Add(x, y)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return App("bitor", SInt, x, y)
}

// divisible: t is syntactically a multiple of 2^k
func divisible(t *Term, k uint) bool {
	m := pow2(k)
	l := toLin(t)
	if new(big.Int).Mod(l.c, m).Sign() != 0 {
		return false
	}
	for x, co := range l.co {
		if new(big.Int).Mod(co, m).Sign() == 0 {
			continue
		}
		// (2^a * y) mod 2^b with b>=k
		if x.op == "mod" && x.args[1].op == "const" && new(big.Int).Mod(x.args[1].val, m).Sign() == 0 && divisible(x.args[0], k) {
			continue
		}
		return false
	}
	return true
}

// tdiv/trem: Go's truncated division.
func (ex *Exec) tdiv(x, y *Term) *Term {
	if y.op == "const" && y.val.Sign() > 0 {
		if lo, _ := rangeOf(x); lo != nil && lo.Sign() >= 0 {
			return EDiv(x, y)
		}
		if x.op == "const" {
			return IBig(new(big.Int).Quo(x.val, y.val))
		}
		return Ite(Le(I(0), x), EDiv(x, y), Sub(I(0), EDiv(Sub(I(0), x), y)))
	}
	return App("gdiv", SInt, x, y)
}
func (ex *Exec) trem(x, y *Term) *Term {
	if y.op == "const" && y.val.Sign() > 0 {
		if lo, _ := rangeOf(x); lo != nil && lo.Sign() >= 0 {
			return EMod(x, y)
		}
		if x.op == "const" {
			return IBig(new(big.Int).Rem(x.val, y.val))
		}
		return Ite(Le(I(0), x), EMod(x, y), Sub(I(0), EMod(Sub(I(0), x), y)))
	}
	return App("gmod", SInt, x, y)
}

func (ex *Exec) bvop(fr *Frame, st *State, op token.Token, a, b Val, signed bool) *Term {
	x, y := a.one(), b.one()
	if op == token.SHL || op == token.SHR {
		_, ys, _ := isIntType(b.t)
		if ys {
			ex.safety(fr, st, "negative shift", bvCmp("bvsle", BVc(big.NewInt(0), y.sort), y))
		}
		wx, wy := bvWidth(x.sort), bvWidth(y.sort)
		if wy > wx {
			// saturate
			lim := BVc(big.NewInt(int64(wx)), y.sort)
			y = bvResize(Ite(bvCmp("bvult", y, lim), y, lim), x.sort, false)
			if wx < 7 {
				panic("narrow shift")
			}
		} else {
			y = bvResize(y, x.sort, false)
		}
		if op == token.SHL {
			return bvBin("bvshl", x, y)
		}
		if signed {
			return bvBin("bvashr", x, y)
		}
		return bvBin("bvlshr", x, y)
	}
	pick := func(s, u string) string {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return bvBin("bvadd", x, y)
	case token.SUB:
		return bvBin("bvsub", x, y)
	case token.MUL:
		return bvBin("bvmul", x, y)
	case token.QUO:
		ex.safety(fr, st, "division by zero", Ne(y, BVc(big.NewInt(0), y.sort)))
		return bvBin(pick("bvsdiv", "bvudiv"), x, y)
	case token.REM:
		ex.safety(fr, st, "division by zero", Ne(y, BVc(big.NewInt(0), y.sort)))
		return bvBin(pick("bvsrem", "bvurem"), x, y)
	case token.AND:
		return bvBin("bvand", x, y)
	case token.OR:
		return bvBin("bvor", x, y)
	case token.XOR:
		return bvBin("bvxor", x, y)
	case token.AND_NOT:
		return bvBin("bvand", x, bvNot(y))
	case token.LSS:
		return bvCmp(pick("bvslt", "bvult"), x, y)
	case token.LEQ:
		return bvCmp(pick("bvsle", "bvule"), x, y)
	case token.GTR:
		return bvCmp(pick("bvslt", "bvult"), y, x)
	case token.GEQ:
		return bvCmp(pick("bvsle", "bvule"), y, x)
	}
	panic(unsupported("bv op %s", op))
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func (ex *Exec) eqIface(a, b Val) *Term {
	// equal tags and payload references; boxed values compare by box content when the tag is a
	// boxed basic type: approximated by reference equality or an uninterpreted relation
	if a.l[0] == I(0) || b.l[0] == I(0) {
		return And(Eq(a.l[0], b.l[0]))
	}
	return And(Eq(a.l[0], b.l[0]), Or(Eq(a.l[1], b.l[1]), App("boxeq", SBool, a.l[0], a.l[1], b.l[1])))
}

// makeIface wraps a concrete value.
func (ex *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	if isIface(from) {
		v.t = to
		return v
	}
	tag := ex.pg.typeTag(from)
	if isPtrLike(from) {
		if v.addr != nil {
			ex.pg.knownAddr[v.l[0].id] = v.addr
		}
		return Val{t: to, l: []*Term{tag, v.l[0]}, fn: nil}
	}
	// immutable box
	ref := ex.allocRef(st)
	for i, l := range leavesOf(from) {
		key := "box:" + typeKey(from) + l.path
		srt := arrSort(SInt, l.sort)
		h := st.get(key, srt, l.meta)
		ex.logWrite(key, ref, srt, l.meta)
		st.heap[key] = heapCell{Store(h, ref, v.l[i]), l.meta}
	}
	return Val{t: to, l: []*Term{tag, ref}}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// unbox reads the concrete value of dynamic type t from an interface value.
func (ex *Exec) unbox(st *State, v Val, t types.Type) Val {
	if isIface(t) {
		v.t = t
		return v
	}
	if isPtrLike(t) {
		r := Val{t: t, l: []*Term{v.l[1]}}
		ex.recall(&r)
		return r
	}
	r := Val{t: t}
	if x := v.l[1]; x.op == "app" && x.name == "jsonany#1" {
		ex.fact(Le(x, ex.levels[0])) // decoded values are immutable boxes: let them exist from the start
	}
	for _, l := range leavesOf(t) {
		key := "box:" + typeKey(t) + l.path
		r.l = append(r.l, Select(st.get(key, arrSort(SInt, l.sort), l.meta), v.l[1]))
	}
	ex.typeFacts(r)
	return r
}

func (ex *Exec) hasType(v Val, t types.Type) *Term {
	if isIface(t) {
		it := t.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			return Ne(v.l[0], I(0))
		}
		// implemented-by relation: known for statically known tags
		return And(Ne(v.l[0], I(0)), ex.implements(v.l[0], t, it))
	}
	return Eq(v.l[0], ex.pg.typeTag(t))
}

func (ex *Exec) implements(tag *Term, t types.Type, it *types.Interface) *Term {
	if tag.op == "const" {
		if ct, ok := ex.pg.tagType[tag.val.Int64()]; ok {
			return B(types.Implements(ct, it))
		}
	}
	if tag.op == "ite" {
		return Ite(tag.args[0], ex.implements(tag.args[1], t, it), ex.implements(tag.args[2], t, it))
	}
	return App("implements:"+typeKey(t), SBool, tag)
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) *State {
	v := ex.val(fr, x.X)
	ok := ex.hasType(v, x.AssertedType)
	if isIface(x.AssertedType) && isIface(x.X.Type()) {
		if it, ok2 := x.AssertedType.Underlying().(*types.Interface); ok2 && types.Implements(x.X.Type(), it) {
			ok = Ne(v.l[0], I(0))
		}
	}
	val := ex.unbox(st, v, x.AssertedType)
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		r := val
		if ok != TTrue {
			r = Val{t: x.AssertedType}
			for i := range val.l {
				r.l = append(r.l, Ite(ok, val.l[i], z.l[i]))
			}
		}
		fr.env[x] = Val{t: x.Type(), l: append(append([]*Term{}, r.l...), ok)}
		return st
	}
	ex.safety(fr, st, "type assertion to "+shortKey(typeKey(x.AssertedType)), ok)
	if st.cond == TFalse {
		return nil
	}
	fr.env[x] = val
	return st
}

// ---------- slices, arrays, strings ----------

func (ex *Exec) idxIn(i, n *Term) *Term {
	if bvMode {
		return bvCmp("bvult", i, n)
	}
	return And(Le(I(0), i), Lt(i, n))
}

func (ex *Exec) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) *State {
	b := ex.val(fr, x.X)
	i := ex.toIdx(ex.val(fr, x.Index))
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		ex.safety(fr, st, "index out of range", ex.idxIn(i, b.l[2]))
		if st.cond == TFalse {
			return nil
		}
		fr.env[x] = ex.ptrVal(x.Type(), &Addr{prefix: elemPrefix(u.Elem()), base: b.l[0], idx: Add(b.l[1], i)})
		return st
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ad := addrOf(b)
		if b.addr == nil {
			ex.safety(fr, st, "nil dereference", Ne(b.l[0], I(0)))
		}
		ex.safety(fr, st, "index out of range", ex.idxIn(i, idxConst(at.Len())))
		if st.cond == TFalse {
			return nil
		}
		if b.addr == nil {
			fr.env[x] = ex.ptrVal(x.Type(), &Addr{prefix: elemPrefix(at.Elem()), base: ad.base, idx: i})
		} else {
			if ad.idx != nil {
				panic(unsupported("array inside slice element"))
			}
			fr.env[x] = ex.ptrVal(x.Type(), &Addr{prefix: ad.prefix + "[]", base: ad.base, idx: i})
		}
		return st
	}
	panic(unsupported("indexaddr %s", x.X.Type()))
}

func (ex *Exec) index(fr *Frame, st *State, x *ssa.Index) *State {
	b := ex.val(fr, x.X)
	i := ex.toIdx(ex.val(fr, x.Index))
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		ex.safety(fr, st, "index out of range", ex.idxIn(i, idxConst(u.Len())))
		r := Val{t: x.Type()}
		for k := range b.l {
			r.l = append(r.l, Select(b.l[k], i))
		}
		fr.env[x] = r
		return st
	case *types.Basic: // string
		ex.safety(fr, st, "index out of range", ex.idxIn(i, ex.strLen(b.one())))
		fr.env[x] = Val{t: x.Type(), l: []*Term{ex.strAt(b.one(), i)}}
		return st
	}
	panic(unsupported("index of %s", x.X.Type()))
}

func (ex *Exec) strAt(s, i *Term) *Term {
	if bvMode {
		return App("strat", "BV8", s, i)
	}
	t := App("strat", SInt, s, i)
	if !t.bound {
		ex.fact(And(Le(I(0), t), Le(t, I(255))))
	}
	return t
}

func (ex *Exec) strLen(s *Term) *Term {
	if s.op == "str" {
		return idxConst(int64(len(unq(s.name))))
	}
	if bvMode {
		t := App("strlen", "BV64", s)
		ex.fact(bvCmp("bvule", t, BVc(pow2(40), "BV64")))
		return t
	}
	t := App("strlen", SInt, s)
	if !t.bound {
		ex.fact(And(Le(I(0), t), Le(t, IBig(pow2(47))), Eq(Eq(t, I(0)), Eq(s, StrConst("")))))
	}
	return t
}

func unq(s string) string {
	var out string
	fmt.Sscanf(s, "%q", &out)
	return out
}

func StrCat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return StrConst(unq(a.name) + unq(b.name))
	}
	if a.op == "str" && a.name == `""` {
		return b
	}
	if b.op == "str" && b.name == `""` {
		return a
	}
	// right-associate
	if a.op == "app" && a.name == "strcat" {
		return StrCat(a.args[0], StrCat(a.args[1], b))
	}
	if a.op == "str" && b.op == "app" && b.name == "strcat" && b.args[0].op == "str" {
		return StrCat(StrConst(unq(a.name)+unq(b.args[0].name)), b.args[1])
	}
	return App("strcat", SStr, a, b)
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) *State {
	b := ex.val(fr, x.X)
	z := idxConst(0)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return ex.toIdx(ex.val(fr, v))
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(x.Low, z)
		hi := get(x.High, b.l[2])
		mx := get(x.Max, b.l[3])
		if bvMode {
			ex.safety(fr, st, "slice bounds out of range", And(bvCmp("bvule", lo, hi), bvCmp("bvule", hi, mx), bvCmp("bvule", mx, b.l[3])))
		} else {
			ex.safety(fr, st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, b.l[3])))
		}
		if st.cond == TFalse {
			return nil
		}
		fr.env[x] = Val{t: x.Type(), l: []*Term{b.l[0], Add(b.l[1], lo), Sub(hi, lo), Sub(mx, lo)}}
		return st
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if b.addr != nil {
			panic(unsupported("slicing an array inside an object"))
		}
		n := idxConst(at.Len())
		lo := get(x.Low, z)
		hi := get(x.High, n)
		mx := get(x.Max, n)
		if bvMode {
			ex.safety(fr, st, "slice bounds out of range", And(bvCmp("bvule", lo, hi), bvCmp("bvule", hi, mx), bvCmp("bvule", mx, n)))
		} else {
			ex.safety(fr, st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		}
		if st.cond == TFalse {
			return nil
		}
		fr.env[x] = Val{t: x.Type(), l: []*Term{b.l[0], lo, Sub(hi, lo), Sub(mx, lo)}}
		return st
	case *types.Basic: // string
		s := b.one()
		n := ex.strLen(s)
		lo := get(x.Low, z)
		hi := get(x.High, n)
		ex.safety(fr, st, "slice bounds out of range", And(ex.sle(z, lo), ex.sle(lo, hi), ex.sle(hi, n)))
		if st.cond == TFalse {
			return nil
		}
		var r *Term
		if lo == z && hi == n {
			r = s
		} else {
			r = App("substr", SStr, s, lo, hi)
			ex.assume(st, Eq(ex.strLen(r), Sub(hi, lo)))
		}
		fr.env[x] = Val{t: x.Type(), l: []*Term{r}}
		return st
	}
	panic(unsupported("slice of %s", x.X.Type()))
}

// ---------- maps ----------

func (ex *Exec) mapKey(mt *types.Map) string {
	return "map[" + typeKey(mt.Key()) + "]" + typeKey(mt.Elem())
}
func (ex *Exec) mapKeySort(mt *types.Map) string {
	ls := leavesOf(mt.Key())
	if len(ls) != 1 {
		panic(unsupported("map key type %s", mt.Key()))
	}
	return ls[0].sort
}

func (ex *Exec) mapDom(st *State, m Val) *Term {
	mt := m.t.Underlying().(*types.Map)
	ks := ex.mapKeySort(mt)
	return Select(st.get(ex.mapKey(mt)+"#dom", arrSort(SInt, arrSort(ks, SBool)), Meta{}), m.one())
}
func (ex *Exec) mapHas(st *State, m Val, k *Term) *Term {
	return And(Ne(m.one(), I(0)), Select(ex.mapDom(st, m), k))
}
func (ex *Exec) mapGet(st *State, m Val, k *Term) Val {
	mt := m.t.Underlying().(*types.Map)
	ks := ex.mapKeySort(mt)
	v := Val{t: mt.Elem()}
	for _, l := range leavesOf(mt.Elem()) {
		h := st.get(ex.mapKey(mt)+"#val"+l.path, arrSort(SInt, arrSort(ks, l.sort)), l.meta)
		v.l = append(v.l, Select(Select(h, m.one()), k))
	}
	ex.typeFacts(v)
	ex.recall(&v)
	return v
}
func (ex *Exec) mapSet(st *State, m, k, v Val) {
	mt := m.t.Underlying().(*types.Map)
	ks := ex.mapKeySort(mt)
	kt := k.one()
	key := ex.mapKey(mt) + "#dom"
	srt := arrSort(SInt, arrSort(ks, SBool))
	h := st.get(key, srt, Meta{})
	ex.logWrite(key, m.one(), srt, Meta{})
	st.heap[key] = heapCell{Store(h, m.one(), Store(Select(h, m.one()), kt, TTrue)), Meta{}}
	for i, l := range leavesOf(mt.Elem()) {
		key := ex.mapKey(mt) + "#val" + l.path
		srt := arrSort(SInt, arrSort(ks, l.sort))
		h := st.get(key, srt, l.meta)
		ex.logWrite(key, m.one(), srt, l.meta)
		st.heap[key] = heapCell{Store(h, m.one(), Store(Select(h, m.one()), kt, v.l[i])), l.meta}
	}
	ex.remember(v)
}
func (ex *Exec) mapDelete(st *State, m, k Val) {
	mt := m.t.Underlying().(*types.Map)
	ks := ex.mapKeySort(mt)
	key := ex.mapKey(mt) + "#dom"
	srt := arrSort(SInt, arrSort(ks, SBool))
	h := st.get(key, srt, Meta{})
	ex.logWrite(key, m.one(), srt, Meta{})
	st.heap[key] = heapCell{Store(h, m.one(), Store(Select(h, m.one()), k.one(), TFalse)), Meta{}}
}

func (ex *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup) *State {
	m := ex.val(fr, x.X)
	m.t = x.X.Type()
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		i := ex.toIdx(ex.val(fr, x.Index))
		ex.safety(fr, st, "index out of range", ex.idxIn(i, ex.strLen(m.one())))
		fr.env[x] = Val{t: x.Type(), l: []*Term{ex.strAt(m.one(), i)}}
		return st
	}
	ex.mapGuard(fr, st, m)
	k := ex.val(fr, x.Index).one()
	has := ex.mapHas(st, m, k)
	v := ex.mapGet(st, m, k)
	z := zeroVal(v.t)
	r := Val{t: v.t}
	for i := range v.l {
		r.l = append(r.l, Ite(has, v.l[i], z.l[i]))
	}
	ex.typeFacts(r)
	if x.CommaOk {
		fr.env[x] = Val{t: x.Type(), l: append(append([]*Term{}, r.l...), has)}
	} else {
		ex.recall(&r)
		fr.env[x] = r
	}
	return st
}

func (ex *Exec) rangeInit(fr *Frame, st *State, x *ssa.Range) *State {
	v := ex.val(fr, x.X)
	symCount++
	id := fmt.Sprintf("iter|%d", symCount)
	fr.lastIter[x] = id
	fr.env[x] = Val{t: x.Type(), l: append([]*Term{}, v.l...)}
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		ks := ex.mapKeySort(mt)
		m := v
		m.t = x.X.Type()
		ex.mapGuard(fr, st, m)
		ex.setScalar(st, id, ConstArr(arrSort(ks, SBool), TFalse))
		ex.setScalar(st, id+"|dom0", ex.mapDom(st, m))
	}
	return st
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) *State {
	rg := x.Iter.(*ssa.Range)
	tp := x.Type().(*types.Tuple)
	r := ex.freshVal("next", tp, st.level)
	ok := r.l[0]
	if x.IsString {
		fr.env[x] = r
		return st
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	ks := ex.mapKeySort(mt)
	m := ex.val(fr, rg.X)
	m.t = rg.X.Type()
	id := fr.lastIter[rg]
	vis := ex.getScalar(st, id, arrSort(ks, SBool))
	a, b := tupleRange(tp, 1)
	_ = b
	key := r.l[a]
	if !isInvalidT(tp.At(1).Type()) {
	} else {
		// key unused: still need a key symbol
		key = newVar("next.key", ks, &Meta{level: st.level})
	}
	if key.sort != ks {
		key = newVar("next.key", ks, &Meta{level: st.level})
	}
	ex.assume(st, Implies(ok, And(ex.mapHas(st, m, key), Not(Select(vis, key)))))
	if !isInvalidT(tp.At(2).Type()) {
		c, d := tupleRange(tp, 2)
		v := ex.mapGet(st, m, key)
		if len(v.l) == d-c {
			copy(r.l[c:d], v.l)
		}
	}
	if a < len(r.l) && len(leavesOf(tp.At(1).Type())) == 1 && !isInvalidT(tp.At(1).Type()) {
		r.l[a] = key
	}
	// completeness at the end of the iteration, for the arbitrary-but-fixed keys of the contract
	dom0 := ex.getScalar(st, id+"|dom0", arrSort(ks, SBool))
	for _, lv := range ex.logic {
		if len(lv.l) == 1 && lv.l[0].sort == ks {
			k := lv.l[0]
			ex.assume(st, Implies(And(Not(ok), Select(dom0, k), ex.mapHas(st, m, k)), Select(vis, k)))
		}
	}
	ex.setScalar(st, id, Store(vis, key, TTrue))
	fr.env[x] = r
	return st
}

func isInvalidT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// ---------- conversions ----------

func (ex *Exec) convert(fr *Frame, st *State, v Val, to types.Type) Val {
	fb, fs, fi := isIntType(v.t)
	tb, ts, ti := isIntType(to)
	switch {
	case fi && ti:
		if bvMode {
			return Val{t: to, l: []*Term{bvResize(v.one(), fmt.Sprintf("BV%d", tb), fs)}}
		}
		t := v.one()
		// value-preserving?
		if tb > fb && (ts || !fs) || tb == fb && ts == fs {
			return Val{t: to, l: []*Term{t}}
		}
		if tb == 64 && ts {
			// uint64 -> int64: two's complement
			h := IBig(pow2(63))
			if lo, hi := rangeOf(t); lo != nil && hi != nil && hi.Cmp(pow2(63)) < 0 && lo.Cmp(new(big.Int).Neg(pow2(63))) >= 0 {
				return Val{t: to, l: []*Term{t}}
			}
			return Val{t: to, l: []*Term{Ite(Lt(t, h), t, Sub(t, IBig(pow2(64))))}}
		}
		if tb == 64 && !ts && fs {
			// int -> uint64
			return Val{t: to, l: []*Term{wrapInt(t, 64, false)}}
		}
		return Val{t: to, l: []*Term{wrapInt(t, tb, ts)}}
	case fi && isFloat(to):
		return Val{t: to, l: []*Term{mk("to_real", SReal, "", nil, v.one())}}
	case isFloat(v.t) && ti:
		// truncation toward zero
		x := v.one()
		fl := mk("to_int", SInt, "", nil, x)
		neg := Sub(I(0), mk("to_int", SInt, "", nil, Sub(RConst(new(big.Rat)), x)))
		return Val{t: to, l: []*Term{Ite(Le(RConst(new(big.Rat)), x), fl, neg)}}
	case isFloat(v.t) && isFloat(to):
		return Val{t: to, l: v.l}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		v.t = to
		return v
	}
	// string conversions
	if isString(v.t) && isString(to) {
		v.t = to
		return v
	}
	if isString(v.t) {
		if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			ref := ex.allocRef(st)
			s := v.one()
			n := ex.strLen(s)
			key := elemPrefix(sl.Elem())
			l := leavesOf(sl.Elem())[0]
			srt := arrSort(SInt, arrSort(idxSort(), l.sort))
			h := st.get(key, srt, l.meta)
			ex.logWrite(key, ref, srt, l.meta)
			st.heap[key] = heapCell{Store(h, ref, Lam(arrSort(idxSort(), l.sort), s.birth, func(i *Term) *Term { return ex.strAt(s, i) })), l.meta}
			ex.pg.bytesOf[ref.id] = s
			return Val{t: to, l: []*Term{ref, idxConst(0), n, n}}
		}
		return ex.freshVal("conv", to, st.level)
	}
	if isString(to) {
		if sl, ok := v.t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			if s, ok := ex.pg.bytesOf[v.l[0].id]; ok && v.l[2] == ex.strLen(s) {
				return Val{t: to, l: []*Term{s}}
			}
			s := ex.bytesText(st, v, sl)
			ex.assume(st, Eq(ex.strLen(s), v.l[2]))
			return Val{t: to, l: []*Term{s}}
		}
		return ex.freshVal("conv", to, st.level)
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if _, ok := v.t.Underlying().(*types.Slice); ok {
			v.t = to
			return v
		}
	}
	panic(unsupported("conversion %s -> %s", v.t, to))
}

// bytesText: the string with these bytes, a function of them.
func (ex *Exec) bytesText(st *State, v Val, sl *types.Slice) *Term {
	l := leavesOf(sl.Elem())[0]
	h := st.get(elemPrefix(sl.Elem()), arrSort(SInt, arrSort(idxSort(), l.sort)), l.meta)
	return App("bytes.text", SStr, version(Select(h, v.l[0])), v.l[1], v.l[2])
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// guardOf: the lock field guarding an address, for guard declarations.
func (ex *Exec) guardOf(prefix string) (typ, lock string) {
	if len(ex.pg.guards) == 0 || strings.HasPrefix(prefix, "[]") {
		return
	}
	i := strings.LastIndexByte(prefix, '/') + 1
	parts := strings.SplitN(prefix[i:], ".", 4)
	if len(parts) < 3 {
		return
	}
	l := ex.pg.guards[strings.Join(parts[:3], ".")]
	if l == "" {
		return
	}
	return prefix[:i] + parts[0] + "." + parts[1], l
}

// guardCheck: guarded fields are only accessed while their lock is held (or before the object is shared).
func (ex *Exec) guardCheck(fr *Frame, st *State, a *Addr) {
	typ, lock := ex.guardOf(a.prefix)
	if lock == "" || ex.dry > 0 || ex.noSafety {
		return
	}
	if _, fresh := freshRef(a.base); fresh {
		return
	}
	held := Select(st.get(typ+"."+lock, arrSort(SInt, SBool), Meta{}), a.base)
	i := strings.LastIndexByte(a.prefix, '/') + 1
	if !ex.guardDone[held.id] {
		if ex.guardDone == nil {
			ex.guardDone = map[int]bool{}
		}
		g := Implies(st.cond, held)
		if g == TTrue {
			return
		}
		ex.guardDone[g.id] = true
		ex.oblige(st, "lock", ex.fname(fr)+": "+a.prefix[i:]+" is accessed with "+lock+" held", nil, held)
	}
}

// relock: other threads may have changed the guarded fields since the lock was given up.
func (ex *Exec) relock(st *State, a *Addr) {
	i := strings.LastIndexByte(a.prefix, '/') + 1
	parts := strings.SplitN(a.prefix[i:], ".", 4)
	if len(parts) != 3 || len(ex.pg.guards) == 0 {
		return
	}
	rel := ex.released(st, a)
	if rel == TFalse {
		return
	}
	n := namedByKey(ex.pg, a.prefix[:i]+parts[0]+"."+parts[1])
	if n == nil {
		return
	}
	s := n.Underlying().(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		f := s.Field(k)
		if ex.pg.guards[parts[0]+"."+parts[1]+"."+f.Name()] != parts[2] {
			continue
		}
		fa := &Addr{prefix: strings.TrimSuffix(a.prefix, parts[2]) + f.Name(), base: a.base}
		old := ex.load(st, fa, f.Type())
		fv := ex.freshVal("relock", f.Type(), st.level)
		v := iteVal(rel, fv, old)
		v.t = f.Type()
		ex.store(st, fa, v)
	}
}

// guardInv: what holds of an object's guarded fields whenever its lock is free.
func (ex *Exec) guardInv(st *State, a *Addr) (*GuardInv, *Term) {
	i := strings.LastIndexByte(a.prefix, '/') + 1
	parts := strings.SplitN(a.prefix[i:], ".", 4)
	if len(parts) != 3 {
		return nil, nil
	}
	c := ex.pg.guardInvs[a.prefix[i:]]
	if c == nil {
		return nil, nil
	}
	n := namedByKey(ex.pg, a.prefix[:i]+parts[0]+"."+parts[1])
	if n == nil {
		return nil, nil
	}
	e := &SpecEnv{ex: ex, vars: map[string]Val{c.param: {t: types.NewPointer(n), l: []*Term{a.base}}}, cur: st, old: ex.entry, oldMark: Add(ex.levels[0], I(1))}
	return c, e.Bool(c.expr)
}

func (ex *Exec) released(st *State, a *Addr) *Term {
	key := "released:" + a.prefix
	c, ok := st.heap[key]
	if !ok {
		return TFalse
	}
	return Select(c.t, a.base)
}
func (ex *Exec) setReleased(st *State, a *Addr) {
	key := "released:" + a.prefix
	srt := arrSort(SInt, SBool)
	c, ok := st.heap[key]
	h := ConstArr(srt, TFalse)
	if ok {
		h = c.t
	}
	st.heap[key] = heapCell{Store(h, a.base, TTrue), Meta{}}
}

func namedByKey(pg *Program, key string) *types.Named {
	for p := range pg.srcPkgs {
		if strings.HasPrefix(key, p.Pkg.Path()+".") {
			if o := p.Pkg.Scope().Lookup(key[len(p.Pkg.Path())+1:]); o != nil {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
