package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Turning facts and a goal into a ground SMT problem: quantifiers are handled here (skolem
// constants for goals, instances over explicit terms and pattern matches for hypotheses), so
// what the solver answers "unsat" is a proof and only "sat" may be an incomplete instantiation.

func hasQ(t *Term) bool {
	if t.q != 0 {
		return t.q == 2
	}
	r := t.op == "forall" || t.op == "exists"
	if !r {
		for _, a := range t.args {
			if hasQ(a) {
				r = true
				break
			}
		}
	}
	t.q = 1
	if r {
		t.q = 2
	}
	return r
}

type pform struct {
	t   *Term
	sel *Cand
}

type prep struct {
	ex      *Exec
	base    []*Term
	skolems map[string][]*Term
	skList  []*Term
	ground  map[string][]*Term // head symbol -> ground applications
	gseen   map[int]bool
	strs    []*Term
	budget  int
	axiom   bool // eliminating an axiom's quantifiers
}

func isRefTerm(t *Term) bool {
	if m := baseMeta(t); m != nil {
		return m.isRef || m.alloc
	}
	if _, ok := freshRef(t); ok {
		return true
	}
	if t.op == "app" && strings.HasPrefix(t.name, "ptr:") {
		return true
	}
	if t.op == "bound" {
		return t.meta != nil && t.meta.isRef
	}
	return false
}

func (p *prep) elim(t *Term, pos bool) *Term {
	if !hasQ(t) {
		return t
	}
	switch t.op {
	case "not":
		return Not(p.elim(t.args[0], !pos))
	case "and", "or":
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = p.elim(a, pos)
		}
		if t.op == "and" {
			return And(out...)
		}
		return Or(out...)
	case "=":
		a, b := t.args[0], t.args[1]
		return p.elim(And(Or(Not(a), b), Or(a, Not(b))), pos)
	case "ite":
		if t.sort == SBool {
			c, a, b := t.args[0], t.args[1], t.args[2]
			return And(Or(p.elim(Not(c), pos), p.elim(a, pos)), Or(p.elim(c, pos), p.elim(b, pos)))
		}
	case "forall", "exists":
		vars := t.args[:len(t.args)-1]
		body := t.args[len(t.args)-1]
		univ := (t.op == "forall") == pos
		if !univ {
			k := fmt.Sprintf("%d", t.id)
			sk := p.skolems[k]
			if sk == nil {
				for _, v := range vars {
					m := &Meta{}
					if v.meta != nil {
						*m = *v.meta
					}
					if m.isRef {
						// an arbitrary reference: no level known
						m = &Meta{lo: big.NewInt(0)}
						s := newVar("sk."+v.name, v.sort, m)
						sk = append(sk, s)
						p.skRef(s)
						continue
					}
					s := newVar("sk."+v.name, v.sort, m)
					sk = append(sk, s)
				}
				p.skolems[k] = sk
				p.skList = append(p.skList, sk...)
			}
			m := map[int]*Term{}
			for i, v := range vars {
				m[v.id] = sk[i]
			}
			return p.elim(subst(body, m, map[int]*Term{}), pos)
		}
		var parts []*Term
		pools := make([][]*Term, len(vars))
		var rec func(i int, m map[int]*Term)
		rec = func(i int, m map[int]*Term) {
			if p.budget <= 0 {
				return
			}
			if i == len(vars) {
				p.budget--
				inst := p.elim(subst(body, m, map[int]*Term{}), pos)
				// an instance counts only for values of the variable's type
				for _, v := range vars {
					g := m[v.id]
					if v.sort != SInt || v.meta == nil || v.meta.isRef || v.meta.lo == nil || v.meta.hi == nil || v.meta.lo.Sign() < 0 {
						continue
					}
					in := And(Le(IBig(v.meta.lo), g), Le(g, IBig(v.meta.hi)))
					if t.op == "forall" {
						inst = Implies(in, inst)
					} else {
						inst = And(in, inst)
					}
				}
				parts = append(parts, inst)
				return
			}
			if pools[i] == nil {
				pools[i] = p.pool(vars[i], body)
			}
			for _, g := range pools[i] {
				m2 := map[int]*Term{}
				for k, v := range m {
					m2[k] = v
				}
				m2[vars[i].id] = g
				rec(i+1, m2)
			}
		}
		if tuples, ok := p.joint(vars, body); ok {
			for _, m := range tuples {
				rec(len(vars), m)
			}
		} else {
			rec(0, map[int]*Term{})
		}
		if t.op == "forall" {
			return And(parts...)
		}
		return Or(parts...)
	}
	panic(unsupported("quantifier under %s", t.op))
}

// joint: with the "joint" option, a quantifier over several variables is instantiated with the
// tuples that match a term mentioning all of them, instead of the product of the variables' pools.
func (p *prep) joint(vars []*Term, body *Term) ([]map[int]*Term, bool) {
	if !p.ex.c.Joint || len(vars) < 2 {
		return nil, false
	}
	var pats map[int]*Term
	for _, v := range vars {
		ps := map[int]*Term{}
		collectPatterns(body, v, ps, map[int]bool{})
		if pats == nil {
			pats = ps
			continue
		}
		for id := range pats {
			if ps[id] == nil && !mentions(pats[id], v) {
				delete(pats, id)
			}
		}
	}
	// nested terms are not in every variable's own list: keep those mentioning all
	ids := make([]int, 0, len(pats))
	for id, t := range pats {
		all := true
		for _, v := range vars {
			all = all && mentions(t, v)
		}
		if all {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return nil, false
	}
	sort.Ints(ids)
	var out []map[int]*Term
	seen := map[string]bool{}
	for _, id := range ids {
		pt := pats[id]
		for _, g := range p.ground[head(pt)] {
			m := map[int]*Term{}
			key := ""
			for _, v := range vars {
				b := unify(pt, g, v)
				if b == nil {
					break
				}
				m[v.id] = b
				key += fmt.Sprint(b.id, " ")
			}
			if len(m) == len(vars) && !seen[key] {
				seen[key] = true
				out = append(out, m)
			}
		}
	}
	return out, true
}

var refSkolems = map[int]bool{}

func (p *prep) skRef(t *Term) { refSkolems[t.id] = true }

func (p *prep) pool(v *Term, body *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	vref := v.meta != nil && v.meta.isRef
	add := func(t *Term) {
		if t.sort != v.sort || seen[t.id] || t.bound || len(out) >= 48 {
			return
		}
		seen[t.id] = true
		out = append(out, t)
	}
	base, skList, strs := p.base, p.skList, p.strs
	if p.axiom {
		// axioms are instantiated with the arguments of the functions they are about only
		base, skList, strs = nil, nil, nil
	}
	byPattern := func(same bool) {
		pats := map[int]*Term{}
		collectPatterns(body, v, pats, map[int]bool{})
		ids := make([]int, 0, len(pats))
		for id := range pats {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			pt := pats[id]
			for _, g := range p.ground[head(pt)] {
				if sameArray(pt, g, v) == same {
					if b := unify(pt, g, v); b != nil {
						add(b)
					}
				}
			}
		}
	}
	// first the terms that speak of the same array
	if !p.ex.c.NoPatterns {
		byPattern(true)
	}
	for _, t := range base {
		if t.sort == SInt && (isRefTerm(t) || refSkolems[t.id]) != vref {
			continue
		}
		add(t)
	}
	for _, t := range skList {
		if t.sort == SInt && (isRefTerm(t) || refSkolems[t.id]) != vref {
			continue
		}
		add(t)
	}
	if v.sort == SStr {
		for _, t := range strs {
			add(t)
		}
	}
	if !p.ex.c.NoPatterns {
		byPattern(false)
	}
	return out
}

// sameArray: pattern and ground term differ at most where the pattern mentions the variable.
func sameArray(pt, g, v *Term) bool {
	if pt == g {
		return true
	}
	if pt.op != "select" || g.op != "select" {
		return mentions(pt, v)
	}
	return sameArray(pt.args[0], g.args[0], v) && (mentions(pt.args[1], v) || pt.args[1] == g.args[1])
}

// head: the symbol a ground application is indexed under.
func head(t *Term) string {
	if t.op == "select" {
		d := 0
		for t.op == "select" {
			t = t.args[0]
			d++
		}
		if t.op == "var" {
			return fmt.Sprintf("%s/%d", t.name, d)
		}
		return ""
	}
	return t.op + ":" + t.name
}

func collectPatterns(t, v *Term, out map[int]*Term, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "select" || t.op == "app" {
		for _, a := range t.args {
			if mentions(a, v) && head(t) != "" {
				out[t.id] = t
			}
		}
	}
	for _, a := range t.args {
		collectPatterns(a, v, out, seen)
	}
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// unify finds the value of v making pattern equal to ground term g (other bound variables in
// the pattern are ignored).
func unify(pt, g, v *Term) *Term {
	if pt == v {
		if pt.sort == g.sort {
			return g
		}
		return nil
	}
	if !mentions(pt, v) {
		return nil
	}
	if pt.sort == SInt && (pt.op == "+" || pt.op == "*") {
		l := toLin(pt)
		co, ok := l.co[v]
		if !ok {
			// v may be nested: v inside a mod etc.
			return nil
		}
		delete(l.co, v)
		rest := l.term()
		if rest.bound {
			return nil
		}
		if co.Cmp(big.NewInt(1)) == 0 {
			return Sub(g, rest)
		}
		if co.Cmp(big.NewInt(-1)) == 0 {
			return Sub(rest, g)
		}
		return nil
	}
	if pt.op == "bvadd" {
		for i := 0; i < 2; i++ {
			if pt.args[i] == v && !pt.args[1-i].bound {
				return bvBin("bvsub", g, pt.args[1-i])
			}
			if mentions(pt.args[i], v) && !pt.args[1-i].bound {
				return unify(pt.args[i], bvBin("bvsub", g, pt.args[1-i]), v)
			}
		}
	}
	if pt.op == "zext" && g.op == "const" {
		return unify(pt.args[0], BVc(g.val, pt.args[0].sort), v)
	}
	if pt.op == g.op && pt.name == g.name && len(pt.args) == len(g.args) {
		for i, a := range pt.args {
			if mentions(a, v) {
				if b := unify(a, g.args[i], v); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

func (p *prep) collect(t *Term) {
	if t.bound || p.gseen[t.id] {
		// bound terms may still contain ground parts
		if t.bound && !p.gseen[t.id] {
			p.gseen[t.id] = true
			for _, a := range t.args {
				p.collect(a)
			}
		}
		return
	}
	p.gseen[t.id] = true
	if t.op == "select" || t.op == "app" || t.op == "mod" {
		if h := head(t); h != "" {
			p.ground[h] = append(p.ground[h], t)
		}
	}
	if t.sort == SStr {
		p.strs = append(p.strs, t)
	}
	for _, a := range t.args {
		p.collect(a)
	}
}

// ground produces the quantifier-free problem. goals are asserted negated (as separate named
// formulas the caller conjoins).
func (ex *Exec) groundProblem(nfacts int, goals, extra []*Term, negate bool) (fs []pform, gs []*Term) {
	p := &prep{ex: ex, skolems: map[string][]*Term{}, budget: 6000}
	for _, n := range sortedLogic(ex.logic) {
		p.base = append(p.base, ex.logic[n].l...)
	}
	p.base = append(p.base, ex.instTerms...)
	p.base = append(p.base, extra...)
	refSkolems = map[int]bool{}
	var axioms []*Term
	for _, cl := range ex.pg.axioms {
		e := &SpecEnv{ex: ex, cur: ex.entry, vars: map[string]Val{}}
		m := map[string]Val{}
		var bs []*Term
		for _, sp := range cl.sch {
			t := e.typeOf(sp.typ)
			v := Val{t: t}
			for _, l := range leavesOf(t) {
				b := ex.pg.axBound(cl, sp.name, l)
				bs = append(bs, b)
				v.l = append(v.l, b)
			}
			m[sp.name] = v
		}
		e.vars = m
		body, ok := tryBool(e, cl.expr)
		if !ok {
			continue
		}
		if len(bs) > 0 {
			body = Forall(bs, body)
		}
		axioms = append(axioms, body)
	}
	quantified := false
	for _, f := range ex.facts[:nfacts] {
		if hasQ(f.t) {
			quantified = true
		}
	}
	for _, g := range goals {
		if hasQ(g) {
			quantified = true
		}
	}
	rounds := 1
	if quantified || len(axioms) > 0 {
		rounds = 4
		if ex.c.Rounds > 0 {
			rounds = ex.c.Rounds
		}
	}
	lastSize := -1
	for r := 0; r < rounds; r++ {
		p.budget = 6000
		fs = fs[:0]
		gs = gs[:0]
		for _, g := range goals {
			gs = append(gs, p.elim(g, !negate))
		}
		for _, f := range ex.facts[:nfacts] {
			fs = append(fs, pform{p.elim(f.t, true), f.sel})
		}
		p.axiom = true
		for _, a := range axioms {
			if r > 0 && p.relevant(a) {
				fs = append(fs, pform{p.elim(a, true), nil})
			}
		}
		p.axiom = false
		p.ground = map[string][]*Term{}
		p.gseen = map[int]bool{}
		p.strs = nil
		for _, g := range gs {
			p.collect(g)
		}
		for _, f := range fs {
			p.collect(f.t)
		}
		n := len(p.gseen)
		if n == lastSize && (r > 1 || !p.anyRelevant(axioms)) {
			break
		}
		lastSize = n
	}
	return
}

func (p *prep) anyRelevant(as []*Term) bool {
	for _, a := range as {
		if p.relevant(a) {
			return true
		}
	}
	return false
}

// relevant: one of the functions the axiom is about occurs in the problem.
func (p *prep) relevant(a *Term) bool {
	found := false
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "app" && t.name != "strcat" && len(p.ground[head(t)]) > 0 {
			found = true
			return
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(a)
	return found
}

func sortedLogic(m map[string]Val) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func tryBool(e *SpecEnv, n *Node) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specError); is {
				t, ok = nil, false
				return
			}
			if _, is := r.(unsupportedErr); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return e.Bool(n), true
}

func (pg *Program) axBound(cl *Clause, name string, l Leaf) *Term {
	k := fmt.Sprintf("%p/%s%s", cl, name, l.path)
	if pg.axVars == nil {
		pg.axVars = map[string]*Term{}
	}
	if b, ok := pg.axVars[k]; ok {
		return b
	}
	b := newBound(name+l.path, l.sort)
	m := l.meta
	b.meta = &m
	pg.axVars[k] = b
	return b
}

// ---------- SMT-LIB text ----------

type emitter struct {
	ex    *Exec
	sb    strings.Builder // definitions
	names map[int]string
	decl  map[string]bool
	uses  map[int]int
	leafs []*Term
	strs  []*Term
	gmods []*Term
	gdivs []*Term
	cats  []*Term
	slens map[int]*Term
	sats  []*Term
	ptrs  []*Term
	useLen bool
}

func q(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "/")
	return "|" + s + "|"
}

func (em *emitter) declare(name string, args []string, res string) {
	if em.decl[name] {
		return
	}
	em.decl[name] = true
	fmt.Fprintf(&em.sb, "(declare-fun %s (%s) %s)\n", q(name), strings.Join(args, " "), res)
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (em *emitter) term(t *Term) string {
	if n, ok := em.names[t.id]; ok {
		return n
	}
	var s string
	atom := false
	switch t.op {
	case "true", "false":
		return t.op
	case "const":
		if isBV(t.sort) {
			return fmt.Sprintf("(_ bv%s %s)", t.val.String(), t.sort[2:])
		}
		return smtInt(t.val)
	case "rconst":
		r, _ := new(big.Rat).SetString(t.name)
		n := r.Num()
		if n.Sign() < 0 {
			return fmt.Sprintf("(- (/ %s.0 %s.0))", new(big.Int).Neg(n), r.Denom())
		}
		return fmt.Sprintf("(/ %s.0 %s.0)", n, r.Denom())
	case "str":
		nm := "str:" + t.name
		em.declare(nm, nil, "Str")
		em.strs = append(em.strs, t)
		em.names[t.id] = q(nm)
		return q(nm)
	case "var":
		if strings.HasPrefix(t.sort, "[") {
			panic(unsupported("array value used as a scalar: %s", t.name))
		}
		em.declare(t.name, nil, smtSort(t.sort))
		em.names[t.id] = q(t.name)
		em.leafs = append(em.leafs, t)
		return q(t.name)
	case "select":
		var idx []*Term
		b := t
		for b.op == "select" {
			idx = append([]*Term{b.args[1]}, idx...)
			b = b.args[0]
		}
		if b.op != "var" {
			panic(unsupported("unresolved array %s", b.op))
		}
		if strings.HasPrefix(t.sort, "[") {
			panic(unsupported("array value used as a scalar: %s", b.name))
		}
		var as, ss []string
		for _, i := range idx {
			as = append(as, em.term(i))
			ss = append(ss, smtSort(i.sort))
		}
		em.declare(b.name, ss, smtSort(t.sort))
		s = "(" + q(b.name) + " " + strings.Join(as, " ") + ")"
		em.leafs = append(em.leafs, t)
	case "app":
		var as, ss []string
		for _, i := range t.args {
			as = append(as, em.term(i))
			ss = append(ss, smtSort(i.sort))
		}
		nm := t.name
		em.declare(nm, ss, smtSort(t.sort))
		if len(as) == 0 {
			s = q(nm)
			atom = true
		} else {
			s = "(" + q(nm) + " " + strings.Join(as, " ") + ")"
		}
		switch {
		case nm == "gmod":
			em.gmods = append(em.gmods, t)
		case nm == "gdiv":
			em.gdivs = append(em.gdivs, t)
		case nm == "strcat":
			em.cats = append(em.cats, t)
		case nm == "strlen":
			em.useLen = true
			em.slens[t.args[0].id] = t
		case nm == "strat":
			em.sats = append(em.sats, t)
		case strings.HasPrefix(nm, "ptr:"):
			em.ptrs = append(em.ptrs, t)
		}
	case "bound":
		panic(unsupported("free bound variable %s", t.name))
	default:
		op := t.op
		switch op {
		case "r+", "r-", "r*", "r/":
			op = op[1:]
		case "extract":
			op = fmt.Sprintf("(_ extract %s 0)", t.name)
		case "zext":
			op = fmt.Sprintf("(_ zero_extend %s)", t.name)
		case "sext":
			op = fmt.Sprintf("(_ sign_extend %s)", t.name)
		case "store", "lam", "forall", "exists":
			panic(unsupported("%s reached the solver", op))
		}
		var as []string
		for _, a := range t.args {
			as = append(as, em.term(a))
		}
		s = "(" + op + " " + strings.Join(as, " ") + ")"
	}
	if atom {
		em.names[t.id] = s
		return s
	}
	if em.uses[t.id] > 1 && len(s) > 12 {
		n := fmt.Sprintf("n%d", t.id)
		fmt.Fprintf(&em.sb, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), s)
		em.names[t.id] = n
		return n
	}
	em.names[t.id] = s
	return s
}

func countUses(t *Term, u map[int]int) {
	u[t.id]++
	if u[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		countUses(a, u)
	}
}

type textForm struct {
	text string
	sel  *Cand
}

// Problem is a ready to run SMT problem. The goal formulas are the nullary functions goal_i.
type Problem struct {
	name    string
	obls    []*Obl
	prelude string
	forms   []textForm
	side    []string
	ngoals  int
	cover   bool
	before  *Problem
	values  []string
	size    int
}

func (ex *Exec) buildProblem(name string, nfacts int, obls []*Obl, cover bool) *Problem {
	var goals, extra []*Term
	for _, o := range obls {
		goals = append(goals, o.goal)
		extra = append(extra, o.inst...)
	}
	fs, gs := ex.groundProblem(nfacts, goals, extra, !cover)
	em := &emitter{ex: ex, names: map[int]string{}, decl: map[string]bool{}, uses: map[int]int{}, slens: map[int]*Term{}}
	for _, f := range fs {
		countUses(f.t, em.uses)
	}
	for _, g := range gs {
		countUses(g, em.uses)
	}
	pr := &Problem{name: name, obls: obls, ngoals: len(gs), cover: cover}
	for _, f := range fs {
		if f.t == TTrue {
			continue
		}
		pr.forms = append(pr.forms, textForm{em.term(f.t), f.sel})
	}
	var gdefs []string
	for i, g := range gs {
		gdefs = append(gdefs, fmt.Sprintf("(define-fun goal_%d () Bool %s)", i, em.term(g)))
	}
	// values for the counterexample
	var names []string
	for n := range ex.params {
		names = append(names, n)
	}
	sort.Strings(names)
	side := func(t *Term) {
		if t == TTrue {
			return
		}
		countUses(t, em.uses)
		pr.side = append(pr.side, em.term(t))
	}
	// lemmas on derived symbols may create new leaves; iterate over growing lists
	seenL := map[int]bool{}
	li, gi, ci, si, pi := 0, 0, 0, 0, 0
	for li < len(em.leafs) || gi < len(em.gmods)+len(em.gdivs) || ci < len(em.cats) || si < len(em.sats) || pi < len(em.ptrs) {
		for ; pi < len(em.ptrs); pi++ {
			side(mkLt(I(0), em.ptrs[pi]))
		}
		for ; ci < len(em.cats); ci++ {
			c := em.cats[ci]
			if !bvMode {
				l := func(t *Term) *Term {
					if t.op == "str" {
						return I(int64(len(unq(t.name))))
					}
					return App("strlen", SInt, t)
				}
				if em.useLen {
					side(mkEq(l(c), Add(l(c.args[0]), l(c.args[1]))))
				}
			}
		}
		for ; si < len(em.sats); si++ {
		}
		if gi < len(em.gmods)+len(em.gdivs) {
			gi = len(em.gmods) + len(em.gdivs)
			gms := append([]*Term(nil), em.gmods...)
			for _, g := range gms {
				a, n := g.args[0], g.args[1]
				pre := And(Lt(I(0), n), Le(I(0), a))
				side(Implies(pre, And(mkLe(I(0), g), mkLt(g, n))))
				side(Implies(And(pre, Lt(a, n)), mkEq(g, a)))
			}
			for i, g := range gms {
				for _, h := range gms[i+1:] {
					if g.args[1] != h.args[1] {
						continue
					}
					a, b, n := g.args[0], h.args[0], g.args[1]
					d := Sub(a, b)
					pre := And(Lt(I(0), n), Le(I(0), a), Le(I(0), b))
					side(Implies(And(pre, Lt(Sub(I(0), n), d), Lt(d, n), Ne(d, I(0))), Not(mkEq(g, h))))
					side(Implies(And(pre, Eq(a, Add(b, n))), mkEq(g, h)))
					side(Implies(And(pre, Eq(b, Add(a, n))), mkEq(g, h)))
				}
			}
			for _, g := range em.gdivs {
				a, n := g.args[0], g.args[1]
				side(Implies(And(Lt(I(0), n), Le(I(0), a)), And(mkLe(I(0), g), mkLe(g, a))))
			}
		}
		for ; li < len(em.leafs); li++ {
			t := em.leafs[li]
			if seenL[t.id] {
				continue
			}
			seenL[t.id] = true
			m := baseMeta(t)
			if m == nil || t.sort != SInt {
				continue
			}
			if m.alloc {
				continue
			}
			if m.isRef {
				side(mkLe(I(0), t))
				lv, known := refLevel(t)
				if !known {
					lv = m.level
				}
				if lv >= len(ex.levels) {
					lv = len(ex.levels) - 1
				}
				if known {
					side(mkLt(t, ex.levels[lv]))
				} else {
					side(Implies(mkLt(selBase(t), ex.levels[lv]), mkLt(t, ex.levels[lv])))
				}
				continue
			}
			if m.lo != nil {
				side(mkLe(IBig(m.lo), t))
			}
			if m.hi != nil {
				side(mkLe(t, IBig(m.hi)))
			}
		}
	}
	// allocation levels
	for i, a := range ex.levels {
		if i == 0 {
			side(mkLe(I(100000), a))
		} else {
			side(mkLe(Add(ex.levels[i-1], I(1000000)), a))
		}
	}
	// string constants
	seenS := map[int]bool{}
	var sn []string
	for _, s := range em.strs {
		if !seenS[s.id] {
			seenS[s.id] = true
			sn = append(sn, em.names[s.id])
			if em.useLen && !bvMode {
				pr.side = append(pr.side, fmt.Sprintf("(= (strlen %s) %d)", em.names[s.id], len(unq(s.name))))
			}
		}
	}
	if len(sn) > 1 {
		pr.side = append(pr.side, "(distinct "+strings.Join(sn, " ")+")")
	}
	// counterexample values
	for _, n := range names {
		v := ex.params[n]
		for i, l := range v.l {
			if nm, ok := em.names[l.id]; ok && l.op == "var" {
				pr.values = append(pr.values, nm)
				_ = i
			}
		}
		// fields of pointees read by the problem
	}
	for _, t := range em.leafs {
		if t.op == "select" && len(pr.values) < 60 {
			b := t
			for b.op == "select" {
				b = b.args[0]
			}
			if strings.HasPrefix(b.name, "H.in.") {
				pr.values = append(pr.values, em.names[t.id])
			}
		}
	}
	hd := "(set-option :produce-models true)\n(set-logic ALL)\n(declare-sort Str 0)\n"
	pr.prelude = hd + em.sb.String() + strings.Join(gdefs, "\n") + "\n"
	pr.size = len(pr.prelude)
	return pr
}

// raw comparisons (no simplification by ranges, which would erase the very fact asserted)
func mkLe(a, b *Term) *Term { return mk("<=", SBool, "", nil, a, b) }
func mkLt(a, b *Term) *Term { return Not(mk("<=", SBool, "", nil, b, a)) }
func mkEq(a, b *Term) *Term { return mk("=", SBool, "", nil, a, b) }

func (pr *Problem) text(goal string) string {
	var sb strings.Builder
	sb.WriteString(pr.prelude)
	for _, f := range pr.forms {
		if f.sel != nil && !f.sel.alive {
			continue
		}
		sb.WriteString("(assert " + f.text + ")\n")
	}
	for _, s := range pr.side {
		sb.WriteString("(assert " + s + ")\n")
	}
	sb.WriteString("(assert " + goal + ")\n(check-sat)\n")
	return sb.String()
}
