package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Node is a parsed specification expression.
type Node struct {
	op   string // ident int str bool un bin cond call sel index quant type
	s    string
	kids []*Node
	vars []Param
	typ  string
}

type Param struct{ name, typ string }

type Clause struct {
	label string
	tags  []string
	src   string
	expr  *Node
	sch   []Param // schematic variables (inv), quantified variables (axiom), parameters (oncall)
	key   string  // oncall: callee
	where string
}

type Contract struct {
	Key, Kind  string // func extern iface field
	Params     []string
	Anchored   bool // the function of this name fits
	Anchors    [][]string // what tells the function apart from others, whatever it is called
	Results    []string
	Props      []string
	Mode       string
	Optional   bool // an internal helper that may be absent
	Logic      []Param
	Requires   []*Clause
	Given      []*Clause // assumptions that only define a boolean logic variable from below
	Ensures    []*Clause
	Inv        []*Clause
	OnCall     []*Clause
	Exits      []*Clause
	Panics     []*Clause
	Cover      []*Clause
	Inst       []*Clause
	Sets       []*Clause // lhs expr in sch? : key holds lhs source
	SetsLHS    []*Node
	Modifies   []*Node
	HasMod     bool
	ModAll     bool
	MayPanic   bool
	Aborts     bool
	NoReturn   bool
	Inline     bool
	NoSafety   bool
	Trusted    string // reason (extern/iface, or an assumed contract)
	SafetyTags []string
	Split      *Clause
	SplitVals  []string
	SplitIn    map[string][]string // property of another contract -> the cases it needs
	File       string
	Line       int
	Timeout    int
	NoPatterns bool
	Joint      bool
	Rounds     int
	Neutral    bool     // its clauses mean the same in integers and in bit vectors
	LocalNth   map[string]int
	Locals     []Param  // names for variables of the function, found by their type
	Monitor    *Monitor // the local lock under which it shares variables with other goroutines
}

// Monitor: a lock among the variables of a function and its closures.
type Monitor struct {
	lock    string
	changes []*Node   // what other goroutines may change while the lock is free
	inv     []*Clause // what holds whenever the lock is free
	sets    []*Clause // ghost bookkeeping when the lock is taken
	lhs     []*Node
	given   []*Clause // what is taken for granted when the lock is taken (ownership)
	guards  []*Clause // maps used with the lock held only
	shared  bool      // shared variables are accessed with the lock held only
}

type Pure struct {
	name    string
	params  []string
	body    *Node
	machine bool // has a meaning in bit vectors only; elsewhere a predicate of what it reads
	reads   []readKey
}
type readKey struct {
	key, srt string
	meta     Meta
}
type Ghost struct {
	name, key, typ string // key: "" scalar, ref, string, int
	zero           bool   // new objects start with the zero value
}
type UF struct {
	name string
	args []string
	res  string
}

type specError struct{ msg string }

func (e specError) Error() string { return e.msg }
func specErr(f string, a ...interface{}) specError {
	return specError{fmt.Sprintf(f, a...)}
}

// ---------- lexer ----------

type tok struct {
	k string // id int str op eof
	s string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '#':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{"str", s[i : j+1]})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "::", "&^"} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
			}
			out = append(out, tok{"op", op})
			i += len(op)
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].k != "str" && p.t[p.i].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(specErr("expected %q, got %q", s, p.peek().s))
	}
}

func parseExpr(s string) *Node {
	p := &parser{t: lex(s)}
	n := p.expr(0)
	if p.peek().k != "eof" {
		panic(specErr("unexpected %q in %q", p.peek().s, s))
	}
	return n
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"|": 6, "^": 6, "+": 6, "-": 6,
	"*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7, "&^": 7,
}

func (p *parser) expr(min int) *Node {
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		var vs []Param
		for {
			n := p.next().s
			ty := p.typ()
			vs = append(vs, Param{n, ty})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		b := p.expr(0)
		return &Node{op: "quant", s: q, vars: vs, kids: []*Node{b}}
	}
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			break
		}
		if t.s == "?" && min <= 0 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(0)
			l = &Node{op: "cond", kids: []*Node{l, a, b}}
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			break
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Node{op: "bin", s: t.s, kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) unary() *Node {
	if p.peek().k == "op" {
		switch p.peek().s {
		case "!", "-", "*", "^":
			o := p.next().s
			return &Node{op: "un", s: o, kids: []*Node{p.unary()}}
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Node {
	n := p.primary()
	for {
		switch {
		case p.accept("."):
			f := p.next()
			if f.s == "(" {
				panic(specErr("type assertion syntax: use as(x, T)"))
			}
			n = &Node{op: "sel", s: f.s, kids: []*Node{n}}
		case p.accept("["):
			i := p.expr(0)
			p.expect("]")
			n = &Node{op: "index", kids: []*Node{n, i}}
		case p.is("(") && (n.op == "ident"):
			p.next()
			c := &Node{op: "call", s: n.s}
			for !p.is(")") {
				if (n.s == "istype" || n.s == "as" || n.s == "zero") && (len(c.kids) == 1 || n.s == "zero") {
					c.kids = append(c.kids, &Node{op: "type", s: p.typ()})
				} else {
					c.kids = append(c.kids, p.expr(0))
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			n = c
		default:
			return n
		}
	}
}

// typ parses a type expression as text.
func (p *parser) typ() string {
	s := ""
	for {
		switch {
		case p.accept("*"):
			s += "*"
			continue
		case p.is("["):
			p.next()
			if p.accept("]") {
				s += "[]"
			} else if p.peek().k == "int" {
				s += "[" + p.next().s + "]"
				p.expect("]")
			} else {
				k := p.typ()
				p.expect("]")
				s += "[" + k + "]"
			}
			continue
		}
		break
	}
	id := p.next().s
	if id == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return s + "map[" + k + "]" + p.typ()
	}
	s += id
	if p.is(".") {
		p.next()
		s += "." + p.next().s
	}
	return s
}

func (p *parser) primary() *Node {
	t := p.next()
	switch t.k {
	case "int":
		return &Node{op: "int", s: t.s}
	case "str":
		return &Node{op: "str", s: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &Node{op: "bool", s: t.s}
		}
		return &Node{op: "ident", s: t.s}
	}
	if t.s == "(" {
		n := p.expr(0)
		p.expect(")")
		return n
	}
	panic(specErr("unexpected %q", t.s))
}

func (p *parser) params() []Param {
	var out []Param
	p.expect("(")
	for !p.is(")") {
		n := p.next().s
		out = append(out, Param{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// ---------- files ----------

var clauseKw = map[string]bool{"func": true, "extern": true, "iface": true, "field": true, "var": true, "props": true, "mode": true, "logic": true,
	"cases": true, "requires": true, "given": true, "ensures": true, "modifies": true, "sets": true, "inv": true, "oncall": true, "inst": true, "maypanic": true, "aborts": true,
	"neutral": true, "local": true, "monitor": true, "machine": true, "split": true, "cover": true, "pure": true, "ghost": true, "uf": true, "axiom": true, "safety": true, "inline": true,
	"nosafety": true, "exits": true, "panics": true, "guard": true, "guardinv": true, "trusted": true, "optional": true, "anchor": true, "noreturn": true, "timeout": true, "nopatterns": true, "joint": true, "rounds": true}

// GuardInv: an invariant of the fields guarded by a lock.
type GuardInv struct {
	param, label string
	expr         *Node
}

func (pg *Program) loadSpecs(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.vspec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := pg.loadSpec(f, string(b)); err != nil {
			return err
		}
	}
	pg.resolveAnchors()
	return nil
}

func (pg *Program) loadSpec(file, text string) (err error) {
	type ln struct {
		kw, rest string
		no       int
	}
	var lines []ln
	for i, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "# ") || t == "#" {
			continue
		}
		if j := strings.Index(t, " // "); j >= 0 {
			t = strings.TrimSpace(t[:j])
		}
		w := t
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			w = t[:j]
		}
		if clauseKw[w] {
			lines = append(lines, ln{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: no clause", file, i+1)
			}
			lines[len(lines)-1].rest += " " + t
		}
	}
	var c *Contract
	cur := ln{}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specError); ok {
				err = fmt.Errorf("%s:%d: %s", file, cur.no, e.msg)
				return
			}
			panic(r)
		}
	}()
	for _, l := range lines {
		cur = l
		switch l.kw {
		case "func", "extern", "iface", "field", "var":
			c = &Contract{Kind: l.kw, File: file, Line: l.no, Mode: "int"}
			h := l.rest
			i := strings.IndexByte(h, '(')
			if i < 0 {
				panic(specErr("header %q", h))
			}
			c.Key = strings.TrimSpace(h[:i])
			if l.kw == "field" || l.kw == "var" {
				c.Key = l.kw + " " + c.Key
			}
			rest := h[i+1:]
			j := strings.IndexByte(rest, ')')
			c.Params = splitNames(rest[:j])
			rest = strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(rest, "(") {
				c.Results = splitNames(strings.Trim(rest, "()"))
			}
			if l.kw != "func" {
				c.Trusted = l.kw
			}
			if pg.contracts[c.Key] != nil {
				panic(specErr("duplicate contract %s", c.Key))
			}
			pg.contracts[c.Key] = c
			pg.order = append(pg.order, c)
			continue
		case "pure", "machine":
			if l.kw == "machine" {
				l.rest = strings.TrimSpace(strings.TrimPrefix(l.rest, "pure"))
			}
			i := strings.IndexByte(l.rest, '(')
			j := strings.IndexByte(l.rest, ')')
			k := strings.IndexByte(l.rest[j:], '=') + j
			name := strings.TrimSpace(l.rest[:i])
			pg.pures[name] = &Pure{name: name, params: splitNames(l.rest[i+1 : j]), body: parseExpr(l.rest[k+1:]), machine: l.kw == "machine"}
			continue
		case "ghost":
			f := strings.Fields(l.rest)
			g := &Ghost{name: f[0], typ: f[1], zero: len(f) > 2 && f[2] == "zero"}
			if strings.HasPrefix(g.typ, "[") && !strings.HasPrefix(g.typ, "[]") {
				k := strings.IndexByte(g.typ, ']')
				g.key, g.typ = g.typ[1:k], g.typ[k+1:]
			}
			pg.ghosts[g.name] = g
			continue
		case "uf":
			i := strings.IndexByte(l.rest, '(')
			j := strings.IndexByte(l.rest, ')')
			u := &UF{name: strings.TrimSpace(l.rest[:i]), args: splitNames(l.rest[i+1 : j]), res: strings.TrimSpace(l.rest[j+1:])}
			pg.ufs[u.name] = u
			continue
		case "axiom":
			cl := parseClause(l.rest, "axiom", file, l.no)
			pg.axioms = append(pg.axioms, cl)
			continue
		}
		if c == nil && l.kw != "guard" && l.kw != "guardinv" {
			panic(specErr("%s outside a contract", l.kw))
		}
		where := fmt.Sprintf("%s:%d", filepath.Base(file), l.no)
		_ = where
		switch l.kw {
		case "props":
			c.Props = strings.Fields(strings.ReplaceAll(l.rest, ",", " "))
		case "mode":
			c.Mode = l.rest
		case "optional":
			c.Optional = true
		case "anchor":
			c.Anchors = append(c.Anchors, strings.Fields(l.rest))
		case "logic":
			p := &parser{t: lex("(" + l.rest + ")")}
			c.Logic = append(c.Logic, p.params()...)
		case "requires":
			c.Requires = append(c.Requires, parseClause(l.rest, "requires", file, l.no))
		case "given":
			// given forall x T :: P ==> v, v a boolean logic variable: always satisfiable (v = true), so it
			// constrains no input; v then stands for the least fact the clause implies
			cl := parseClause(l.rest, "given", file, l.no)
			n := cl.expr
			for n.op == "quant" && n.s == "forall" {
				n = n.kids[0]
			}
			ok := n.op == "bin" && n.s == "==>" && n.kids[1].op == "ident"
			if ok {
				ok = false
				for _, v := range c.Logic {
					ok = ok || v.name == n.kids[1].s && v.typ == "bool"
				}
			}
			if !ok {
				panic(specErr("given %q must have the form forall ... :: P ==> v with v a boolean logic variable", l.rest))
			}
			c.Given = append(c.Given, cl)
		case "ensures":
			c.Ensures = append(c.Ensures, parseClause(l.rest, "ensures", file, l.no))
		case "cover":
			c.Cover = append(c.Cover, parseClause(l.rest, "cover", file, l.no))
		case "exits":
			c.Exits = append(c.Exits, parseClause(l.rest, "exits", file, l.no))
		case "panics":
			c.Panics = append(c.Panics, parseClause(l.rest, "panics", file, l.no))
			c.MayPanic = true
		case "guard":
			// guard pkg.Type.lock: field, field
			i := strings.IndexByte(l.rest, ':')
			k := strings.TrimSpace(l.rest[:i])
			j := strings.LastIndexByte(k, '.')
			for _, f := range strings.Split(l.rest[i+1:], ",") {
				if pg.guards == nil {
					pg.guards = map[string]string{}
				}
				pg.guards[k[:j]+"."+strings.TrimSpace(f)] = k[j+1:]
			}
		case "guardinv":
			// guardinv pkg.Type.lock(x) label: expr
			i := strings.IndexByte(l.rest, '(')
			j := strings.IndexByte(l.rest, ')')
			cl := parseClause(strings.TrimSpace(l.rest[j+1:]), "guardinv", file, l.no)
			if pg.guardInvs == nil {
				pg.guardInvs = map[string]*GuardInv{}
			}
			pg.guardInvs[strings.TrimSpace(l.rest[:i])] = &GuardInv{strings.TrimSpace(l.rest[i+1 : j]), cl.label, cl.expr}
		case "inv":
			c.Inv = append(c.Inv, parseClause(l.rest, "inv", file, l.no))
		case "inst":
			for _, e := range splitTop(l.rest) {
				c.Inst = append(c.Inst, &Clause{src: e, expr: parseExpr(e)})
			}
		case "oncall":
			// oncall key(params) {tags} label: expr
			i := strings.IndexByte(l.rest, '(')
			j := strings.IndexByte(l.rest, ')')
			cl := parseClause(strings.TrimSpace(l.rest[j+1:]), "oncall", file, l.no)
			cl.key = strings.TrimSpace(l.rest[:i])
			for _, n := range splitNames(l.rest[i+1 : j]) {
				cl.sch = append(cl.sch, Param{n, ""})
			}
			c.OnCall = append(c.OnCall, cl)
		case "sets":
			i := topEq(l.rest)
			c.SetsLHS = append(c.SetsLHS, parseExpr(l.rest[:i]))
			c.Sets = append(c.Sets, &Clause{src: l.rest, expr: parseExpr(l.rest[i+1:])})
		case "modifies":
			c.HasMod = true
			if l.rest == "nothing" {
				break
			}
			for _, e := range splitTop(l.rest) {
				if e == "*" {
					c.ModAll = true
					continue
				}
				c.Modifies = append(c.Modifies, parseLoc(e))
			}
		case "maypanic":
			c.MayPanic = true
		case "aborts":
			// explicit panic statements may end the process; run-time errors are still obligations
			c.Aborts = true
		case "noreturn":
			c.NoReturn = true
		case "inline":
			c.Inline = true
		case "nosafety":
			c.NoSafety = true
		case "trusted":
			c.Trusted = l.rest
			if c.Trusted == "" {
				c.Trusted = "trusted"
			}
		case "safety":
			c.SafetyTags = strings.Fields(strings.Trim(l.rest, "{}"))
		case "neutral":
			c.Neutral = true
		case "local":
			f := strings.Fields(l.rest)
			c.Locals = append(c.Locals, Param{f[0], f[1]})
			if len(f) == 3 { // several of that type: the one of this name, or else the nth
				if c.LocalNth == nil {
					c.LocalNth = map[string]int{}
				}
				c.LocalNth[f[0]], _ = strconv.Atoi(f[2])
			}
		case "monitor":
			// monitor LOCK shared | guards MAPS | changes LOCATIONS | inv label: expr | given label: expr | sets GHOST = expr
			f := strings.SplitN(l.rest, " ", 3)
			if c.Monitor == nil {
				c.Monitor = &Monitor{lock: f[0]}
			}
			switch {
			case f[0] != c.Monitor.lock:
				panic(specErr("one monitor per function"))
			case f[1] == "shared":
				c.Monitor.shared = true
			case f[1] == "changes":
				for _, e := range splitTop(f[2]) {
					c.Monitor.changes = append(c.Monitor.changes, parseLoc(e))
				}
			case f[1] == "guards":
				for _, e := range splitTop(f[2]) {
					c.Monitor.guards = append(c.Monitor.guards, parseClause(e, "monitor", file, l.no))
				}
			case f[1] == "given":
				c.Monitor.given = append(c.Monitor.given, parseClause(f[2], "monitor", file, l.no))
			case f[1] == "sets":
				i := strings.Index(f[2], " = ")
				c.Monitor.lhs = append(c.Monitor.lhs, parseLoc(f[2][:i]))
				c.Monitor.sets = append(c.Monitor.sets, parseClause(f[2][i+3:], "sets", file, l.no))
			case f[1] == "inv":
				c.Monitor.inv = append(c.Monitor.inv, parseClause(f[2], "monitor", file, l.no))
			default:
				panic(specErr("monitor %s", l.rest))
			}
		case "joint":
			c.Joint = true
		case "nopatterns":
			c.NoPatterns = true
		case "rounds":
			fmt.Sscan(l.rest, &c.Rounds)
		case "timeout":
			fmt.Sscan(l.rest, &c.Timeout)
		case "split":
			i := strings.Index(l.rest, "=")
			c.Split = &Clause{src: l.rest[:i], expr: parseExpr(l.rest[:i])}
			c.SplitVals = strings.Fields(strings.ReplaceAll(l.rest[i+1:], "|", " "))
		case "cases": // cases PROPERTY VALUE…: the cases of the split the check of another property redoes
			f := strings.Fields(l.rest)
			if c.SplitIn == nil {
				c.SplitIn = map[string][]string{}
			}
			c.SplitIn[f[0]] = f[1:]
		}
	}
	return nil
}

// parseLoc: a modifies item: elems(x), map(x), all(T.f), ghost g, x.f, x.*, *p
func parseLoc(s string) *Node {
	if strings.HasSuffix(s, ".*") {
		return &Node{op: "allfields", kids: []*Node{parseExpr(s[:len(s)-2])}}
	}
	if strings.HasPrefix(s, "all(") {
		return &Node{op: "allof", s: strings.TrimSuffix(s[4:], ")")}
	}
	return parseExpr(s)
}

func splitNames(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f == "" {
			continue
		}
		out = append(out, strings.Fields(f)[0])
	}
	return out
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	out = append(out, strings.TrimSpace(s[st:]))
	return out
}

func topEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '=':
			if d == 0 && (i+1 >= len(s) || s[i+1] != '=') {
				return i
			}
		}
	}
	panic(specErr("no = in %q", s))
}

// parseClause: [(schematic params)] [{tags}] [label:] expr
func parseClause(s, kind, file string, line int) *Clause {
	c := &Clause{src: s, where: fmt.Sprintf("%s:%d", filepath.Base(file), line)}
	s = strings.TrimSpace(s)
	if (kind == "inv" || kind == "axiom") && strings.HasPrefix(s, "(") {
		// schematic parameters only if the first token inside starts with $ (inv) or for axioms
		if kind == "axiom" || strings.HasPrefix(s, "($") {
			j := strings.IndexByte(s, ')')
			p := &parser{t: lex(s[:j+1])}
			c.sch = p.params()
			s = strings.TrimSpace(s[j+1:])
		}
	}
	if strings.HasPrefix(s, "{") {
		j := strings.IndexByte(s, '}')
		c.tags = strings.Fields(strings.ReplaceAll(s[1:j], ",", " "))
		s = strings.TrimSpace(s[j+1:])
	}
	// label: identifier followed by ':' (not '::')
	if j := strings.IndexByte(s, ':'); j > 0 && j+1 < len(s) && s[j+1] != ':' {
		lab := s[:j]
		ok := true
		for _, r := range lab {
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-' || r == '_') {
				ok = false
			}
		}
		if ok {
			c.label = lab
			s = s[j+1:]
		}
	}
	if c.label == "" {
		c.label = fmt.Sprintf("%s@%d", kind, line)
	}
	c.src = strings.TrimSpace(s)
	c.expr = parseExpr(s)
	return c
}
