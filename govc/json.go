package main

import (
	"go/types"
	"reflect"
	"strings"
)

// The JSON libraries (encoding/json, titanous/json5) as uninterpreted functions of the message
// bytes. A message is identified by its backing array (its bytes are never modified afterwards,
// which the frame conditions check); a member by the path of its tag names.
//   jsonok(d, type)       decoding d into that type succeeds
//   jsonhas(d, key)       the top-level object has the key      (decoding into a map)
//   jsonany(d, key)       its value
//   jsonstr(d, path)      the string decoded for that path ("" when absent)
//   jsonobj(d, path)      the pointer at that path is set
//   jsonlen/jsonelem      string lists
//   jsonout(d, path)      the string encoded under that path;  jsonput(d, path): it is present

func ifaceTags(t *Term, out map[int64]bool) bool {
	switch t.op {
	case "const":
		out[t.val.Int64()] = true
		return true
	case "ite":
		a := ifaceTags(t.args[1], out)
		return ifaceTags(t.args[2], out) && a
	}
	return false
}

func jsonName(st *types.Struct, i int) (name string, omit bool, skip bool) {
	f := st.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	if name == "" {
		name = f.Name()
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	return
}

func jsonJoin(path, name string) string {
	if path == "" {
		return name
	}
	return path + "." + name
}

func (ex *Exec) jsonTypeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return ex.pg.pkgName(p) })
}

// jsonBuild is the value decoded for a type at a path.
func (ex *Exec) jsonBuild(st *State, d *Term, path string, t types.Type, old *Val, depth int) Val {
	p := StrConst(path)
	if isOpaque(t) || depth > 6 {
		return ex.freshVal("json", t, st.level)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return Val{t: t, l: []*Term{App("jsonstr", SStr, d, p)}}
		}
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Basic:
			has := App("jsonobj", SBool, d, p)
			ref := ex.allocRef(st)
			inner := ex.jsonBuild(st, d, path, u.Elem(), nil, depth+1)
			ptr := Val{t: t, l: []*Term{ref}}
			ex.store(st, addrOf(ptr), inner)
			return Val{t: t, l: []*Term{Ite(has, ref, I(0))}}
		}
	case *types.Slice:
		if isString(u.Elem()) {
			ref := ex.allocRef(st)
			l := leavesOf(u.Elem())[0]
			_, key, srt := ex.elemArr(st, u.Elem(), l, ref)
			h := st.get(key, srt, l.meta)
			ex.logWrite(key, ref, srt, l.meta)
			body := Lam(arrSort(idxSort(), l.sort), d.birth, func(i *Term) *Term { return App("jsonelem", SStr, d, p, i) })
			st.heap[key] = heapCell{Store(h, ref, body), l.meta}
			n := App("jsonlen", idxSort(), d, p)
			r := Val{t: t, l: []*Term{Ite(Eq(n, idxConst(0)), I(0), ref), idxConst(0), n, n}}
			ex.fact(And(Le(I(0), n), Le(n, IBig(pow2(40)))))
			return r
		}
	case *types.Struct:
		v := ex.freshVal("json", t, st.level)
		z := zeroVal(t)
		if old != nil {
			z = *old
		}
		for i := 0; i < u.NumFields(); i++ {
			lo, hi := fieldRange(u, i)
			name, _, skip := jsonName(u, i)
			if skip {
				copy(v.l[lo:hi], z.l[lo:hi])
				continue
			}
			f := u.Field(i)
			pp := jsonJoin(path, name)
			if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				continue // promoted fields: left arbitrary
			}
			fv := ex.jsonBuild(st, d, pp, f.Type(), nil, depth+1)
			copy(v.l[lo:hi], fv.l)
		}
		return v
	}
	return ex.freshVal("json", t, st.level)
}

// jsonUnmarshal decodes data into whatever the interface target points to.
func (ex *Exec) jsonUnmarshal(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val) {
	ex.assumed["JSON decoding fills each field from the member its tag names and nothing else, deterministically; it does not panic"] = true
	d := args[0].l[0]
	target := args[1]
	tags := map[int64]bool{}
	if !ifaceTags(target.l[0], tags) {
		return ex.unknown(fr, st, key, args, sig)
	}
	errv := ex.freshVal("jsonerr", sig.Results().At(0).Type(), st.level)
	for tg := range tags {
		ct, ok := ex.pg.tagType[tg]
		if !ok {
			continue
		}
		pt, isp := ct.Underlying().(*types.Pointer)
		if !isp {
			continue
		}
		is := Eq(target.l[0], I(tg))
		if is == TFalse {
			continue
		}
		good := App("jsonok", SBool, d, StrConst(ex.jsonTypeName(pt.Elem())))
		ex.assume(st, Implies(is, Eq(Eq(errv.l[0], I(0)), good)))
		ptr := ex.unbox(st, target, ct)
		ptr.t = ct
		a := addrOf(ptr)
		oldv := ex.load(st, a, pt.Elem())
		bad := ex.freshVal("jsonbad", pt.Elem(), st.level)
		var nv Val
		if mt, ism := pt.Elem().Underlying().(*types.Map); ism {
			ref := ex.allocRef(st)
			nv = Val{t: pt.Elem(), l: []*Term{ref}}
			if isString(mt.Key()) && isIface(mt.Elem()) {
				mk := ex.mapKey(mt)
				set := func(suffix, esort string, f func(k *Term) *Term) {
					srt := arrSort(SInt, arrSort(SStr, esort))
					h := st.get(mk+suffix, srt, Meta{})
					ex.logWrite(mk+suffix, ref, srt, Meta{})
					st.heap[mk+suffix] = heapCell{Store(h, ref, Lam(arrSort(SStr, esort), d.birth, f)), Meta{}}
				}
				set("#dom", SBool, func(k *Term) *Term { return App("jsonhas", SBool, d, k) })
				for i, l := range leavesOf(mt.Elem()) {
					n := "jsonany#" + string(rune('0'+i))
					key2 := mk + "#val" + l.path
					srt := arrSort(SInt, arrSort(SStr, l.sort))
					h := st.get(key2, srt, l.meta)
					ex.logWrite(key2, ref, srt, l.meta)
					st.heap[key2] = heapCell{Store(h, ref, Lam(arrSort(SStr, l.sort), d.birth, func(k *Term) *Term { return App(n, l.sort, d, k) })), l.meta}
				}
			} else {
				return ex.unknown(fr, st, key, args, sig)
			}
		} else {
			nv = ex.jsonBuild(st, d, "", pt.Elem(), &oldv, 0)
		}
		v := iteVal(is, iteVal(good, nv, bad), oldv)
		v.t = pt.Elem()
		ex.store(st, a, v)
	}
	return st, ex.tupleVal(resultType(sig), []Val{errv})
}

// jsonEncode states what the encoded bytes say about a value at a path.
func (ex *Exec) jsonEncode(st *State, is, d *Term, path string, v Val, omit bool, depth int) {
	p := StrConst(path)
	put := App("jsonput", SBool, d, p)
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		if isString(v.t) {
			ex.assume(st, Implies(is, Eq(App("jsonout", SStr, d, p), v.one())))
			if omit {
				ex.assume(st, Implies(is, Eq(put, Ne(v.one(), StrConst("")))))
			} else {
				ex.assume(st, Implies(is, put))
			}
		} else if bits, _, ok := isIntType(v.t); ok && bits > 0 && !bvMode {
			ex.assume(st, Implies(is, Eq(App("jsonnum", SInt, d, p), v.one())))
			if omit {
				ex.assume(st, Implies(is, Eq(put, Ne(v.one(), I(0)))))
			} else {
				ex.assume(st, Implies(is, put))
			}
		}
	case *types.Pointer:
		has := Ne(v.l[0], I(0))
		if isString(u.Elem()) {
			if omit {
				ex.assume(st, Implies(is, Eq(put, has)))
			} else {
				ex.assume(st, Implies(is, put))
			}
			x := ex.load(st, addrOf(v), u.Elem())
			ex.assume(st, Implies(And(is, has), Eq(App("jsonout", SStr, d, p), x.one())))
		} else if _, ok := u.Elem().Underlying().(*types.Struct); ok && depth < 6 && ex.ownType(u.Elem()) && !isOpaque(u.Elem()) {
			ex.assume(st, Implies(is, Eq(put, Or(has, B(!omit)))))
			x := ex.load(st, addrOf(v), u.Elem())
			x.t = u.Elem()
			ex.jsonEncode(st, And(is, has), d, path, x, false, depth+1)
		}
	case *types.Struct:
		if isOpaque(v.t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			name, om, skip := jsonName(u, i)
			if skip || u.Field(i).Embedded() {
				continue
			}
			lo, hi := fieldRange(u, i)
			fv := Val{t: u.Field(i).Type(), l: v.l[lo:hi]}
			ex.jsonEncode(st, is, d, jsonJoin(path, name), fv, om, depth+1)
		}
	}
}

func (ex *Exec) jsonMarshal(fr *Frame, st *State, key string, args []Val, sig *types.Signature) (*State, Val) {
	rs := ex.freshResults(st, sig, "json")
	out := ex.allocRef(st)
	rs[0].l[0] = out
	ex.typeFacts(rs[0])
	src := args[0]
	tags := map[int64]bool{}
	if !ifaceTags(src.l[0], tags) {
		ex.externals[key] = true
		return st, ex.tupleVal(resultType(sig), rs)
	}
	ex.assumed["JSON encoding writes each field under its tag name, and encoding the recorder's own message types does not fail"] = true
	for tg := range tags {
		ct, ok := ex.pg.tagType[tg]
		if !ok {
			continue
		}
		is := Eq(src.l[0], I(tg))
		if is == TFalse {
			continue
		}
		v := ex.unbox(st, src, ct)
		v.t = ct
		if pt, isp := ct.Underlying().(*types.Pointer); isp && ex.ownType(pt.Elem()) {
			is = And(is, Ne(v.l[0], I(0)))
			v = ex.load(st, addrOf(v), pt.Elem())
			v.t = pt.Elem()
		} else if !ex.ownType(ct) {
			continue
		}
		if _, ok := v.t.Underlying().(*types.Struct); !ok {
			continue
		}
		ex.assume(st, Implies(is, Eq(rs[1].l[0], I(0))))
		ex.jsonEncode(st, is, out, "", v, false, 0)
	}
	return st, ex.tupleVal(resultType(sig), rs)
}
