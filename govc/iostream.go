package main

import (
	"go/token"
	"go/types"
)

// Token model of byte streams. A stream (the object behind an io.Reader/io.Writer) holds a sequence of
// fixed-size values: kind (size in bytes, +100 for floats, 200 for a byte string), and the value. binary.Write
// appends tokens, binary.Read takes the next one. A read whose kind does not match the next token yields an
// arbitrary value and an arbitrary position (so anything may be read from then on): sound for every
// alignment-breaking change.

const (
	ioW    = "io:w"    // tokens written
	ioR    = "io:r"    // tokens read
	ioKind = "io:kind" // by (stream, position)
	ioInt  = "io:int"
	ioReal = "io:real"
	ioStr  = "io:str"
)

func (e *Engine) ioGet(st *State, key, sort string, idx *Term) *Term {
	return mkSelect(e.heapTerm(st.heap, key, sort, nil), idx)
}
func (e *Engine) ioSet(st *State, key, sort string, idx, v *Term) {
	e.logWrite(key, mkRoot(idx))
	if n := len(e.wlog); n > 0 {
		w := e.wlog[n-1]
		if w["@"+key] == nil {
			w["@"+key] = map[*Term]bool{}
		}
		w["@"+key][idx] = true
	}
	st.heap.m[key] = mkStore(e.heapTerm(st.heap, key, sort, nil), idx, v)
}

func (e *Engine) ioFresh(st *State, s *Term) {
	e.ioOwn[s] = true
	e.ioSet(st, ioW, SInt, s, mkInt(0))
	e.ioSet(st, ioR, SInt, s, mkInt(0))
}

// fixed-size kind of a leaf type
func ioKindOf(t types.Type) (int64, string, *types.Basic) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		fail("binary i/o of %s", t)
	}
	switch b.Kind() {
	case types.Bool:
		return 1, SBool, types.Typ[types.Uint8]
	case types.Uint8:
		return 1, SInt, b
	case types.Uint16:
		return 2, SInt, b
	case types.Uint32:
		return 4, SInt, b
	case types.Uint64:
		return 8, SInt, b
	case types.Int8:
		return 11, SInt, b
	case types.Int16:
		return 12, SInt, b
	case types.Int32:
		return 14, SInt, b
	case types.Int64:
		return 18, SInt, b
	case types.Float32:
		return 104, SReal, nil
	case types.Float64:
		return 108, SReal, nil
	}
	fail("binary i/o of %s (not fixed size)", t)
	return 0, "", nil
}

func (e *Engine) ioPut(st *State, s *Term, kind int64, sort string, v *Term) {
	w := e.ioGet(st, ioW, SInt, s)
	p := mkIdx(s, w)
	e.ioSet(st, ioKind, SInt, p, mkInt(kind))
	switch sort {
	case SReal:
		e.ioSet(st, ioReal, SReal, p, v)
	case SInt:
		e.ioSet(st, ioInt, SInt, p, v)
	case SStr:
		e.ioSet(st, ioStr, SStr, p, v)
	}
	e.ioSet(st, ioW, SInt, s, mkAdd(w, mkInt(1)))
}

// ioTake returns the next token of the kind and whether there was one.
func (e *Engine) ioTake(st *State, s *Term, kind int64, sort string, more func(v *Term) *Term) (*Term, *Term) {
	r := e.ioGet(st, ioR, SInt, s)
	w := e.ioGet(st, ioW, SInt, s)
	p := mkIdx(s, r)
	key := map[string]string{SReal: ioReal, SInt: ioInt, SStr: ioStr}[sort]
	v := e.ioGet(st, key, sort, p)
	kt := e.ioGet(st, ioKind, SInt, p)
	same := mkEq(kt, mkInt(kind))
	ok := mkAnd(mkLt(r, w), same)
	if sort == SInt { // integers of the same size and other signedness are reinterpreted
		other := kind + 10
		if kind > 10 {
			other = kind - 10
		}
		ok = mkAnd(mkLt(r, w), mkOr(same, mkEq(kt, mkInt(other))))
		v = mkIte(same, v, wrap(v, map[int64]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64],
			11: types.Typ[types.Int8], 12: types.Typ[types.Int16], 14: types.Typ[types.Int32], 18: types.Typ[types.Int64]}[kind]))
	}
	if more != nil {
		ok = mkAnd(ok, more(v))
	}
	if _, _, own := allocRoot(mkRoot(s)); own && e.ioOwn[s] {
		// a stream created by the specification: every read has to find what was written
		e.oblige(st, "safety", "stream read matches what was written", ok, e.ioPos, nil)
		e.assume(st, ok, "stream read matches")
		ok = tTrue
	}
	if !ok.isTrue() {
		v = mkIte(ok, v, e.freshLeaf("io", sort, "", types.Typ[types.Int], st.alloc))
		e.ioSet(st, ioR, SInt, s, mkIte(ok, mkAdd(r, mkInt(1)), e.freshLeaf("iopos", SInt, "", types.Typ[types.Int], st.alloc)))
	} else {
		e.ioSet(st, ioR, SInt, s, mkAdd(r, mkInt(1)))
	}
	return v, ok
}

// ioTarget resolves the data argument of binary.Read/Write.
func (e *Engine) ioTarget(st *State, a Value) (ptr *PtrV, pt types.Type, val Value, vt types.Type) {
	i := a.(*IfaceV)
	k, ok := i.tag.intVal()
	if !ok || k == 0 {
		fail("binary i/o of a value of unknown type")
	}
	t := e.tagTypes[k-1]
	if pe, isp := under(t).(*types.Pointer); isp {
		p := i.ptr
		if p == nil {
			p = e.unbox(st, i, t).(*PtrV)
		}
		return p, pe.Elem(), nil, nil
	}
	return nil, nil, e.unbox(st, i, t), t
}

func (e *Engine) binWrite(args []Value, st *State) ([]Value, *State) {
	s := args[0].(*IfaceV).ref
	p, pt, v, vt := e.ioTarget(st, args[2])
	if p != nil {
		if _, isSl := under(pt).(*types.Slice); isSl {
			v, vt, p = e.load(st, p, pt), pt, nil
		}
	}
	if p != nil {
		h := st.heap
		for _, ls := range leafSites(pt, p.key) {
			kind, sort, ub := ioKindOf(ls.typ)
			e.ioPutVal(st, s, kind, sort, ub, mkSelect(e.heapTerm(h, ls.key, ls.sort, ls.typ), ls.at(p.ref)))
		}
		return []Value{&IfaceV{tag: mkInt(0), ref: nilRef}}, st
	}
	if sl, ok := under(vt).(*types.Slice); ok {
		sv := v.(*SliceV)
		if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			e.ioPut(st, s, 200, SStr, e.sliceToStr(st, sv, sl).(*Term))
			return []Value{&IfaceV{tag: mkInt(0), ref: nilRef}}, st
		}
		n, ok := sv.len.intVal()
		if !ok {
			fail("binary.Write of a slice of unknown length")
		}
		for i := 0; i < n; i++ {
			ep := elemPtr(sv.arr, mkAdd(sv.off, mkInt(int64(i))), sl.Elem(), sv.snap)
			for _, ls := range leafSites(sl.Elem(), ep.key) {
				kind, sort, ub := ioKindOf(ls.typ)
				e.ioPutVal(st, s, kind, sort, ub, mkSelect(e.heapTerm(st.heap, ls.key, ls.sort, ls.typ), ls.at(ep.ref)))
			}
		}
		return []Value{&IfaceV{tag: mkInt(0), ref: nilRef}}, st
	}
	if t, ok := v.(*Term); ok {
		kind, sort, ub := ioKindOf(vt)
		e.ioPutVal(st, s, kind, sort, ub, t)
		return []Value{&IfaceV{tag: mkInt(0), ref: nilRef}}, st
	}
	fail("binary.Write of %s", vt)
	return nil, nil
}

func (e *Engine) ioPutVal(st *State, s *Term, kind int64, sort string, ub *types.Basic, v *Term) {
	switch sort {
	case SBool:
		e.ioPut(st, s, kind, SInt, mkIte(v, mkInt(1), mkInt(0)))
	default:
		e.ioPut(st, s, kind, sort, v)
	}
}

func (e *Engine) ioReadLeaf(st *State, s *Term, ls leafSite, at *Term) *Term {
	kind, sort, _ := ioKindOf(ls.typ)
	rs := sort
	if sort == SBool {
		rs = SInt
	}
	v, ok := e.ioTake(st, s, kind, rs, nil)
	switch sort {
	case SBool:
		v = mkNe(v, mkInt(0))
	}
	e.logWrite(ls.key, mkRoot(at))
	if n := len(e.wlog); n > 0 {
		w := e.wlog[n-1]
		if w["@"+ls.key] == nil {
			w["@"+ls.key] = map[*Term]bool{}
		}
		w["@"+ls.key][at] = true
	}
	st.heap.m[ls.key] = mkStore(e.heapTerm(st.heap, ls.key, ls.sort, ls.typ), at, v)
	return ok
}

func (e *Engine) binRead(args []Value, st *State, pos token.Pos) ([]Value, *State) {
	e.ioPos = pos
	s := args[0].(*IfaceV).ref
	p, pt, v, vt := e.ioTarget(st, args[2])
	allOK := tTrue
	if p != nil {
		if _, isSl := under(pt).(*types.Slice); isSl {
			v, vt, p = e.load(st, p, pt), pt, nil
		}
	}
	if p != nil {
		for _, ls := range leafSites(pt, p.key) {
			allOK = mkAnd(allOK, e.ioReadLeaf(st, s, ls, ls.at(p.ref)))
		}
	} else if sl, ok := under(vt).(*types.Slice); ok {
		sv := v.(*SliceV)
		if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			str, ok := e.ioTake(st, s, 200, SStr, func(v *Term) *Term { return mkEq(strLen(v), sv.len) })
			allOK = ok
			key := elemKey(sl.Elem())
			h := e.heapTerm(st.heap, key, SInt, sl.Elem())
			vals := e.strVals[str]
			if str.op == OStr {
				for _, c := range []byte(str.name) {
					vals = append(vals, mkInt(int64(c)))
				}
			}
			if n, okn := sv.len.intVal(); okn && ok.isTrue() && n == len(vals) && n <= 64 {
				for k, v := range vals {
					at := mkIdx(sv.arr, mkAdd(sv.off, mkInt(int64(k))))
					e.logWrite(key, mkRoot(at))
					if n := len(e.wlog); n > 0 {
						w := e.wlog[n-1]
						if w["@"+key] == nil {
							w["@"+key] = map[*Term]bool{}
						}
						w["@"+key][at] = true
					}
					h = mkStore(h, at, v)
				}
				st.heap.m[key] = h
				if k, ok := sv.off.intVal(); ok && k == 0 {
					e.byteStr[sv.arr] = byteStr{h, sv.len, str}
				}
				et := e.freshLeaf("ioerr", SInt, "#tag", types.Typ[types.Int], st.alloc)
				e.assume(st, mkImplies(allOK, mkEq(et, mkInt(0))), "complete read returns no error")
				return []Value{&IfaceV{tag: et, ref: e.newObj(st)}}, st
			}
			nh := e.newHeapVar("Hio_"+key, h.sort, key, st.alloc, sl.Elem())
			r := mkBoundVar("r", SRef)
			sel := mkSelect(nh, r)
			e.assume(st, mkForall([]*Term{r}, mkOr(mkEq(sel, mkSelect(h, r)), mkEq(mkRoot(r), mkRoot(sv.arr))), []*Term{sel}), "binary.Read frame")
			i := mkBoundVar("i", SInt)
			at := mkSelect(nh, mkIdx(sv.arr, mkAdd(sv.off, i)))
			e.assume(st, mkForall([]*Term{i}, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, sv.len)), mkEq(at, mkApp("sat", SInt, str, i))), []*Term{at}), "binary.Read bytes")
			e.logWrite(key, mkRoot(sv.arr))
			st.heap.m[key] = nh
			nh.frBase, nh.frRoot = h, mkRoot(sv.arr)
			if str.op == OIte {
				e.wf(mkEq(mkApp("slen", SInt, str.args[2]), sv.len), str.args[2])
			}
			if k, ok := sv.off.intVal(); ok && k == 0 {
				e.byteStr[sv.arr] = byteStr{nh, sv.len, str}
			}
		} else {
			n, ok := sv.len.intVal()
			if !ok {
				fail("binary.Read of a slice of unknown length")
			}
			for i := 0; i < n; i++ {
				ep := elemPtr(sv.arr, mkAdd(sv.off, mkInt(int64(i))), sl.Elem(), sv.snap)
				for _, ls := range leafSites(sl.Elem(), ep.key) {
					allOK = mkAnd(allOK, e.ioReadLeaf(st, s, ls, ls.at(ep.ref)))
				}
			}
		}
	} else {
		fail("binary.Read into %s", vt)
	}
	et := e.freshLeaf("ioerr", SInt, "#tag", types.Typ[types.Int], st.alloc)
	e.assume(st, mkImplies(allOK, mkEq(et, mkInt(0))), "complete read returns no error")
	return []Value{&IfaceV{tag: et, ref: e.newObj(st)}}, st
}

// byteStr remembers that an array held the bytes of a string while the byte heap was heap.
type byteStr struct{ heap, len, str *Term }
