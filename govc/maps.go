package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- maps

func mapBase(mt *types.Map) string { return "map:" + typeKey(mt.Key()) + "->" + typeKey(mt.Elem()) }

func (e *Engine) keySort(t types.Type) string {
	ls := flatLeaves(t)
	if len(ls) == 1 {
		return ls[0].sort
	}
	n := "Tup"
	for _, l := range ls {
		n += "_" + l.sort
	}
	return n
}

func (e *Engine) keyTerm(k Value, t types.Type) *Term {
	ts := e.flatten(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	s := e.keySort(t)
	return mkApp("mk"+s, s, ts...)
}

func (e *Engine) keyValue(k *Term, t types.Type) Value {
	ls := flatLeaves(t)
	if len(ls) == 1 {
		v, _ := e.unflatten([]*Term{k}, t)
		return v
	}
	s := e.keySort(t)
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, mkTupSel(s, i, l.sort, k))
	}
	v, _ := e.unflatten(ts, t)
	return v
}

func mkTupSel(s string, i int, srt string, k *Term) *Term {
	if k.op == OApp && k.name == "mk"+s {
		return k.args[i]
	}
	return mkApp(fmt.Sprintf("sel%d%s", i, s), srt, k)
}

func (e *Engine) mapDom(h *Heap, mt *types.Map) (string, *Term) {
	k := mapBase(mt) + "#dom"
	return k, e.heapTerm(h, k, arrSort(e.keySort(mt.Key()), SBool), nil)
}

func (e *Engine) makeMap(st *State, t types.Type) *MapV {
	mt := under(t).(*types.Map)
	r := e.newObj(st)
	k, d := e.mapDom(st.heap, mt)
	st.heap.m[k] = mkStore(d, r, mkConstArr(arrSort(e.keySort(mt.Key()), SBool), tFalse))
	nk := mapBase(mt) + "#n"
	st.heap.m[nk] = mkStore(e.heapTerm(st.heap, nk, SInt, nil), r, mkInt(0))
	return &MapV{ref: r}
}

func (e *Engine) mapHeap(st *State, m *MapV) *Heap {
	if m.snap != nil {
		return m.snap
	}
	return st.heap
}

func (e *Engine) mapHas(st *State, m *MapV, mt *types.Map, k *Term) *Term {
	if m.ref == nilRef {
		return tFalse
	}
	_, d := e.mapDom(e.mapHeap(st, m), mt)
	return mkAnd(mkNe(m.ref, nilRef), mkSelect(mkSelect(d, m.ref), k))
}

func (e *Engine) mapVal(st *State, m *MapV, mt *types.Map, k *Term) Value {
	var ts []*Term
	ks := e.keySort(mt.Key())
	for _, l := range flatLeaves(mt.Elem()) {
		key := mapBase(mt) + "#val" + l.suffix
		h := e.heapTerm(e.mapHeap(st, m), key, arrSort(ks, l.sort), mt.Elem())
		ts = append(ts, mkSelect(mkSelect(h, m.ref), k))
	}
	v, _ := e.unflatten(ts, mt.Elem())
	return withSnap(v, m.snap)
}

func (e *Engine) mapStore(st *State, m *MapV, mt *types.Map, key, val Value) {
	if m.snap != nil {
		fail("update of old-state map")
	}
	k := e.keyTerm(key, mt.Key())
	has := e.mapHas(st, m, mt, k)
	nk := mapBase(mt) + "#n"
	n := e.heapTerm(st.heap, nk, SInt, nil)
	e.logWrite(nk, mkRoot(m.ref))

	st.heap.m[nk] = mkStore(n, m.ref, mkIte(has, mkSelect(n, m.ref), mkAdd(mkSelect(n, m.ref), mkInt(1))))
	dk, d := e.mapDom(st.heap, mt)
	e.logWrite(dk, mkRoot(m.ref))
	st.heap.m[dk] = mkStore(d, m.ref, mkStore(mkSelect(d, m.ref), k, tTrue))
	ks := e.keySort(mt.Key())
	ts := e.flatten(val, mt.Elem())
	for i, l := range flatLeaves(mt.Elem()) {
		vk := mapBase(mt) + "#val" + l.suffix
		h := e.heapTerm(st.heap, vk, arrSort(ks, l.sort), mt.Elem())
		e.logWrite(vk, mkRoot(m.ref))
		st.heap.m[vk] = mkStore(h, m.ref, mkStore(mkSelect(h, m.ref), k, ts[i]))
	}
}

func (e *Engine) mapDelete(st *State, m *MapV, mt *types.Map, key Value) {
	k := e.keyTerm(key, mt.Key())
	has := e.mapHas(st, m, mt, k)
	nk := mapBase(mt) + "#n"
	n := e.heapTerm(st.heap, nk, SInt, nil)
	e.logWrite(nk, mkRoot(m.ref))

	st.heap.m[nk] = mkStore(n, m.ref, mkIte(has, mkSub(mkSelect(n, m.ref), mkInt(1)), mkSelect(n, m.ref)))
	dk, d := e.mapDom(st.heap, mt)
	e.logWrite(dk, mkRoot(m.ref))
	st.heap.m[dk] = mkStore(d, m.ref, mkStore(mkSelect(d, m.ref), k, tFalse))
}

func (f *Frame) lookup(x *ssa.Lookup, st *State) {
	e := f.e
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		s := f.get(x.X, st).(*Term)
		i := f.get(x.Index, st).(*Term)
		f.bounds(st, i, strLen(s), x.Pos())
		f.vals[x] = e.strAt(s, i)
		return
	}
	m := f.get(x.X, st).(*MapV)
	k := e.keyTerm(f.get(x.Index, st), mt.Key())
	has := e.mapHas(st, m, mt, k)
	var v Value
	if has.isFalse() {
		v = e.zero(mt.Elem())
	} else {
		v = e.iteV(has, e.mapVal(st, m, mt, k), e.zero(mt.Elem()))
	}
	if x.CommaOk {
		f.vals[x] = &TupleV{[]Value{v, has}}
	} else {
		f.vals[x] = v
	}
}

func (f *Frame) rangeStart(x *ssa.Range, st *State) {
	e := f.e
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		fail("range over %s", x.X.Type())
	}
	m := f.get(x.X, st).(*MapV)
	r := e.newObj(st)
	ks := e.keySort(mt.Key())
	vk := "visited:" + ks
	vs := e.heapTerm(st.heap, vk, arrSort(ks, SBool), nil)
	st.heap.m[vk] = mkStore(vs, r, mkConstArr(arrSort(ks, SBool), tFalse))
	_, d := e.mapDom(e.mapHeap(st, m), mt)
	it := &IterV{m: m, mt: mt, visKey: vk, visRef: r}
	it.str = mkSelect(d, m.ref) // domain at the start
	f.vals[x] = it
	st.names["visited"] = nameEnt{v: it}
}

func (f *Frame) next(x *ssa.Next, st *State) {
	e := f.e
	if x.IsString {
		fail("range over string")
	}
	it := f.get(x.Iter, st).(*IterV)
	mt := it.mt
	ks := e.keySort(mt.Key())
	ok := e.freshLeaf("next.ok", SBool, "", nil, st.alloc)
	kv := e.symbolic("next.key", mt.Key(), st.alloc, false)
	k := e.keyTerm(kv, mt.Key())
	vs := e.heapTerm(st.heap, it.visKey, arrSort(ks, SBool), nil)
	vis := mkSelect(vs, it.visRef)
	_, d := e.mapDom(e.mapHeap(st, it.m), mt)
	dom := mkSelect(d, it.m.ref)
	e.assume(st, mkImplies(ok, mkAnd(mkNe(it.m.ref, nilRef), mkSelect(dom, k), mkNot(mkSelect(vis, k)))), "map range: next key")
	b := mkBoundVar("k", ks)
	e.assume(st, mkOr(ok, mkEq(it.m.ref, nilRef), mkForall([]*Term{b}, mkImplies(mkAnd(mkSelect(dom, b), mkSelect(it.str, b)), mkSelect(vis, b)))), "map range: exhausted")
	st.heap.m[it.visKey] = mkStore(vs, it.visRef, mkIte(ok, mkStore(vis, k, tTrue), vis))
	v := e.mapVal(st, it.m, mt, k)
	f.vals[x] = &TupleV{[]Value{ok, kv, v}}
}

// ---- strings

func strLen(s *Term) *Term {
	if s.op == OStr {
		return mkInt(int64(len(s.name)))
	}
	if s.op == OIte {
		return mkIte(s.args[0], strLen(s.args[1]), strLen(s.args[2]))
	}
	return mkApp("slen", SInt, s)
}
func (e *Engine) strAt(s, i *Term) *Term {
	if s.op == OStr {
		if k, ok := i.intVal(); ok && k >= 0 && k < len(s.name) {
			return mkInt(int64(s.name[k]))
		}
	}
	return mkApp("sat", SInt, s, i)
}
func (e *Engine) strConcat(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return mkStr(a.name + b.name)
	}
	if a.op == OStr && a.name == "" {
		return b
	}
	if b.op == OStr && b.name == "" {
		return a
	}
	return mkApp("sconcat", SStr, a, b)
}
func (e *Engine) substr(s, lo, hi *Term) *Term {
	if lo.isInt0() && hi == strLen(s) {
		return s
	}
	if s.op == OStr {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 && l >= 0 && h <= len(s.name) && l <= h {
			return mkStr(s.name[l:h])
		}
	}
	return mkApp("ssub", SStr, s, lo, hi)
}

func (e *Engine) strToSlice(st *State, s *Term, sl *types.Slice) Value {
	if b, ok := under(sl.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
		fail("string to %s", sl)
	}
	r := e.newObj(st)
	n := strLen(s)
	if k, ok := n.intVal(); ok && k <= 64 {
		for i := 0; i < k; i++ {
			e.store(st, elemPtr(r, mkInt(int64(i)), sl.Elem(), nil), sl.Elem(), e.strAt(s, mkInt(int64(i))))
		}
		return &SliceV{arr: r, off: mkInt(0), len: n, cap: n}
	}
	i := mkBoundVar("i", SInt)
	sel := mkSelect(e.heapTerm(st.heap, elemKey(sl.Elem()), SInt, sl.Elem()), mkIdx(r, i))
	e.assume(st, mkForall([]*Term{i}, mkEq(sel, mkApp("sat", SInt, s, i)), []*Term{sel}), "[]byte(string)")
	e.byteStr[r] = byteStr{e.heapTerm(st.heap, elemKey(sl.Elem()), SInt, sl.Elem()), n, s}
	return &SliceV{arr: r, off: mkInt(0), len: n, cap: n}
}

func (e *Engine) sliceToStr(st *State, s *SliceV, sl *types.Slice) Value {
	if b, ok := under(sl.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
		fail("%s to string", sl)
	}
	h := st.heap
	if s.snap != nil {
		h = s.snap
	}
	if b, ok := e.byteStr[s.arr]; ok && b.len == s.len && b.heap == e.heapTerm(h, elemKey(sl.Elem()), SInt, sl.Elem()) {
		if k, ok := s.off.intVal(); ok && k == 0 {
			return b.str
		}
	}
	if n, ok := s.len.intVal(); ok && n <= 64 { // all bytes known
		bs := make([]byte, 0, n)
		hh := e.heapTerm(h, elemKey(sl.Elem()), SInt, sl.Elem())
		for k := 0; k < n; k++ {
			v, ok := mkSelect(hh, mkIdx(s.arr, mkAdd(s.off, mkInt(int64(k))))).intVal()
			if !ok {
				break
			}
			bs = append(bs, byte(v))
		}
		if len(bs) == n {
			return mkStr(string(bs))
		}
	}
	r := e.freshLeaf("str", SStr, "", nil, st.alloc)
	e.wf(mkEq(mkApp("slen", SInt, r), s.len), r)
	hh := e.heapTerm(h, elemKey(sl.Elem()), SInt, sl.Elem())
	if n, ok := s.len.intVal(); ok && n <= 64 && len(e.binders) == 0 {
		var vs []*Term
		for k := 0; k < n; k++ {
			vs = append(vs, mkSelect(hh, mkIdx(s.arr, mkAdd(s.off, mkInt(int64(k))))))
		}
		e.strVals[r] = vs
		e.known[mkApp("slen", SInt, r)] = s.len
	}
	i := mkBoundVar("i", SInt)
	at := mkApp("sat", SInt, r, i)
	e.wf(mkForall([]*Term{i}, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, s.len)), mkEq(at, mkSelect(hh, mkIdx(s.arr, mkAdd(s.off, i))))), []*Term{at}), r)
	return r
}
