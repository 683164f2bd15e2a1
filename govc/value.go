package main

// Symbolic values, type layout and the typed heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value interface{}

// Agg is a struct or array value.
type Agg struct{ elems []Value }

// PtrV is a pointer. key=="" for pointers to structs/arrays; otherwise the
// heap key prefix of the pointed-to leaf.
type PtrV struct {
	key  string
	ref  *Term
	snap *Heap
}
type SliceV struct {
	arr, off, len, cap *Term
	snap               *Heap
}
type MapV struct {
	ref  *Term
	snap *Heap
}
type IfaceV struct {
	tag, ref *Term
	snap     *Heap
	ptr      *PtrV // boxed interior pointer
}
type FuncV struct {
	fn       *ssa.Function
	bind     []Value
	builtin  string
	sym      *Term
	boundArg Value // bound method receiver
}
type TupleV struct{ elems []Value }
type IterV struct {
	m      *MapV
	mt     *types.Map
	visKey string // ghost heap key for the visited set
	visRef *Term
	str    *Term // string iteration
}

type unsupported struct{ msg string }

func fail(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }

type Heap struct{ m map[string]*Term }

func (h *Heap) clone() *Heap {
	n := make(map[string]*Term, len(h.m))
	for k, v := range h.m {
		n[k] = v
	}
	return &Heap{n}
}

type keyInfo struct {
	sort string // sort of the array
	kind string // "", "len", "off", "cap", range kinds
	typ  types.Type
}

type leaf struct{ suffix, sort string }

var repoPrefix = "github.com/binzume/modelconv"

func under(t types.Type) types.Type { return t.Underlying() }

func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// leaves of a non-aggregate type
func leavesOf(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", SReal}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", SRef}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", SRef}}
	case *types.Slice:
		return []leaf{{"#arr", SRef}, {"#off", SInt}, {"#len", SInt}, {"#cap", SInt}}
	case *types.Interface:
		return []leaf{{"#tag", SInt}, {"#ref", SRef}}
	case *types.Signature:
		return []leaf{{"", SInt}}
	}
	fail("unsupported type %s", t)
	return nil
}

// flat leaves of any type (aggregates flattened recursively)
func flatLeaves(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range flatLeaves(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.suffix), l.sort})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range flatLeaves(u.Elem()) {
				out = append(out, leaf{fmt.Sprintf("[%d]%s", i, l.suffix), l.sort})
			}
		}
		return out
	}
	return leavesOf(t)
}

func (e *Engine) flatten(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Agg:
		var out []*Term
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range x.elems {
				out = append(out, e.flatten(x.elems[i], u.Field(i).Type())...)
			}
		case *types.Array:
			for i := range x.elems {
				out = append(out, e.flatten(x.elems[i], u.Elem())...)
			}
		default:
			fail("flatten agg of %s", t)
		}
		return out
	case *Term:
		return []*Term{x}
	case *PtrV:
		if pt, ok := under(t).(*types.Pointer); ok {
			if !isAgg(pt.Elem()) && x.key != cellKey(pt.Elem()) {
				fail("interior pointer %s escapes to the heap", x.key)
			}
		}
		return []*Term{x.ref}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *MapV:
		return []*Term{x.ref}
	case *IfaceV:
		if x.ptr != nil {
			fail("interior pointer %s escapes to the heap", x.ptr.key)
		}
		return []*Term{x.tag, x.ref}
	case *FuncV:
		return []*Term{e.funcID(x)}
	}
	fail("flatten %T", v)
	return nil
}

func (e *Engine) unflatten(ts []*Term, t types.Type) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = e.unflatten(ts, u.Field(i).Type())
			a.elems = append(a.elems, v)
		}
		return a, ts
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = e.unflatten(ts, u.Elem())
			a.elems = append(a.elems, v)
		}
		return a, ts
	}
	n := len(leavesOf(t))
	return e.leafValue(ts[:n], t), ts[n:]
}

func (e *Engine) leafValue(ts []*Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		key := ""
		if !isAgg(u.Elem()) {
			key = cellKey(u.Elem())
		}
		return &PtrV{key: key, ref: ts[0]}
	case *types.Map:
		return &MapV{ref: ts[0]}
	case *types.Chan:
		return &MapV{ref: ts[0]}
	case *types.Slice:
		return &SliceV{arr: ts[0], off: ts[1], len: ts[2], cap: ts[3]}
	case *types.Interface:
		return &IfaceV{tag: ts[0], ref: ts[1]}
	case *types.Signature:
		return e.funcFromID(ts[0])
	}
	return ts[0]
}

func (e *Engine) funcID(f *FuncV) *Term {
	if f.sym != nil {
		return f.sym
	}
	e.funcTab = append(e.funcTab, f)
	return mkInt(int64(len(e.funcTab)))
}
func (e *Engine) funcFromID(t *Term) *FuncV {
	if i, ok := t.intVal(); ok {
		if i == 0 {
			return &FuncV{sym: t}
		}
		return e.funcTab[i-1]
	}
	return &FuncV{sym: t}
}

// ---- keys

// tyStr names a type with aliases resolved at every level
func tyStr(t types.Type) string { return types.TypeString(deepUnalias(t), nil) }

func deepUnalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Pointer:
		return types.NewPointer(deepUnalias(x.Elem()))
	case *types.Slice:
		return types.NewSlice(deepUnalias(x.Elem()))
	case *types.Array:
		return types.NewArray(deepUnalias(x.Elem()), x.Len())
	case *types.Map:
		return types.NewMap(deepUnalias(x.Key()), deepUnalias(x.Elem()))
	}
	return t
}

var structKeys typeutil.Map // canonical struct -> name

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if st, ok := under(t).(*types.Struct); ok {
		return structKey(t, st)
	}
	if _, ok := t.(*types.Named); ok {
		if b, ok := under(t).(*types.Basic); ok {
			return b.Name()
		}
	}
	return strings.ReplaceAll(tyStr(types.Default(t)), repoPrefix+"/", "")
}

var structCanon = map[string]string{}

func structKey(t types.Type, st *types.Struct) string {
	var sb strings.Builder
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fmt.Fprintf(&sb, "%s %s;", f.Name(), tyStr(f.Type()))
	}
	c := sb.String()
	if n, ok := structCanon[c]; ok {
		return n
	}
	n := strings.ReplaceAll(tyStr(t), repoPrefix+"/", "")
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		n = fmt.Sprintf("anon%d", len(structCanon))
	}
	for _, v := range structCanon {
		if v == n {
			n = fmt.Sprintf("%s_%d", n, len(structCanon))
		}
	}
	structCanon[c] = n
	return n
}
func cellKey(t types.Type) string { return "cell:" + typeKey(t) }
func elemKey(t types.Type) string { return "elem:" + typeKey(t) }
func fieldKey(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	return structKey(t, st) + "." + fmt.Sprintf("%d_%s", i, st.Field(i).Name())
}

func rangeOf(t types.Type) (lo, hi *big.Rat, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	p := func(n uint) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n)) }
	one := big.NewRat(1, 1)
	switch b.Kind() {
	case types.Int8:
		return new(big.Rat).Neg(p(7)), new(big.Rat).Sub(p(7), one), true
	case types.Int16:
		return new(big.Rat).Neg(p(15)), new(big.Rat).Sub(p(15), one), true
	case types.Int32:
		return new(big.Rat).Neg(p(31)), new(big.Rat).Sub(p(31), one), true
	case types.Uint8:
		return new(big.Rat), new(big.Rat).Sub(p(8), one), true
	case types.Uint16:
		return new(big.Rat), new(big.Rat).Sub(p(16), one), true
	case types.Uint32:
		return new(big.Rat), new(big.Rat).Sub(p(32), one), true
	case types.Uint64, types.Uint, types.Uintptr:
		return new(big.Rat), new(big.Rat).Sub(p(64), one), true
	}
	return
}

// heapTerm returns the array for a key, creating the initial-heap variable on demand.
func (e *Engine) heapTerm(h *Heap, key, leafSort string, typ types.Type) *Term {
	if t, ok := h.m[key]; ok {
		return t
	}
	if t, ok := e.init[key]; ok {
		return t
	}
	srt := arrSort(SRef, leafSort)
	var t *Term
	switch {
	case strings.HasSuffix(key, "#off"):
		z := mkInt(0)
		if leafSort != SInt {
			z = mkConstArr(leafSort, z)
		}
		t = mkConstArr(srt, z)
	case strings.HasSuffix(key, "#cap"):
		t = e.heapTerm(&Heap{map[string]*Term{}}, strings.TrimSuffix(key, "#cap")+"#len", leafSort, nil)
	default:
		t = e.newHeapVar("H0_"+key, srt, key, Birth{0, 0, true}, typ)
	}
	e.init[key] = t
	return t
}

func (e *Engine) newHeapVar(name, srt, key string, b Birth, typ types.Type) *Term {
	t := mkFresh(name, srt)
	t.birth = b
	t.heapKey = key
	if typ == nil {
		typ = e.keyTyp[key]
	} else {
		e.keyTyp[key] = typ
	}
	r := mkBoundVar("r", SRef)
	sel := mkSelect(t, r)
	_, vs := arrSorts(srt)
	if vs == SRef {
		e.heapVars = append(e.heapVars, t)
		e.closureFact(t, b)
	}
	if strings.HasSuffix(key, "#len") && vs != SInt {
		ks, _ := arrSorts(vs)
		k := mkBoundVar("k", ks)
		s2 := mkSelect(sel, k)
		e.global(mkForall([]*Term{r, k}, mkLe(mkInt(0), s2), []*Term{s2}), t)
	} else if strings.HasSuffix(key, "#len") {
		e.global(mkForall([]*Term{r}, mkLe(mkInt(0), sel), []*Term{sel}), t)
	}
	if strings.HasSuffix(key, "#tag") {
		e.global(mkForall([]*Term{r}, mkLe(mkInt(0), sel), []*Term{sel}), t)
	}
	if typ != nil && vs == SInt {
		if lo, hi, ok := rangeOf(typ); ok {
			e.global(mkForall([]*Term{r}, mkAnd(mkLe(mkNum(lo, SInt), sel), mkLe(sel, mkNum(hi, SInt))), []*Term{sel}), t)
		}
	}
	return t
}

func (e *Engine) closureFact(h *Term, b Birth) {
	r := mkBoundVar("r", SRef)
	sel := mkSelect(h, r)
	a := e.birthTerm(b)
	e.global(mkForall([]*Term{r}, mkImplies(mkLt(mkRoot(r), a), mkAnd(mkLe(mkInt(0), mkRoot(sel)), mkLt(mkRoot(sel), a))), []*Term{sel}), h)
	if strings.HasSuffix(h.heapKey, "#arr") && len(e.localArrs) > 0 {
		var ne []*Term
		for _, l := range e.localArrs {
			ne = append(ne, mkNe(mkRoot(sel), l))
		}
		e.global(mkForall([]*Term{r}, mkAnd(ne...), []*Term{sel}), h)
	}
}

func (e *Engine) birthTerm(b Birth) *Term {
	return mkAdd(e.allocVars[b.base], mkInt(int64(b.off)))
}

// ---- loads and stores

func (e *Engine) loadLeaf(h *Heap, key string, idx *Term, t types.Type, snap *Heap) Value {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, mkSelect(e.heapTerm(h, key+l.suffix, l.sort, t), idx))
	}
	return withSnap(e.leafValue(ts, t), snap)
}

func withSnap(v Value, s *Heap) Value {
	if s == nil {
		return v
	}
	switch x := v.(type) {
	case *PtrV:
		c := *x
		c.snap = s
		return &c
	case *SliceV:
		c := *x
		c.snap = s
		return &c
	case *MapV:
		c := *x
		c.snap = s
		return &c
	case *IfaceV:
		c := *x
		c.snap = s
		return &c
	case *Agg:
		c := &Agg{}
		for _, el := range x.elems {
			c.elems = append(c.elems, withSnap(el, s))
		}
		return c
	}
	return v
}

func (e *Engine) loadAgg(h *Heap, ref *Term, t types.Type, snap *Heap) Value {
	a := &Agg{}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				a.elems = append(a.elems, e.loadAgg(h, mkFld(ref, i), ft, snap))
			} else {
				a.elems = append(a.elems, e.loadLeaf(h, fieldKey(t, i), ref, ft, snap))
			}
		}
	case *types.Array:
		if u.Len() > 300 {
			fail("large array %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			er := mkIdx(ref, mkInt(i))
			if isAgg(u.Elem()) {
				a.elems = append(a.elems, e.loadAgg(h, er, u.Elem(), snap))
			} else {
				a.elems = append(a.elems, e.loadLeaf(h, elemKey(u.Elem()), er, u.Elem(), snap))
			}
		}
	}
	return a
}

func (e *Engine) load(st *State, p *PtrV, t types.Type) Value {
	h := st.heap
	if p.snap != nil {
		h = p.snap
	}
	if isAgg(t) {
		return e.loadAgg(h, p.ref, t, p.snap)
	}
	return e.loadLeaf(h, p.key, p.ref, t, p.snap)
}

func (e *Engine) storeLeaf(st *State, key string, idx *Term, t types.Type, v Value) {
	ts := e.flatten(v, t)
	for i, l := range leavesOf(t) {
		k := key + l.suffix
		e.logWrite(k, mkRoot(idx))
		if n := len(e.wlog); n > 0 {
			w := e.wlog[n-1]
			if w["@"+k] == nil {
				w["@"+k] = map[*Term]bool{}
			}
			w["@"+k][idx] = true
		}
		st.heap.m[k] = mkStore(e.heapTerm(st.heap, k, l.sort, t), idx, ts[i])
	}
}

// logWrite records the object written (nil: unknown) for the enclosing loops' frame candidates.
func (e *Engine) logWrite(key string, root *Term) {
	for _, w := range e.wlog {
		if w[key] == nil {
			w[key] = map[*Term]bool{}
		}
		w[key][root] = true
	}
}

// loopInvariant classifies a root term written in a loop: 0 varies, 1 fixed, 2 allocated inside
func (e *Engine) loopInvariant(t *Term, mark int, entry Birth) int {
	switch t.op {
	case OIte:
		a, b := e.loopInvariant(t.args[1], mark, entry), e.loopInvariant(t.args[2], mark, entry)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 2 && b == 2 {
			return 2
		}
		if e.oldVars(t, mark) {
			return 1
		}
		return 3
	}
	alloc := func(v *Term) bool { return v.op == OVar && v.allocBase > 0 }
	if alloc(t) && t.id >= mark {
		return 2
	}
	if t.op == OAdd {
		for _, a := range t.args {
			if alloc(a) && (a.id >= mark || a.allocBase-1 == entry.base) {
				off := 0
				for _, b := range t.args {
					if k, ok := b.intVal(); ok {
						off = k
					}
				}
				if a.id >= mark || off >= entry.off {
					return 2
				}
			}
		}
	}
	if e.oldVars(t, mark) {
		return 1
	}
	return 0
}

func (e *Engine) oldVars(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == OVar && t.id >= mark {
			return false
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (e *Engine) storeAgg(st *State, ref *Term, t types.Type, v Value) {
	a, ok := v.(*Agg)
	if !ok {
		fail("storeAgg %T", v)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				e.storeAgg(st, mkFld(ref, i), ft, a.elems[i])
			} else {
				e.storeLeaf(st, fieldKey(t, i), ref, ft, a.elems[i])
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			er := mkIdx(ref, mkInt(i))
			if isAgg(u.Elem()) {
				e.storeAgg(st, er, u.Elem(), a.elems[i])
			} else {
				e.storeLeaf(st, elemKey(u.Elem()), er, u.Elem(), a.elems[i])
			}
		}
	}
}

func (e *Engine) store(st *State, p *PtrV, t types.Type, v Value) {
	if p.snap != nil {
		fail("store through old-state pointer")
	}
	if isAgg(t) {
		e.storeAgg(st, p.ref, t, v)
		return
	}
	e.storeLeaf(st, p.key, p.ref, t, v)
}

// elemAddr gives the pointer to element i of an array at ref.
func elemPtr(arr *Term, i *Term, et types.Type, snap *Heap) *PtrV {
	k := ""
	if !isAgg(et) {
		k = elemKey(et)
	}
	return &PtrV{key: k, ref: mkIdx(arr, i), snap: snap}
}

// leafSites enumerates (key, sort, address-of-leaf as function of the object address) for a type.
type leafSite struct {
	key, sort string
	typ       types.Type
	at        func(*Term) *Term
}

func leafSites(t types.Type, baseKey string) []leafSite {
	if !isAgg(t) {
		var out []leafSite
		for _, l := range leavesOf(t) {
			out = append(out, leafSite{baseKey + l.suffix, l.sort, t, func(r *Term) *Term { return r }})
		}
		return out
	}
	var out []leafSite
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			i := i
			ft := u.Field(i).Type()
			if isAgg(ft) {
				for _, s := range leafSites(ft, "") {
					at := s.at
					out = append(out, leafSite{s.key, s.sort, s.typ, func(r *Term) *Term { return at(mkFld(r, i)) }})
				}
			} else {
				out = append(out, leafSites(ft, fieldKey(t, i))...)
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			i := i
			for _, s := range leafSites(u.Elem(), elemKeyIf(u.Elem())) {
				at := s.at
				out = append(out, leafSite{s.key, s.sort, s.typ, func(r *Term) *Term { return at(mkIdx(r, mkInt(i))) }})
			}
		}
	}
	return out
}
func elemKeyIf(t types.Type) string {
	if isAgg(t) {
		return ""
	}
	return elemKey(t)
}

// zero value of a type
func (e *Engine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, e.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, e.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.elems = append(tv.elems, e.zero(u.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroOfSort(l.sort))
	}
	return e.leafValue(ts, t)
}
func zeroOfSort(s string) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return mkInt(0)
	case SReal:
		return mkReal(new(big.Rat))
	case SStr:
		return mkStr("")
	case SRef:
		return nilRef
	}
	panic("zeroOfSort " + s)
}

// symbolic value of a type, allocated no later than birth b.
func (e *Engine) symbolic(name string, t types.Type, b Birth, entry bool) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, e.symbolic(name+"."+u.Field(i).Name(), u.Field(i).Type(), b, entry))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, e.symbolic(fmt.Sprintf("%s.%d", name, i), u.Elem(), b, entry))
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.elems = append(tv.elems, e.symbolic(fmt.Sprintf("%s.r%d", name, i), u.At(i).Type(), b, entry))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		if entry && l.suffix == "#off" {
			ts = append(ts, mkInt(0))
			continue
		}
		if entry && l.suffix == "#cap" {
			ts = append(ts, ts[2])
			continue
		}
		ts = append(ts, e.freshLeaf(name+l.suffix, l.sort, l.suffix, t, b))
	}
	if _, ok := under(t).(*types.Slice); ok {
		e.wf(mkLe(ts[2], ts[3]), ts[3])
		// a slice with capacity has a backing array; nil slices have none
		e.wf(mkImplies(mkEq(mkRoot(ts[0]), mkInt(0)), mkEq(ts[3], mkInt(0))), ts[0])
	}
	return e.leafValue(ts, t)
}

// wf adds a well-formedness fact that is always true (guarded by nothing).
func (e *Engine) wf(t *Term, about *Term) {
	if len(e.binders) > 0 {
		t = mkForall(e.binders, t)
	}
	e.global(t, about)
}

func (e *Engine) freshLeaf(name, srt, suffix string, t types.Type, b Birth) *Term {
	var v *Term
	if len(e.binders) > 0 {
		v = mkApp(freshName(name), srt, e.binders...)
	} else {
		v = mkFresh(name, srt)
	}
	v.birth = b
	switch {
	case srt == SRef:
		e.wf(mkAnd(mkLe(mkInt(0), mkRoot(v)), mkLt(mkRoot(v), e.birthTerm(b))), v)
		if suffix == "#arr" {
			for _, l := range e.localArrs {
				e.wf(mkNe(mkRoot(v), l), v)
			}
		}
	case suffix == "#len" || suffix == "#off" || suffix == "#cap" || suffix == "#tag":
		e.wf(mkLe(mkInt(0), v), v)
	case srt == SInt:
		if lo, hi, ok := rangeOf(t); ok {
			e.wf(mkAnd(mkLe(mkNum(lo, SInt), v), mkLe(v, mkNum(hi, SInt))), v)
		}
	}
	return v
}

// iteV merges two values of the same type.
func (e *Engine) iteV(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case nil:
		return b
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			fail("ite mismatch %T %T", a, b)
		}
		return mkIte(c, x, y)
	case *Agg:
		y := b.(*Agg)
		r := &Agg{}
		for i := range x.elems {
			r.elems = append(r.elems, e.iteV(c, x.elems[i], y.elems[i]))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.elems {
			r.elems = append(r.elems, e.iteV(c, x.elems[i], y.elems[i]))
		}
		return r
	case *PtrV:
		y := b.(*PtrV)
		if x.key != y.key {
			if x.ref == nilRef {
				return &PtrV{key: y.key, ref: mkIte(c, x.ref, y.ref), snap: y.snap}
			}
			if y.ref == nilRef {
				return &PtrV{key: x.key, ref: mkIte(c, x.ref, y.ref), snap: x.snap}
			}
			fail("merge of pointers into different keys %s / %s", x.key, y.key)
		}
		return &PtrV{key: x.key, ref: mkIte(c, x.ref, y.ref), snap: mergeSnap(x.snap, y.snap, x.ref == nilRef, y.ref == nilRef)}
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{arr: mkIte(c, x.arr, y.arr), off: mkIte(c, x.off, y.off), len: mkIte(c, x.len, y.len), cap: mkIte(c, x.cap, y.cap), snap: mergeSnap(x.snap, y.snap, x.arr == nilRef, y.arr == nilRef)}
	case *MapV:
		y := b.(*MapV)
		return &MapV{ref: mkIte(c, x.ref, y.ref), snap: mergeSnap(x.snap, y.snap, x.ref == nilRef, y.ref == nilRef)}
	case *IfaceV:
		y := b.(*IfaceV)
		if x.ptr != nil || y.ptr != nil {
			fail("merge of boxed interior pointers")
		}
		return &IfaceV{tag: mkIte(c, x.tag, y.tag), ref: mkIte(c, x.ref, y.ref), snap: mergeSnap(x.snap, y.snap, x.tag.isInt0(), y.tag.isInt0())}
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && x.fn == y.fn && len(x.bind) == len(y.bind) && x.sym == y.sym && x.builtin == y.builtin {
			r := &FuncV{fn: x.fn, builtin: x.builtin, sym: x.sym}
			for i := range x.bind {
				r.bind = append(r.bind, e.iteV(c, x.bind[i], y.bind[i]))
			}
			return r
		}
		fail("merge of different function values")
	case *IterV:
		if a == b {
			return a
		}
	}
	fail("ite of %T", a)
	return nil
}

func mergeSnap(a, b *Heap, anil, bnil bool) *Heap {
	if a == b {
		return a
	}
	if anil {
		return b
	}
	if bnil {
		return a
	}
	fail("merge of old-state and current-state pointers")
	return nil
}

func sameV(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.elems) != len(y.elems) {
			return false
		}
		for i := range x.elems {
			if !sameV(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.key == y.key && x.ref == y.ref && x.snap == y.snap
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.arr == y.arr && x.off == y.off && x.len == y.len && x.cap == y.cap && x.snap == y.snap
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.ref == y.ref && x.snap == y.snap
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.tag == y.tag && x.ref == y.ref && x.snap == y.snap && x.ptr == y.ptr
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.sym != y.sym || x.builtin != y.builtin || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameV(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok {
			return false
		}
		for i := range x.elems {
			if !sameV(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}
