package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modSet is one declared modification of a contract.
type modSet struct {
	sites []leafSite // leaf sites relative to ref
	ref   *Term
	// range of elements (slices)
	rng         bool
	arr, off, n *Term
	// whole key prefix
	keys []string
	// map contents
	mapBase string
}

func (f *Frame) call(x *ssa.Call, st *State) (*State, bool) {
	c := x.Call
	if c.IsInvoke() {
		res, out := f.invoke(x, st)
		return f.finishCall(x, res, out)
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, f.get(a, st))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, dead := f.builtin(b.Name(), args, x, st)
		if dead {
			return st, true
		}
		if v != nil {
			f.vals[x] = v
		}
		return st, false
	}
	fv, ok := f.get(c.Value, st).(*FuncV)
	if !ok {
		fail("call of %T", f.get(c.Value, st))
	}
	res, out := f.e.callValue(fv, args, st, x.Pos(), c.Signature())
	return f.finishCall(x, res, out)
}

func (f *Frame) finishCall(x *ssa.Call, res []Value, out *State) (*State, bool) {
	if out == nil {
		return nil, true
	}
	n := x.Call.Signature().Results().Len()
	if n == 1 {
		f.vals[x] = res[0]
	} else if n > 1 {
		f.vals[x] = &TupleV{res}
	}
	return out, false
}

func (e *Engine) callValue(fv *FuncV, args []Value, st *State, pos token.Pos, sig *types.Signature) ([]Value, *State) {
	if fv.builtin == "visited" {
		it := fv.bind[0].(*IterV)
		ks := e.keySort(it.mt.Key())
		vs := e.heapTerm(st.heap, it.visKey, arrSort(ks, SBool), nil)
		return []Value{mkSelect(mkSelect(vs, it.visRef), e.keyTerm(args[0], it.mt.Key()))}, st
	}
	if fv.builtin == "inmap0" {
		it := fv.bind[0].(*IterV)
		return []Value{mkSelect(it.str, e.keyTerm(args[0], it.mt.Key()))}, st
	}
	if fv.fn == nil {
		fail("call of unknown function value")
	}
	return e.callStatic(fv.fn, args, fv.bind, st, pos)
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	fn = origin(fn)
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (e *Engine) isSpecFn(fn *ssa.Function) bool {
	fn = origin(fn)
	if fn.Pos().IsValid() {
		return strings.HasPrefix(filepath.Base(e.prog.Fset.Position(fn.Pos()).Filename), "zzv_")
	}
	return false
}

func (e *Engine) isDSL(fn *ssa.Function) bool {
	fn = origin(fn)
	if !fn.Pos().IsValid() || fn.Parent() != nil {
		return false
	}
	return strings.HasPrefix(filepath.Base(e.prog.Fset.Position(fn.Pos()).Filename), "zzv_dsl") && strings.HasPrefix(fn.Name(), "V")
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		// wrappers / synthetic
		return fn.Blocks != nil
	}
	return strings.HasPrefix(p.Pkg.Path(), repoPrefix)
}

func (e *Engine) callStatic(fn *ssa.Function, args, bind []Value, st *State, pos token.Pos) ([]Value, *State) {
	if e.isDSL(fn) {
		return e.dsl(fn, args, st, pos)
	}
	var top *Frame
	if len(e.stack) > 0 {
		top = e.stack[len(e.stack)-1]
	}
	if top != nil && top.apply != nil && top.apply.target == fn && !top.apply.done {
		return e.targetCall(top.apply, fn, args, st, pos)
	}
	if c := e.contracts[fn]; c != nil && len(e.binders) == 0 && !e.noapply[fn] {
		e.applied[fn.String()] = true
		e.spec++
		defer func() { e.spec-- }()
		ap := &applyCtx{target: fn, callPos: pos, specAt: e.spec - 1}
		_, out := e.callFn(c, args, nil, st, ap)
		if out != nil && !ap.done {
			fail("contract of %s never calls it", fn.Name())
		}
		return ap.res, out
	}
	if top != nil && len(e.binders) == 0 && strings.HasPrefix(fn.Name(), "Lemma_") && e.isSpecFn(fn) {
		// use of a proved lemma: preconditions are obligations, conclusions are facts, no effect
		e.lemmasUsed[fn] = true
		e.spec++
		defer func() { e.spec-- }()
		e.callFn(fn, args, nil, st.clone(), &applyCtx{lemma: fn, callPos: pos, specAt: e.spec - 1})
		return nil, st
	}
	if !inRepo(fn) || fn.Blocks == nil {
		return e.external(fn, args, st, pos)
	}
	return e.callFn(fn, args, bind, st, nil)
}

// targetCall handles the call of the contracted function inside its contract.
func (e *Engine) targetCall(ap *applyCtx, fn *ssa.Function, args []Value, st *State, pos token.Pos) ([]Value, *State) {
	ap.done = true
	pre := st.clone()
	ap.pre = pre
	if ap.verify {
		sp := e.spec
		e.spec = 0
		res, out := e.callFn(fn, args, nil, st, nil)
		e.spec = sp
		if out == nil {
			return nil, nil
		}
		e.frameObl(ap, pre, out, fn, pos)
		return res, out
	}
	// apply: havoc
	nb := e.newBase()
	e.global(mkLe(e.birthTerm(st.alloc), e.allocVars[nb.base]), e.allocVars[nb.base])
	out := st.clone()
	out.alloc = nb
	for _, m := range ap.mods {
		e.havocMod(out, m)
	}
	e.contractBase(out, nb)
	var res []Value
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		v := e.symbolic("ret_"+fn.Name(), r.At(i).Type(), nb, true)
		res = append(res, v)
	}
	ap.res = res
	return res, out
}

// contractBase records that after a contract-applied call the heap is closed below nb.
func (e *Engine) contractBase(st *State, nb Birth) {
	e.contractBases = append(e.contractBases, nb)
	done := map[*Term]bool{}
	for _, t := range st.heap.m {
		for t.op == OStore {
			t = t.args[0]
		}
		if t.op == OVar {
			done[t] = true
		}
	}
	for _, h := range e.heapVars {
		if h.birth.le(nb) {
			e.closureFact(h, nb)
		}
	}
}

func (e *Engine) havocMod(st *State, m modSet) {
	switch {
	case m.mapBase != "":
		for k, t := range e.allKeys(st) {
			if strings.HasPrefix(k, m.mapBase+"#") {
				_, vs := arrSorts(t.sort)
				e.logWrite(k, mkRoot(m.ref))
				st.heap.m[k] = mkStore(t, m.ref, mkFresh("Hm_"+k, vs))
				if strings.HasSuffix(k, "#n") {
					v := mkSelect(st.heap.m[k], m.ref)
					e.wf(mkLe(mkInt(0), v), v)
				}
			}
		}
	case m.rng:
		seen := map[string]bool{}
		for _, ls := range m.sites {
			if seen[ls.key] {
				continue
			}
			seen[ls.key] = true
			e.logWrite(ls.key, mkRoot(m.arr))
			h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
			nh := e.newHeapVar("Hm_"+ls.key, h.sort, ls.key, st.alloc, ls.typ)
			r := mkBoundVar("r", SRef)
			sel := mkSelect(nh, r)
			var hits []*Term
			for _, l2 := range m.sites {
				if l2.key == ls.key {
					hits = append(hits, inRangeOf(r, l2, m.arr, m.off, m.n))
				}
			}
			e.assume(st, mkForall([]*Term{r}, mkOr(mkEq(sel, mkSelect(h, r)), mkOr(hits...)), []*Term{sel}), "modifies range")
			st.heap.m[ls.key] = nh
		}
	case len(m.keys) > 0:
		for _, p := range m.keys {
			for k, t := range e.allKeys(st) {
				if k == p || strings.HasPrefix(k, p+"#") || strings.HasSuffix(p, ".") && strings.HasPrefix(k, p) {
					e.logWrite(k, nil)
					st.heap.m[k] = e.newHeapVar("Hm_"+k, t.sort, k, st.alloc, nil)
				}
			}
		}
	default:
		for _, ls := range m.sites {
			h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
			v := e.freshLeaf("mod_"+ls.key, ls.sort, suffixOf(ls.key), ls.typ, st.alloc)
			e.logWrite(ls.key, mkRoot(m.ref))
			st.heap.m[ls.key] = mkStore(h, ls.at(m.ref), v)
		}
	}
}

func (e *Engine) allKeys(st *State) map[string]*Term {
	r := map[string]*Term{}
	for k, t := range e.init {
		r[k] = t
	}
	for k, t := range st.heap.m {
		r[k] = t
	}
	return r
}

// frameObl obliges that nothing outside the declared modifications changed.
func (e *Engine) frameObl(ap *applyCtx, pre, post *State, fn *ssa.Function, pos token.Pos) {
	var keys []string
	for k := range post.heap.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	a := e.birthTerm(pre.alloc)
	for _, k := range keys {
		if strings.HasPrefix(k, "visited:") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		h1 := post.heap.m[k]
		h0, ok := e.lookupHeap(pre, k)
		if !ok || h0 == h1 {
			continue
		}
		r := mkFresh("r", SRef)
		cond := mkAnd(mkLt(mkRoot(r), a), mkLe(mkInt(0), mkRoot(r)))
		skip := false
		var ex []*Term
		for _, m := range ap.mods {
			for _, p := range m.keys {
				if k == p || strings.HasPrefix(k, p+"#") || strings.HasSuffix(p, ".") && strings.HasPrefix(k, p) {
					skip = true
				}
			}
			if m.mapBase != "" && strings.HasPrefix(k, m.mapBase+"#") {
				ex = append(ex, mkEq(r, m.ref))
			}
			for _, ls := range m.sites {
				if ls.key != k {
					continue
				}
				if m.rng {
					ex = append(ex, inRangeOf(r, ls, m.arr, m.off, m.n))
				} else {
					ex = append(ex, mkEq(r, ls.at(m.ref)))
				}
			}
		}
		if skip {
			continue
		}
		goal := mkImplies(cond, mkOr(mkEq(mkSelect(h1, r), mkSelect(h0, r)), mkOr(ex...)))
		e.oblige(post, "frame", "modifies nothing else: "+k, goal, pos, nil)
	}
}

// ---- interface method calls

func (f *Frame) invoke(x *ssa.Call, st *State) ([]Value, *State) {
	e := f.e
	recv := f.get(x.Call.Value, st).(*IfaceV)
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, f.get(a, st))
	}
	m := x.Call.Method
	e.oblige(st, "safety", "nil interface call "+m.Name(), mkNe(recv.tag, mkInt(0)), x.Pos(), nil)
	return e.invokeOn(recv, m, args, st, x.Pos(), x.Call.Value.Type())
}

func (e *Engine) invokeOn(recv *IfaceV, m *types.Func, args []Value, st *State, pos token.Pos, it types.Type) ([]Value, *State) {
	if recv.tag.op == OIte {
		c := recv.tag.args[0]
		one := func(tag *Term, cond *Term) ([]Value, *State) {
			s := st.clone()
			s.pc = mkAnd(s.pc, cond)
			if s.pc.isFalse() {
				return nil, nil
			}
			return e.invokeOn(&IfaceV{tag: tag, ref: recv.ref, snap: recv.snap}, m, args, s, pos, it)
		}
		r1, s1 := one(recv.tag.args[1], c)
		r2, s2 := one(recv.tag.args[2], mkNot(c))
		return e.mergeResults(r1, s1, r2, s2)
	}
	if k, ok := recv.tag.intVal(); ok {
		if k == 0 {
			return nil, nil
		}
		t := e.tagTypes[k-1]
		fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			fail("no method %s on %s", m.Name(), t)
		}
		v := e.unbox(st, recv, t)
		return e.callStatic(fn, append([]Value{v}, args...), nil, st, pos)
	}
	// symbolic tag: closed-world dispatch over known implementing repo types is declared by the spec
	impls := e.ifaceImpls[tyStr(it)]
	if len(impls) > 0 {
		var rr []Value
		var rs *State
		var known []*Term
		for _, t := range impls {
			tag := mkInt(int64(e.typeTag(t)))
			c := mkEq(recv.tag, tag)
			known = append(known, c)
			s := st.clone()
			s.pc = mkAnd(s.pc, c)
			r1, s1 := e.invokeOn(&IfaceV{tag: tag, ref: recv.ref, snap: recv.snap}, m, args, s, pos, it)
			if rs == nil {
				rr, rs = r1, s1
			} else {
				rr, rs = e.mergeResults(r1, s1, rr, rs)
			}
		}
		e.models["closed world: "+tyStr(it)] = true
		if rs != nil {
			e.assume(rs, mkImplies(mkNe(recv.tag, mkInt(0)), mkOr(known...)), "closed world")
		}
		e.assume(st, mkImplies(mkNe(recv.tag, mkInt(0)), mkOr(known...)), "closed world: "+tyStr(it))
		return rr, rs
	}
	return e.externalMethod(recv, m, args, st, pos)
}

func (e *Engine) mergeResults(r1 []Value, s1 *State, r2 []Value, s2 *State) ([]Value, *State) {
	if s1 == nil {
		return r2, s2
	}
	if s2 == nil {
		return r1, s1
	}
	out, conds := e.join([]*State{s1, s2})
	out.names = s1.names
	var res []Value
	for i := range r1 {
		res = append(res, e.iteV(conds[0], r1[i], r2[i]))
	}
	return res, out
}

// ---- builtins

func (f *Frame) builtin(name string, args []Value, x *ssa.Call, st *State) (Value, bool) {
	e := f.e
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return v.cap, false
			}
			return v.len, false
		case *Term:
			return strLen(v), false
		case *MapV:
			mt := under(x.Call.Args[0].Type()).(*types.Map)
			n := mkSelect(e.heapTerm(e.mapHeap(st, v), mapBase(mt)+"#n", SInt, nil), v.ref)
			if v.ref == nilRef {
				return mkInt(0), false
			}
			return mkIte(mkEq(v.ref, nilRef), mkInt(0), n), false
		case *PtrV:
			at := under(ptrElem(x.Call.Args[0].Type())).(*types.Array)
			return mkInt(at.Len()), false
		case *Agg:
			return mkInt(int64(len(v.elems))), false
		}
	case "append":
		sl := under(x.Type()).(*types.Slice)
		switch t := args[1].(type) {
		case *SliceV:
			return e.appendV(st, args[0].(*SliceV), t, sl.Elem()), false
		case *Term: // append([]byte, string...)
			s := e.strToSlice(st, t, sl).(*SliceV)
			return e.appendV(st, args[0].(*SliceV), s, sl.Elem()), false
		}
	case "copy":
		d := args[0].(*SliceV)
		et := under(x.Call.Args[0].Type()).(*types.Slice).Elem()
		switch s := args[1].(type) {
		case *SliceV:
			return e.copyV(st, d, s, et), false
		case *Term:
			ss := e.strToSlice(st, s, under(x.Call.Args[0].Type()).(*types.Slice)).(*SliceV)
			return e.copyV(st, d, ss, et), false
		}
	case "delete":
		m := args[0].(*MapV)
		mt := under(x.Call.Args[0].Type()).(*types.Map)
		e.mapDelete(st, m, mt, args[1])
		return nil, false
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkLe(t, r), r, t)
			}
		}
		return r, false
	case "panic":
		e.oblige(st, "safety", "explicit panic unreachable", tFalse, x.Pos(), nil)
		return nil, true
	case "print", "println":
		return nil, false
	case "ssa:wrapnilchk":
		return args[0], false
	}
	fail("builtin %s", name)
	return nil, false
}

// ---- specification language

func (e *Engine) strArg(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.op != OStr {
		fail("specification name must be a string literal")
	}
	return t.name
}

func (e *Engine) curApply() *applyCtx {
	for i := len(e.stack) - 1; i >= 0; i-- {
		if e.stack[i].apply != nil {
			return e.stack[i].apply
		}
	}
	return nil
}

func (e *Engine) callSpecClosure(fv Value, args []Value, st *State) *Term {
	e.spec++
	defer func() { e.spec-- }()
	f := fv.(*FuncV)
	if f.fn == nil {
		fail("spec closure unknown")
	}
	s := st.clone()
	pc := s.pc
	s.pc = tTrue
	_ = pc
	res, out := e.callFn(f.fn, args, f.bind, s, nil)
	if out == nil {
		fail("specification closure does not return")
	}
	return res[0].(*Term)
}

func (e *Engine) dsl(fn *ssa.Function, args []Value, st *State, pos token.Pos) ([]Value, *State) {
	name := origin(fn).Name()
	ap := e.curApply()
	applying := ap != nil && !ap.verify
	switch name {
	case "VRequires":
		t := args[0].(*Term)
		if applying {
			if e.spec-1 == ap.specAt || true {
				nm := ""
				if ap.lemma != nil {
					nm = ap.lemma.Name()
				} else {
					nm = ap.target.Name()
				}
				e.oblige(st, "pre", "precondition of "+nm, t, ap.callPos, nil)
			}
		} else {
			e.assume(st, t, "requires")
			e.requires++
			if st.pc.isTrue() && len(e.binders) == 0 {
				e.learn(t)
			}
		}
		return nil, st
	case "VAssume": // trusted fact, listed in the evidence
		e.trusted = append(e.trusted, e.strArg(args[0]))
		e.assume(st, args[1].(*Term), "assumed "+e.strArg(args[0]))
		return nil, st
	case "VAssert":
		nm := e.strArg(args[0])
		t := args[1].(*Term)
		if applying {
			e.assume(st, t, "ensures "+nm)
		} else {
			e.oblige(st, "post", nm, t, pos, nil)
		}
		return nil, st
	case "VDecide": // case distinction: the driver explores both truth values separately
		t := e.simp(args[0].(*Term))
		if applying || !st.pc.isTrue() || len(e.binders) > 0 || t.isTrue() || t.isFalse() {
			return nil, st
		}
		if e.decideN == len(e.decide) {
			e.decide = append(e.decide, true)
		}
		if !e.decide[e.decideN] {
			t = mkNot(t)
		}
		e.decideN++
		e.assume(st, t, "case")
		e.learn(t)
		return nil, st
	case "VPartial":
		e.partial = true
		return nil, st
	case "VForall", "VExists":
		i := mkBoundVar("i", SInt)
		e.binders = append(e.binders, i)
		body := e.callSpecClosure(args[2], []Value{i}, st)
		e.binders = e.binders[:len(e.binders)-1]
		rng := mkAnd(mkLe(args[0].(*Term), i), mkLt(i, args[1].(*Term)))
		lo, ok1 := args[0].(*Term).intVal()
		hi, ok2 := args[1].(*Term).intVal()
		if ok1 && ok2 && hi-lo <= 32 {
			var parts []*Term
			for k := lo; k < hi; k++ {
				parts = append(parts, subst(body, map[*Term]*Term{i: mkInt(int64(k))}))
			}
			if name == "VForall" {
				return []Value{mkAnd(parts...)}, st
			}
			return []Value{mkOr(parts...)}, st
		}
		if name == "VForall" {
			return []Value{mkForall([]*Term{i}, mkImplies(rng, body))}, st
		}
		return []Value{mkExists([]*Term{i}, mkAnd(rng, body))}, st
	case "VForallKey", "VForallVal": // over all keys of a map type: VForallKey(m map[K]V, func(k K) bool)
		fv := args[1].(*FuncV)
		kt := fv.fn.Signature.Params().At(0).Type()
		ls := flatLeaves(kt)
		var bs []*Term
		for range ls {
			bs = append(bs, nil)
		}
		for i, l := range ls {
			bs[i] = mkBoundVar("k", l.sort)
		}
		kv, _ := e.unflatten(bs, kt)
		m := args[0].(*MapV)
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		e.binders = append(e.binders, bs...)
		body := e.callSpecClosure(args[1], []Value{kv}, st)
		e.binders = e.binders[:len(e.binders)-len(bs)]
		has := e.mapHas(st, m, mt, e.keyTerm(kv, mt.Key()))
		return []Value{mkForall(bs, mkImplies(has, body))}, st
	case "VForallAny": // over all values of a basic type
		fv := args[0].(*FuncV)
		kt := fv.fn.Signature.Params().At(0).Type()
		ls := flatLeaves(kt)
		var bs []*Term
		for _, l := range ls {
			bs = append(bs, mkBoundVar("k", l.sort))
		}
		kv, _ := e.unflatten(bs, kt)
		e.binders = append(e.binders, bs...)
		body := e.callSpecClosure(args[0], []Value{kv}, st)
		e.binders = e.binders[:len(e.binders)-len(bs)]
		return []Value{mkForall(bs, body)}, st
	case "VOld":
		s := &Heap{map[string]*Term{}}
		for k, t := range st.heap.m {
			s.m[k] = t
		}
		return []Value{withSnap(args[0], s)}, st
	case "VEq", "VEqT", "VEqS":
		return []Value{mkEq(args[0].(*Term), args[1].(*Term))}, st
	case "VLe":
		return []Value{mkLe(args[0].(*Term), args[1].(*Term))}, st
	case "VPtrEq":
		return []Value{mkEq(args[0].(*PtrV).ref, args[1].(*PtrV).ref)}, st
	case "VFresh":
		a := e.freshBase(ap)
		return []Value{mkLe(a, mkRoot(args[0].(*PtrV).ref))}, st
	case "VFreshSlice":
		a := e.freshBase(ap)
		s := args[0].(*SliceV)
		return []Value{mkOr(mkEq(s.cap, mkInt(0)), mkLe(a, mkRoot(s.arr)))}, st
	case "VStreamEmpty":
		s := args[0].(*PtrV).ref
		return []Value{mkEq(e.ioGet(st, ioR, SInt, s), e.ioGet(st, ioW, SInt, s))}, st
	case "VFreshMap":
		a := e.freshBase(ap)
		return []Value{mkLe(a, mkRoot(args[0].(*MapV).ref))}, st
	case "VDistinct":
		return []Value{mkNe(args[0].(*PtrV).ref, args[1].(*PtrV).ref)}, st
	case "VSameRoot":
		return []Value{mkEq(mkRoot(args[0].(*PtrV).ref), mkRoot(args[1].(*PtrV).ref))}, st
	case "VDisjoint": // slices with different backing arrays (or empty)
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		return []Value{mkOr(mkNe(mkRoot(a.arr), mkRoot(b.arr)), mkEq(a.cap, mkInt(0)), mkEq(b.cap, mkInt(0)))}, st
	case "VMod":
		if ap == nil {
			fail("VMod outside a contract")
		}
		p := args[0].(*PtrV)
		t := ptrElem(fn.Signature.Params().At(0).Type())
		ap.mods = append(ap.mods, modSet{sites: leafSites(t, p.key), ref: p.ref})
		return nil, st
	case "VModElems":
		s := args[0].(*SliceV)
		et := under(fn.Signature.Params().At(0).Type()).(*types.Slice).Elem()
		ap.mods = append(ap.mods, modSet{sites: leafSites(et, elemKeyIf(et)), rng: true, arr: s.arr, off: s.off, n: s.len})
		return nil, st
	case "VModMap":
		m := args[0].(*MapV)
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		e.mapDom(st.heap, mt)
		ap.mods = append(ap.mods, modSet{mapBase: mapBase(mt), ref: m.ref})
		return nil, st
	case "VModType": // any object of the type of *p
		t := ptrElem(fn.Signature.Params().At(0).Type())
		var ks []string
		p := args[0].(*PtrV)
		for _, s := range leafSites(t, p.key) {
			ks = append(ks, s.key)
			e.heapTerm(st.heap, s.key, s.sort, s.typ)
		}
		ap.mods = append(ap.mods, modSet{keys: ks})
		return nil, st
	case "VReveal", "VHint":
		return nil, st
	case "VCase": // case split hint: the condition is used to split later obligations
		e.splits = append(e.splits, args[0].(*Term))
		return nil, st
	case "VNote":
		return nil, st
	case "VStr": // string literal
		return []Value{args[0]}, st
	}
	fail("unknown specification function %s", name)
	return nil, nil
}

func (e *Engine) freshBase(ap *applyCtx) *Term {
	if ap != nil && ap.pre != nil {
		return e.birthTerm(ap.pre.alloc)
	}
	return e.allocVars[0]
}

func (e *Engine) globalConst(g *ssa.Global, st *State) Value {
	return nil
}

// ---- invariant templates

type binding struct {
	name string
	typ  types.Type
	get  func(st *State, ph map[*ssa.Phi]Value) Value
}

func invTarget(name string) string {
	n := strings.TrimPrefix(name, "Inv_")
	if i := strings.Index(n, "__"); i >= 0 {
		n = n[:i]
	}
	return n
}

// fnKeyName: "Func" or "Type_Method"
func fnKeyName(fn *ssa.Function) string {
	fn = origin(fn)
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
	}
	return fn.Name()
}

func (f *Frame) templateCands(l *Loop, phis []*ssa.Phi, entryPhi map[*ssa.Phi]Value, entry *State, loc string, cp *ssa.Phi, c0 *Term, step int64) []loopCand {
	e := f.e
	var tmpl []*ssa.Function
	seen := map[string]bool{}
	for _, fr := range e.stack {
		k := fnKeyName(fr.fn)
		if seen[k] {
			continue
		}
		seen[k] = true
		tmpl = append(tmpl, e.invs[k]...)
		if fr.fn.Parent() != nil {
			k = fnKeyName(fr.fn.Parent())
			if !seen[k] {
				seen[k] = true
				tmpl = append(tmpl, e.invs[k]...)
			}
		}
	}
	if len(tmpl) == 0 {
		return nil
	}
	// visible variables
	var vis []binding
	have := map[string]bool{}
	for _, p := range phis {
		p := p
		if p.Comment == "" {
			continue
		}
		have[p.Comment] = true
		vis = append(vis, binding{p.Comment, p.Type(), func(st *State, ph map[*ssa.Phi]Value) Value { return ph[p] }})
	}
	addNames := func(names map[string]nameEnt) {
		var ks []string
		for k := range names {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n := names[k]
			if have[k] || n.typ == nil {
				continue
			}
			if ph, ok := n.sv.(*ssa.Phi); ok && ph.Block() == l.header {
				continue
			}
			have[k] = true
			if n.addr {
				p, ok := n.v.(*PtrV)
				if !ok {
					continue
				}
				t := n.typ
				vis = append(vis, binding{k, t, func(st *State, _ map[*ssa.Phi]Value) Value { return e.load(st, p, t) }})
				if !have["&"+k] {
					have["&"+k] = true
					vis = append(vis, binding{"&" + k, types.NewPointer(t), func(*State, map[*ssa.Phi]Value) Value { return p }})
				}
			} else {
				v := n.v
				vis = append(vis, binding{k, n.typ, func(*State, map[*ssa.Phi]Value) Value { return v }})
			}
		}
	}
	addNames(entry.names)
	params := map[string]nameEnt{}
	for i, p := range f.fn.Params {
		params[p.Name()] = nameEnt{v: f.args[i], typ: p.Type(), sv: p}
	}
	addNames(params)
	for i := len(e.stack) - 2; i >= 0; i-- {
		fr := e.stack[i]
		m := map[string]nameEnt{}
		if fr.cur != nil {
			for k, v := range fr.cur.names {
				m[k] = v
			}
		}
		for j, p := range fr.fn.Params {
			if _, ok := m[p.Name()]; !ok {
				m[p.Name()] = nameEnt{v: fr.args[j], typ: p.Type(), sv: p}
			}
		}
		addNames(m)
	}
	byName := map[string]binding{}
	for _, b := range vis {
		byName[b.name] = b
	}
	var iters []*IterV
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := f.vals[nx.Iter].(*IterV); ok {
				iters = append(iters, it)
			}
		}
	}
	// entry snapshots
	loopSnap := entry.heap.clone()
	fnFrame := func(key string) *Frame {
		for _, fr := range e.stack {
			if fnKeyName(fr.fn) == key || fr.fn.Parent() != nil && fnKeyName(fr.fn.Parent()) == key {
				return fr
			}
		}
		return f
	}
	special := func(n string, t types.Type, key string) (func(st *State, ph map[*ssa.Phi]Value) Value, bool, bool) {
		switch {
		case n == "k":
			if cp == nil {
				return nil, true, false
			}
			return func(st *State, ph map[*ssa.Phi]Value) Value { return kTerm(ph[cp].(*Term), c0, step) }, true, true
		case n == "k1" || n == "k2":
			d := 1
			if n == "k2" {
				d = 2
			}
			if len(f.loopK) <= d || f.loopK[len(f.loopK)-1-d] == nil {
				return nil, true, false
			}
			v := f.loopK[len(f.loopK)-1-d]
			return func(*State, map[*ssa.Phi]Value) Value { return v }, true, true
		case n == "visited" || n == "inmap0":
			sg, ok := under(t).(*types.Signature)
			if !ok || len(iters) == 0 || !types.Identical(sg.Params().At(0).Type(), iters[0].mt.Key()) {
				return nil, true, false
			}
			v := &FuncV{builtin: n, bind: []Value{iters[0]}}
			return func(*State, map[*ssa.Phi]Value) Value { return v }, true, true
		case strings.HasPrefix(n, "pre_"): // value and heap at loop entry
			b, ok := byName[n[4:]]
			if !ok || !types.Identical(b.typ, t) {
				return nil, true, false
			}
			v := withSnap(b.get(entry, entryPhi), loopSnap)
			return func(*State, map[*ssa.Phi]Value) Value { return v }, true, true
		case strings.HasPrefix(n, "old_"): // parameter value and heap at entry of the named function
			fr := fnFrame(key)
			for i, p := range fr.fn.Params {
				if p.Name() == n[4:] || len(fr.fn.Params) > 0 && n[4:] == fmt.Sprintf("arg%d", i) {
					v := withSnap(fr.args[i], fr.entry.heap)
					return func(*State, map[*ssa.Phi]Value) Value { return v }, true, true
				}
			}
			return nil, true, false
		case strings.HasPrefix(n, "arg"): // parameter by position
			fr := fnFrame(key)
			for i, p := range fr.fn.Params {
				if n == fmt.Sprintf("arg%d", i) && types.Identical(p.Type(), t) {
					v := fr.args[i]
					return func(*State, map[*ssa.Phi]Value) Value { return v }, true, true
				}
			}
			return nil, true, false
		}
		return nil, false, false
	}
	var out []loopCand
	for _, tf := range tmpl {
		tf := tf
		key := invTarget(tf.Name())
		type opt struct {
			get  func(st *State, ph map[*ssa.Phi]Value) Value
			name string
		}
		var opts [][]opt
		ok := true
		for _, p := range tf.Params {
			g, sp, good := special(p.Name(), p.Type(), key)
			if sp {
				if !good {
					ok = false
					break
				}
				opts = append(opts, []opt{{g, p.Name()}})
				continue
			}
			if b, has := byName[p.Name()]; has && types.Identical(b.typ, p.Type()) {
				opts = append(opts, []opt{{b.get, b.name}})
				continue
			}
			if b, has := byName["&"+p.Name()]; has && types.Identical(b.typ, p.Type()) {
				opts = append(opts, []opt{{b.get, b.name}})
				continue
			}
			var os []opt
			for _, b := range vis {
				if types.Identical(b.typ, p.Type()) {
					used := false
					for _, q := range tf.Params {
						if q.Name() == b.name {
							used = true
						}
					}
					if !used {
						os = append(os, opt{b.get, b.name})
					}
				}
			}
			if len(os) == 0 || len(os) > 6 {
				ok = false
				break
			}
			opts = append(opts, os)
		}
		if !ok {
			continue
		}
		combos := [][]opt{{}}
		for _, os := range opts {
			var nc [][]opt
			for _, c := range combos {
				for _, o := range os {
					nc = append(nc, append(append([]opt{}, c...), o))
				}
			}
			combos = nc
			if len(combos) > 24 {
				combos = combos[:24]
			}
		}
		for _, c := range combos {
			c := c
			nm := tf.Name()
			if len(combos) > 1 {
				var ns []string
				for _, o := range c {
					ns = append(ns, o.name)
				}
				nm += "(" + strings.Join(ns, ",") + ")"
			}
			cand := e.newCand(loc+": "+nm, false)
			out = append(out, loopCand{cand, func(st *State, ph map[*ssa.Phi]Value) (res *Term) {
				defer func() {
					if x := recover(); x != nil {
						if u, is := x.(unsupported); is {
							cand.why = u.msg
							res = nil
							return
						}
						panic(x)
					}
				}()
				var args []Value
				for _, o := range c {
					args = append(args, o.get(st, ph))
				}
				sc := st.clone()
				e.spec++
				defer func() { e.spec-- }()
				d := len(e.stack)
				cd := e.callDepth
				defer func() { e.stack = e.stack[:d]; e.callDepth = cd }()
				r, o := e.callFn(tf, args, nil, sc, nil)
				if o == nil {
					return nil
				}
				return r[0].(*Term)
			}})
		}
	}
	return out
}

func kTerm(i, c0 *Term, step int64) *Term {
	d := mkSub(i, c0)
	if step == 1 {
		return d
	}
	return mkIDiv(d, mkInt(step))
}
