package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runLoop executes a natural loop: find what changes, cut at the header,
// assume candidate invariants, execute an arbitrary iteration.
func (f *Frame) runLoop(l *Loop, done map[*ssa.BasicBlock]bool) {
	e := f.e
	h := l.header
	ins := f.in[h]
	delete(f.in, h)
	if f.unroll(l, ins) {
		for b := range l.blocks {
			done[b] = true
		}
		return
	}
	var sts []*State
	for _, x := range ins {
		sts = append(sts, x.st)
	}
	entry, conds := e.join(sts)
	var phis []*ssa.Phi
	entryPhi := map[*ssa.Phi]Value{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entryPhi[p] = f.phiVal(ins, conds, len(phis)-1)
	}
	f.mergeLive(ins, conds)
	var order []*ssa.BasicBlock
	for _, b := range f.order {
		if l.blocks[b] {
			order = append(order, b)
		}
	}
	havocKeys := map[string]bool{}
	havocPhi := map[*ssa.Phi]map[int]bool{} // leaf indices
	changeBase := false
	savedIn := cloneIn(f.in)
	savedRets := len(f.rets)
	savedFacts, savedObls, savedCands := len(e.facts), len(e.obls), len(e.cands)
	savedK := f.loopK
	savedKnown, savedDecide, savedBounds := len(e.knownLog), e.decideN, len(boundLog)
	mark := TT.next
	var writes map[string]map[*Term]bool
	var prevCur map[*ssa.Phi]Value
	wdepth := len(e.wlog)
	defer func() { e.wlog = e.wlog[:wdepth] }()
	for pass := 0; ; pass++ {
		if pass > 60 {
			fail("loop change analysis does not converge in %s", f.fn)
		}
		f.in = cloneIn(savedIn)
		f.rets = f.rets[:savedRets]
		e.facts = e.facts[:savedFacts]
		e.obls = e.obls[:savedObls]
		e.forget(savedKnown)
		resetBounds(savedBounds)
		e.decideN = savedDecide
		e.cands = e.cands[:savedCands]
		f.loopK = savedK

		st := entry.clone()
		if changeBase {
			nb := e.newBase()
			e.global(mkLe(e.birthTerm(entry.alloc), e.allocVars[nb.base]), e.allocVars[nb.base])
			st.alloc = nb
		}
		keys := sortedKeys(havocKeys)
		for _, k := range keys {
			old := e.curHeap(entry, k)
			st.heap.m[k] = e.newHeapVar("Hl_"+k, old.sort, k, st.alloc, nil)
		}
		for _, k := range keys {
			if strings.HasSuffix(k, "#len") || strings.HasSuffix(k, "#cap") {
				base := k[:len(k)-4]
				lt, ok1 := e.lookupHeap(st, base+"#len")
				ct, ok2 := e.lookupHeap(st, base+"#cap")
				if ok1 && ok2 && lt != ct && !strings.HasPrefix(k, "map:") {
					r := mkBoundVar("r", SRef)
					a, b := mkSelect(lt, r), mkSelect(ct, r)
					if strings.HasSuffix(k, "#len") || !havocKeys[base+"#len"] {
						e.assume(st, mkForall([]*Term{r}, mkLe(a, b), []*Term{a}), "len<=cap")
					}
				}
			}
		}
		cur := map[*ssa.Phi]Value{}
		for _, p := range phis {
			hv := havocPhi[p]
			if len(hv) == 0 {
				cur[p] = entryPhi[p]
			} else {
				cur[p] = e.havocLeaves(phiName(p), entryPhi[p], p.Type(), hv, st.alloc)
			}
		}
		// candidates
		lc := f.loopCands(l, phis, entryPhi, cur, entry, st, havocKeys, writes, prevCur, mark)
		prevCur = cur
		writes = map[string]map[*Term]bool{}
		e.wlog = append(e.wlog[:wdepth:wdepth], writes)
		for _, c := range lc {
			t0 := c.eval(entry, entryPhi)
			if t0 == nil {
				c.cand.dropped = true
				continue
			}
			e.oblige(entry, "cand", c.cand.name+" [entry]", t0, h.Instrs[0].Pos(), c.cand)
			t1 := c.eval(st, cur)
			if t1 == nil {
				c.cand.dropped = true
				continue
			}
			if !t1.isTrue() {
				pc := st.pc
				if len(e.binders) > 0 {
					fail("loop inside quantified specification")
				}
				e.facts = append(e.facts, Fact{pc: pc, t: t1, note: "inv " + c.cand.name, cand: c.cand})
			}
		}
		f.active[h] = true
		f.back[h] = nil
		for _, p := range phis {
			f.vals[p] = cur[p]
			if p.Comment != "" {
				st.names[p.Comment] = nameEnt{v: cur[p], typ: p.Type(), sv: p}
			}
		}
		d := map[*ssa.BasicBlock]bool{h: true}
		f.execInstrs(h, st, len(phis))
		f.run(order, d)
		f.active[h] = false
		// compare back edges
		grew := false
		for _, b := range f.back[h] {
			for k := range b.st.heap.m {
				if havocKeys[k] {
					continue
				}
				if b.st.heap.m[k] != e.curHeap(entry, k) {
					havocKeys[k] = true
					grew = true
				}
			}
			for _, p := range phis {
				nv := b.phi[pidx(phis, p)]
				ev := e.flattenAny(entryPhi[p], p.Type())
				bv := e.flattenAny(nv, p.Type())
				for i := range ev {
					if havocPhi[p][i] {
						continue
					}
					if ev[i] != bv[i] {
						if havocPhi[p] == nil {
							havocPhi[p] = map[int]bool{}
						}
						havocPhi[p][i] = true
						grew = true
					}
				}
			}
			if b.st.alloc != st0alloc(entry, changeBase, b) && !changeBase {
				changeBase = true
				grew = true
			}
		}
		if grew {
			continue
		}
		// preservation obligations
		for _, b := range f.back[h] {
			nxt := map[*ssa.Phi]Value{}
			for _, p := range phis {
				nxt[p] = b.phi[pidx(phis, p)]
			}
			for _, c := range lc {
				if c.cand.dropped {
					continue
				}
				t := c.eval(b.st, nxt)
				if t == nil {
					c.cand.dropped = true
					continue
				}
				e.oblige(b.st, "cand", c.cand.name+" [preserved]", t, h.Instrs[0].Pos(), c.cand)
			}
		}
		f.back[h] = nil
		f.loopK = savedK
		for b := range l.blocks {
			done[b] = true
		}
		return
	}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func pidx(phis []*ssa.Phi, p *ssa.Phi) int {
	for i, q := range phis {
		if p == q {
			return i
		}
	}
	return -1
}

const maxUnroll = 40

// unroll executes a loop whose header condition is concrete in every iteration.
func (f *Frame) unroll(l *Loop, ins []edge) bool {
	e := f.e
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	savedIn := cloneIn(f.in)
	savedRets := len(f.rets)
	savedFacts, savedObls, savedCands := len(e.facts), len(e.obls), len(e.cands)
	savedK := f.loopK
	savedKnown, savedDecide, savedBounds := len(e.knownLog), e.decideN, len(boundLog)
	savedVals := map[ssa.Value]Value{}
	for k, v := range f.vals {
		savedVals[k] = v
	}
	restore := func() bool {
		f.in = savedIn
		f.rets = f.rets[:savedRets]
		e.facts = e.facts[:savedFacts]
		e.obls = e.obls[:savedObls]
		e.forget(savedKnown)
		resetBounds(savedBounds)
		e.decideN = savedDecide
		e.cands = e.cands[:savedCands]
		f.loopK = savedK
		f.active[h] = false
		f.vals = savedVals
		delete(f.unrolling, h)
		return false
	}
	var order []*ssa.BasicBlock
	for _, b := range f.order {
		if l.blocks[b] {
			order = append(order, b)
		}
	}
	// live-out values
	var lo []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, isPhi := r.(*ssa.Phi); !isPhi && !l.blocks[r.Block()] {
					lo = append(lo, v)
					break
				}
			}
		}
	}
	f.unrolling[h] = lo
	cur := ins
	for iter := 0; len(cur) > 0; iter++ {
		if iter > maxUnroll {
			return restore()
		}
		var sts []*State
		for _, x := range cur {
			sts = append(sts, x.st)
		}
		st, conds := e.join(sts)
		n := 0
		var pv []Value
		for _, in := range h.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			pv = append(pv, f.phiVal(cur, conds, n))
			n++
		}
		f.mergeLive(cur, conds)
		for i := 0; i < n; i++ {
			p := h.Instrs[i].(*ssa.Phi)
			f.vals[p] = pv[i]
			if p.Comment != "" {
				st.names[p.Comment] = nameEnt{v: pv[i], typ: p.Type(), sv: p}
			}
		}
		f.active[h] = true
		f.back[h] = nil
		f.loopK = append(append([]*Term{}, savedK...), mkInt(int64(iter)))
		// concrete condition?
		cnt := func() (in, out int) {
			for _, s := range h.Succs {
				if l.blocks[s] && s != h {
					in += len(f.in[s])
				} else if s != h {
					out += len(f.in[s]) + len(f.back[s])
				}
			}
			return
		}
		i0, o0 := cnt()
		f.execInstrs(h, st, n)
		i1, o1 := cnt()
		if i1 > i0 && o1 > o0 {
			return restore()
		}
		f.run(order, map[*ssa.BasicBlock]bool{h: true})
		f.active[h] = false
		cur = f.back[h]
		f.back[h] = nil
	}
	f.loopK = savedK
	delete(f.unrolling, h)
	return true
}

func st0alloc(entry *State, changed bool, b edge) Birth { return entry.alloc }

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (e *Engine) flattenAny(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *IterV:
		return []*Term{x.visRef}
	case *PtrV:
		return []*Term{x.ref}
	case *FuncV:
		if x.sym == nil {
			fail("function value varies in loop")
		}
	}
	return e.flatten(v, t)
}

func (e *Engine) havocLeaves(name string, v Value, t types.Type, hv map[int]bool, b Birth) Value {
	if p, ok := v.(*PtrV); ok {
		nv := e.freshLeaf(name, SRef, "", t, b)
		return &PtrV{key: p.key, ref: nv, snap: p.snap}
	}
	ts := append([]*Term{}, e.flatten(v, t)...)
	ls := flatLeaves(t)
	for i := range ts {
		if hv[i] {
			ts[i] = e.freshLeaf(name+ls[i].suffix, ls[i].sort, suffixOf(ls[i].suffix), leafType(t), b)
		}
	}
	r, _ := e.unflatten(ts, t)
	if s, ok := r.(*SliceV); ok {
		if hv[2] || hv[3] {
			e.wf(mkLe(s.len, s.cap), s.cap)
			e.wf(mkImplies(mkEq(mkRoot(s.arr), mkInt(0)), mkEq(s.cap, mkInt(0))), s.cap)
		}
	}
	return r
}

func leafType(t types.Type) types.Type {
	if isAgg(t) {
		return types.Typ[types.Int]
	}
	return t
}

func suffixOf(s string) string {
	if i := strings.LastIndex(s, "#"); i >= 0 {
		return s[i:]
	}
	return ""
}

func cloneIn(m map[*ssa.BasicBlock][]edge) map[*ssa.BasicBlock][]edge {
	r := map[*ssa.BasicBlock][]edge{}
	for k, v := range m {
		r[k] = append([]edge{}, v...)
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *Engine) curHeap(st *State, k string) *Term {
	if t, ok := st.heap.m[k]; ok {
		return t
	}
	if t, ok := e.init[k]; ok {
		return t
	}
	fail("heap key %s unknown", k)
	return nil
}
func (e *Engine) lookupHeap(st *State, k string) (*Term, bool) {
	if t, ok := st.heap.m[k]; ok {
		return t, true
	}
	t, ok := e.init[k]
	return t, ok
}

type loopCand struct {
	cand *Cand
	eval func(st *State, phis map[*ssa.Phi]Value) *Term
}

func (e *Engine) newCand(name string, auto bool) *Cand {
	c := &Cand{name: name, auto: auto}
	c.flag = mkFresh("flag", SBool)
	e.cands = append(e.cands, c)
	return c
}

// iteration counter: first int phi with constant entry and +1 step
func (f *Frame) counter(l *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Value) (*ssa.Phi, *Term, int64) {
	for _, p := range phis {
		if !isInteger(p.Type()) {
			continue
		}
		c, ok := entry[p].(*Term)
		if !ok {
			continue
		}
		for i, ed := range p.Edges {
			if !l.blocks[l.header.Preds[i]] {
				continue
			}
			if b, ok := ed.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() >= 1 {
					return p, c, k.Int64()
				}
			}
		}
	}
	return nil, nil, 1
}

func (f *Frame) loopCands(l *Loop, phis []*ssa.Phi, entryPhi, cur map[*ssa.Phi]Value, entry, st *State, havocKeys map[string]bool, writes map[string]map[*Term]bool, prevCur map[*ssa.Phi]Value, mark int) []loopCand {
	e := f.e
	var out []loopCand
	loc := fmt.Sprintf("%s@loop%d", f.fn.Name(), loopOrdinal(f, l))
	add := func(name string, auto bool, ev func(st *State, phis map[*ssa.Phi]Value) *Term) {
		out = append(out, loopCand{e.newCand(loc+": "+name, auto), ev})
	}
	cp, c0, step := f.counter(l, phis, entryPhi)
	var kOf func(ph map[*ssa.Phi]Value) *Term
	if cp != nil {
		kOf = func(ph map[*ssa.Phi]Value) *Term { return kTerm(ph[cp].(*Term), c0, step) }
		if step != 1 {
			add(phiName(cp)+" steps", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
				return mkEq(mkIMod(mkSub(ph[cp].(*Term), c0), mkInt(step)), mkInt(0))
			})
		}
		f.loopK = append(append([]*Term{}, f.loopK...), kOf(cur))
	} else {
		f.loopK = append(append([]*Term{}, f.loopK...), nil)
	}
	// integer phis
	for _, p := range phis {
		p := p
		if isInteger(p.Type()) {
			ev := entryPhi[p].(*Term)
			if cur[p] == entryPhi[p] {
				continue
			}
			add(phiName(p)+" >= entry", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkLe(ev, ph[p].(*Term)) })
			add(phiName(p)+" <= entry", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkLe(ph[p].(*Term), ev) })
			if !nonneg(ev) {
				add(phiName(p)+" >= 0", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkLe(mkInt(0), ph[p].(*Term)) })
			}
			add(phiName(p)+" >= -1", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkLe(mkInt(-1), ph[p].(*Term)) })
			if kOf != nil && p != cp {
				add(phiName(p)+" = entry + k", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
					return mkEq(ph[p].(*Term), mkAdd(ev, kOf(ph)))
				})
				add(phiName(p)+" = entry - k", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
					return mkEq(ph[p].(*Term), mkSub(ev, kOf(ph)))
				})
				add(phiName(p)+" <= entry + k", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
					return mkLe(ph[p].(*Term), mkAdd(ev, kOf(ph)))
				})
			}
		}
		if sv, ok := cur[p].(*SliceV); ok && cur[p] != entryPhi[p] && sv.snap == nil {
			es := entryPhi[p].(*SliceV)
			a0 := e.birthTerm(entry.alloc)
			if sv.arr != es.arr {
				add(phiName(p)+": backing array fresh or original", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
					x := ph[p].(*SliceV)
					return mkOr(mkLe(a0, mkRoot(x.arr)), mkAnd(mkEq(x.arr, es.arr), mkEq(x.off, es.off), mkEq(x.cap, es.cap)))
				})
				if fs := f.entryAlloc(); fs.ok && fs != entry.alloc {
					fa := e.birthTerm(fs)
					add(phiName(p)+": backing array local or nil", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
						x := ph[p].(*SliceV)
						return mkOr(mkLe(fa, mkRoot(x.arr)), mkEq(x.cap, mkInt(0)))
					})
				}
			}
			if kOf != nil {
				add(phiName(p)+": len = entry + k", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
					return mkEq(ph[p].(*SliceV).len, mkAdd(es.len, kOf(ph)))
				})
			}
			add(phiName(p)+": len >= entry", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
				return mkLe(es.len, ph[p].(*SliceV).len)
			})
			for _, q := range phis {
				q := q
				if qs, ok := cur[q].(*SliceV); ok && q != p && q.Name() > p.Name() && qs.snap == nil && types.Identical(under(p.Type()), under(q.Type())) {
					add(phiName(p)+" and "+phiName(q)+": distinct backing arrays", true, func(s *State, ph map[*ssa.Phi]Value) *Term {
						x, y := ph[p].(*SliceV), ph[q].(*SliceV)
						return mkOr(mkNe(mkRoot(x.arr), mkRoot(y.arr)), mkEq(x.cap, mkInt(0)), mkEq(y.cap, mkInt(0)))
					})
				}
				if isInteger(q.Type()) && cur[q] != entryPhi[q] && q != cp {
					add(fmt.Sprintf("len(%s) - %s constant", phiName(p), phiName(q)), true, func(s *State, ph map[*ssa.Phi]Value) *Term {
						return mkEq(mkSub(ph[p].(*SliceV).len, ph[q].(*Term)), mkSub(es.len, entryPhi[q].(*Term)))
					})
				}
			}
		}
		if pv, ok := cur[p].(*PtrV); ok && pv.snap == nil && cur[p] != entryPhi[p] {
			add(phiName(p)+" non-nil", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkNe(ph[p].(*PtrV).ref, nilRef) })
			fa := e.birthTerm(f.entryAlloc())
			add(phiName(p)+" allocated here", true, func(s *State, ph map[*ssa.Phi]Value) *Term { return mkLe(fa, mkRoot(ph[p].(*PtrV).ref)) })
		}
	}
	// loop condition bound
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b != l.header {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInteger(cmp.X.Type()) {
			continue
		}
		for side := 0; side < 2; side++ {
			x, y := cmp.X, cmp.Y
			if side == 1 {
				x, y = y, x
			}
			bound, ok := f.outsideVal(l, y, entry)
			if !ok {
				continue
			}
			var ph *ssa.Phi
			off := int64(0)
			if p, ok := x.(*ssa.Phi); ok && p.Block() == l.header {
				ph = p
			} else if bo, ok := x.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if p, ok := bo.X.(*ssa.Phi); ok && p.Block() == l.header {
					if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
						ph = p
						off = k.Int64()
						if bo.Op == token.SUB {
							off = -off
						}
					}
				}
			}
			if ph == nil || cur[ph] == entryPhi[ph] {
				continue
			}
			bt := bound.(*Term)
			nm := phiName(ph)
			for d := int64(0); d <= 1; d++ {
				d := d
				add(fmt.Sprintf("%s%+d <= bound%+d", nm, off, d), true, func(s *State, phv map[*ssa.Phi]Value) *Term {
					return mkLe(mkAdd(phv[ph].(*Term), mkInt(off)), mkAdd(bt, mkInt(d)))
				})
				add(fmt.Sprintf("%s%+d >= bound%+d", nm, off, -d), true, func(s *State, phv map[*ssa.Phi]Value) *Term {
					return mkLe(mkAdd(bt, mkInt(-d)), mkAdd(phv[ph].(*Term), mkInt(off)))
				})
			}
		}
	}
	// heap frames
	fa := f.entryAlloc()
	for _, k := range sortedKeys(havocKeys) {
		k := k
		h0 := e.curHeap(entry, k)
		mk := func(a *Term, except ...*Term) func(s *State, ph map[*ssa.Phi]Value) *Term {
			return func(s *State, ph map[*ssa.Phi]Value) *Term {
				hh := e.curHeap(s, k)
				if hh == h0 {
					return tTrue
				}
				r := mkBoundVar("r", SRef)
				sel := mkSelect(hh, r)
				cs := []*Term{mkLt(mkRoot(r), a)}
				for _, x := range except {
					cs = append(cs, mkNe(mkRoot(r), x))
				}
				return mkForall([]*Term{r}, mkImplies(mkAnd(cs...), mkEq(sel, mkSelect(h0, r))), framePats(hh, r)...)
			}
		}
		add("frame(loop) "+k, true, mk(e.birthTerm(entry.alloc)))
		mkFrom := func(lo, hi *Term) func(s *State, ph map[*ssa.Phi]Value) *Term {
			return func(s *State, ph map[*ssa.Phi]Value) *Term {
				hh := e.curHeap(s, k)
				if hh == h0 {
					return tTrue
				}
				r := mkBoundVar("r", SRef)
				sel := mkSelect(hh, r)
				return mkForall([]*Term{r}, mkImplies(mkAnd(mkLe(lo, mkRoot(r)), mkLt(mkRoot(r), hi)), mkEq(sel, mkSelect(h0, r))), framePats(hh, r)...)
			}
		}
		if cp != nil && prevCur != nil && step != 0 {
			pc, _ := prevCur[cp].(*Term)
			seenB := map[string]bool{}
			for _, w := range sortedTerms(writes["@"+k]) {
				if w.op != OMk || pc == nil || e.loopInvariant(w.args[0], mark, entry.alloc) != 1 {
					continue
				}
				// find pidx(p, cp + c)
				p := w.args[1]
				var wrapFns []func(*Term) *Term
				for p.op == OPFld || p.op == OPIdx {
					q := p
					if p.op == OPIdx {
						if c, ok := mkSub(p.args[1], pc).intVal(); ok && e.oldVars(p.args[0], mark) {
							root, base := w.args[0], p.args[0]
							fns := wrapFns
							at := func(j *Term) *Term {
								x := intern(OPIdx, SPath, "", nil, nil, base, j)
								for i := len(fns) - 1; i >= 0; i-- {
									x = fns[i](x)
								}
								return mkMk(root, x)
							}
							nm := fmt.Sprintf("frame(beyond%+d) %s", c, k)
							if len(fns) > 0 || seenB[nm] {
								nm += fmt.Sprintf(" #%d", len(seenB))
							}
							seenB[nm] = true
							add(nm, true, func(s *State, ph map[*ssa.Phi]Value) *Term {
								hh := e.curHeap(s, k)
								if hh == h0 {
									return tTrue
								}
								j := mkBoundVar("j", SInt)
								sel := mkSelect(hh, at(j))
								pos := mkAdd(ph[cp].(*Term), mkInt(int64(c)))
								g := mkLe(pos, j)
								if step < 0 {
									g = mkLe(j, pos)
								}
								return mkForall([]*Term{j}, mkImplies(g, mkEq(sel, mkSelect(h0, at(j)))), framePats(hh, at(j))...)
							})
						}
						wrapFns = append(wrapFns, func(x *Term) *Term { return intern(OPIdx, SPath, "", nil, nil, x, q.args[1]) })
					} else {
						wrapFns = append(wrapFns, func(x *Term) *Term { return intern(OPFld, SPath, "", nil, nil, x, q.args[1]) })
					}
					p = p.args[0]
				}
			}
		}
		if ws := writes[k]; len(ws) > 0 {
			var except []*Term
			ok := !ws[nil]
			for w := range ws {
				if w == nil {
					continue
				}
				var rec func(w *Term)
				rec = func(w *Term) {
					switch e.loopInvariant(w, mark, entry.alloc) {
					case 0:
						ok = false
					case 1:
						for _, x := range except {
							if x == w {
								return
							}
						}
						except = append(except, w)
					case 3:
						rec(w.args[1])
						rec(w.args[2])
					}
				}
				rec(w)
			}
			sort.Slice(except, func(i, j int) bool { return except[i].id < except[j].id })
			if ok && len(except) > 0 && len(except) <= 6 {
				add("frame(written) "+k, true, mk(e.birthTerm(entry.alloc), except...))
			}
		}
		fa0 := Birth{0, 0, true}
		if fa.ok && fa != entry.alloc {
			if fa != fa0 {
				add("frame(local) "+k, true, mkFrom(e.birthTerm(fa), e.birthTerm(entry.alloc)))
			}
		}
		if entry.alloc != fa0 {
			add("frame(young) "+k, true, mkFrom(e.birthTerm(fa0), e.birthTerm(entry.alloc)))
		}
		if fa.ok && fa != entry.alloc {
			add("frame(function) "+k, true, mk(e.birthTerm(fa)))
		}
		if fa != fa0 && entry.alloc != fa0 {
			add("frame(entry) "+k, true, mk(e.birthTerm(fa0)))
		}
	}
	out = append(out, f.templateCands(l, phis, entryPhi, entry, loc, cp, c0, step)...)
	return out
}

// patterns for a frame axiom: the new heap read at r
func framePats(h *Term, r *Term) [][]*Term {
	if h.op == OVar {
		return [][]*Term{{mkSelect(h, r)}}
	}
	return nil
}

func (f *Frame) entryAlloc() Birth { return f.entry.alloc }

func loopOrdinal(f *Frame, l *Loop) int {
	var hs []*ssa.BasicBlock
	for b := range f.loops {
		hs = append(hs, b)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		if h == l.header {
			return i + 1
		}
	}
	return 0
}

// outsideVal evaluates y if it is defined outside the loop (constants, params, values, len of outside slices).
func (f *Frame) outsideVal(l *Loop, y ssa.Value, st *State) (Value, bool) {
	switch x := y.(type) {
	case *ssa.Const:
		return f.e.constant(x), true
	case *ssa.Parameter, *ssa.FreeVar:
		return f.get(y, st), true
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			if v, ok := f.vals[y]; ok {
				return v, true
			}
		}
		if c, ok := y.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if v, ok := f.outsideVal(l, c.Call.Args[0], st); ok {
					if s, ok := v.(*SliceV); ok {
						return s.len, true
					}
				}
			}
		}
		if b, ok := y.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && isInteger(b.Type()) {
			p, ok1 := f.outsideVal(l, b.X, st)
			q, ok2 := f.outsideVal(l, b.Y, st)
			if ok1 && ok2 {
				if b.Op == token.ADD {
					return mkAdd(p.(*Term), q.(*Term)), true
				}
				return mkSub(p.(*Term), q.(*Term)), true
			}
		}
	}
	return nil, false
}
