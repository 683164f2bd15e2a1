package main

// Forward symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	pc, t *Term
	note  string
	cand  *Cand
}

type Obl struct {
	name   string
	kind   string // "post", "safety", "pre", "frame", "cand"
	pc     *Term
	goal   *Term
	nfacts int
	cand   *Cand // candidate whose truth this establishes (kind=="cand")
	pos    string
	fn     string
	// results
	status string
	solver string
	secs, last float64
	core   map[*Cand]bool
	out    string
}

type Cand struct {
	name    string
	flag    *Term
	auto    bool
	dropped bool
	why     string
}

type Engine struct {
	lemmasUsed    map[*ssa.Function]bool
	byteStr       map[*Term]byteStr
	strVals       map[*Term][]*Term // the bytes of strings made from short arrays
	ioOwn         map[*Term]bool
	ioPos         token.Pos
	decide        []bool // the case being explored (VDecide)
	decideN       int
	knownLog      []*Term
	known         map[*Term]*Term // terms fixed by preconditions and case distinctions
	prog          *ssa.Program
	facts         []Fact
	obls          []*Obl
	globals       map[*Term][]*Term
	init          map[string]*Term
	keyTyp        map[string]types.Type
	heapVars      []*Term
	allocVars     []*Term
	localArrs []*Term
	wlog          []map[string]map[*Term]bool
	contractBases []Birth
	binders       []*Term
	funcTab       []*FuncV
	spec          int // >0: inside specification code
	contracts     map[*ssa.Function]*ssa.Function
	invs          map[string][]*ssa.Function
	lemma         string
	cands         []*Cand
	tags          map[string]int
	tagTypes      []types.Type
	under         map[string]bool // functions executed (verified bodies)
	applied       map[string]bool // contracts applied
	inlined       map[string]bool
	models        map[string]bool // external models used
	callDepth     int
	stack         []*Frame
	applying      *applyCtx
	verifying     *ssa.Function
	covers        []*Obl
	globalsV      map[*ssa.Global]*PtrV
	steps         int
	initHeap      *Heap
	preAlloc      *Term
	noapply       map[*ssa.Function]bool
	ifaceImpls    map[string][]types.Type
	requires      int
	partial       bool
	trusted       []string
	splits        []*Term
}

type applyCtx struct {
	lemma   *ssa.Function
	res     []Value
	target  *ssa.Function
	pre     *State
	mods    []modSet
	done    bool
	verify  bool
	fn      *ssa.Function
	depth   int
	callPos token.Pos
	specAt  int
}

type State struct {
	heap  *Heap
	alloc Birth
	pc    *Term
	names map[string]nameEnt
}

type nameEnt struct {
	v    Value
	addr bool
	typ  types.Type
	sv   ssa.Value
}

func (s *State) clone() *State {
	n := &State{heap: s.heap.clone(), alloc: s.alloc, pc: s.pc, names: map[string]nameEnt{}}
	for k, v := range s.names {
		n.names[k] = v
	}
	return n
}

func newEngine(prog *ssa.Program) *Engine {
	e := &Engine{prog: prog, globals: map[*Term][]*Term{}, init: map[string]*Term{}, keyTyp: map[string]types.Type{}, contracts: map[*ssa.Function]*ssa.Function{}, invs: map[string][]*ssa.Function{}, tags: map[string]int{}, under: map[string]bool{}, lemmasUsed: map[*ssa.Function]bool{}, byteStr: map[*Term]byteStr{}, strVals: map[*Term][]*Term{}, known: map[*Term]*Term{}, ioOwn: map[*Term]bool{}, applied: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{}, globalsV: map[*ssa.Global]*PtrV{}, noapply: map[*ssa.Function]bool{}, ifaceImpls: map[string][]types.Type{}}
	curEngine = e
	e.newBase()
	return e
}

func (e *Engine) newBase() Birth {
	v := mkFresh("A", SInt)
	v.allocBase = len(e.allocVars) + 1
	e.allocVars = append(e.allocVars, v)
	if len(e.allocVars) == 1 {
		e.global(mkLe(mkInt(1), v), v)
	}
	return Birth{len(e.allocVars) - 1, 0, true}
}

func (e *Engine) global(t, about *Term) {
	if t.isTrue() {
		return
	}
	e.globals[about] = append(e.globals[about], t)
}

func (e *Engine) assume(st *State, t *Term, note string) {
	if t.isTrue() {
		return
	}
	pc := st.pc
	if len(e.binders) > 0 {
		t = mkForall(e.binders, mkImplies(pc, t))
		pc = tTrue
	}
	e.facts = append(e.facts, Fact{pc: pc, t: t, note: note})
}

// learn records what a fact assumed on every path fixes, so that later branches on it are not explored.
func (e *Engine) learn(t *Term) {
	if e.known == nil {
		e.known = map[*Term]*Term{}
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			e.learn(a)
		}
		return
	case OOr, OForall, OExists, OTrue, OFalse:
		return
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.op == ONum || a.op == OStr {
			a, b = b, a
		}
		if (b.op == ONum || b.op == OStr) && a.op != ONum && a.op != OStr {
			if _, ok := e.known[a]; !ok {
				e.known[a] = b
				e.knownLog = append(e.knownLog, a)
			}
			return
		}
	}
	if t.op == OLe && t.args[0].sort == SInt {
		d := linOf(t.args[1])
		linAcc(d, t.args[0], big.NewRat(-1, 1)) // 0 <= d
		if len(d.co) == 1 {
			for x, c := range d.co {
				if c.Cmp(big.NewRat(1, 1)) == 0 {
					setBound(boundLo, x, new(big.Rat).Neg(d.c), 1)
				} else if c.Cmp(big.NewRat(-1, 1)) == 0 {
					setBound(boundHi, x, d.c, -1)
				}
			}
		}
	}
	for _, p := range [2][2]*Term{{t, tTrue}, {mkNot(t), tFalse}} {
		if _, ok := e.known[p[0]]; !ok {
			e.known[p[0]] = p[1]
			e.knownLog = append(e.knownLog, p[0])
		}
	}
}

// bounds of integer terms fixed by preconditions that hold on every path of the specification being executed
var boundLo, boundHi = map[*Term]*big.Rat{}, map[*Term]*big.Rat{}

type boundEntry struct {
	m   map[*Term]*big.Rat
	t   *Term
	old *big.Rat
}

var boundLog []boundEntry

func setBound(m map[*Term]*big.Rat, t *Term, v *big.Rat, dir int) {
	old := m[t]
	if old == nil || v.Cmp(old) == dir {
		boundLog = append(boundLog, boundEntry{m, t, old})
		m[t] = v
	}
}
func resetBounds(n int) {
	for i := len(boundLog) - 1; i >= n; i-- {
		b := boundLog[i]
		if b.old == nil {
			delete(b.m, b.t)
		} else {
			b.m[b.t] = b.old
		}
	}
	boundLog = boundLog[:n]
}

// forget undoes what was learned during a trial run of a loop body.
func (e *Engine) forget(n int) {
	for _, t := range e.knownLog[n:] {
		delete(e.known, t)
	}
	e.knownLog = e.knownLog[:n]
}
func (e *Engine) simp(t *Term) *Term {
	if len(e.known) == 0 || t.isTrue() || t.isFalse() {
		return t
	}
	return subst(t, e.known)
}

func (e *Engine) oblige(st *State, kind, name string, goal *Term, pos token.Pos, cand *Cand) {
	if e.spec > 0 && kind == "safety" {
		return
	}
	if e.partial && kind == "safety" {
		if goal.isFalse() {
			return
		}
		e.assume(st, goal, "partial: "+name)
		return
	}
	if goal.isTrue() && kind == "safety" {
		return
	}
	if st.pc.isFalse() {
		return
	}
	if kind == "safety" && len(e.binders) == 0 && e.simp(goal).isTrue() {
		return // the same check was made, or assumed, before on every path
	}
	if kind == "post" && len(e.binders) == 0 {
		goal = e.simp(goal)
	}
	if len(e.binders) > 0 {
		goal = mkForall(e.binders, mkImplies(st.pc, goal))
	}
	fn := ""
	if len(e.stack) > 0 {
		fn = e.stack[len(e.stack)-1].fn.String()
	}
	parts := []*Term{goal}
	if goal.op == OAnd && cand == nil {
		parts = goal.args
	}
	for i, g := range parts {
		nm := name
		if len(parts) > 1 {
			nm = fmt.Sprintf("%s/%d", name, i+1)
		}
		o := &Obl{name: nm, kind: kind, pc: st.pc, goal: g, nfacts: len(e.facts), cand: cand, fn: fn}
		if pos.IsValid() {
			p := e.prog.Fset.Position(pos)
			o.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
		}
		e.obls = append(e.obls, o)
	}
	// a discharged obligation may be used afterwards
	if kind != "cand" && !goal.isTrue() {
		e.facts = append(e.facts, Fact{pc: st.pc, t: goal, note: "after " + name})
		if kind == "safety" && st.pc.isTrue() && len(e.binders) == 0 {
			e.learn(goal)
		}
	}
}

// ---- frames and loops

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type edge struct {
	pi   int // predecessor index in block.Preds
	st   *State
	phi  []Value             // values of the target's phis on this edge
	live map[ssa.Value]Value // loop-defined values used after an unrolled loop
}

type Frame struct {
	e         *Engine
	fn        *ssa.Function
	vals      map[ssa.Value]Value
	parent    *Frame
	order     []*ssa.BasicBlock
	loops     map[*ssa.BasicBlock]*Loop
	in        map[*ssa.BasicBlock][]edge
	back      map[*ssa.BasicBlock][]edge
	active    map[*ssa.BasicBlock]bool
	rets      []retEdge
	entry     *State
	args      []Value
	apply     *applyCtx
	bind      []Value
	loopK     []*Term // iteration counters of enclosing loops (inner last)
	labels    []string
	cur       *State
	unrolling map[*ssa.BasicBlock][]ssa.Value
}

type retEdge struct {
	st  *State
	val []Value
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var rec func(b *ssa.BasicBlock)
				rec = func(b *ssa.BasicBlock) {
					if l.blocks[b] {
						return
					}
					l.blocks[b] = true
					for _, p := range b.Preds {
						rec(p)
					}
				}
				rec(b)
			}
		}
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] {
				rec(s)
			}
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// callFn executes (inlines) fn on args.
func (e *Engine) callFn(fn *ssa.Function, args, bind []Value, st *State, ap *applyCtx) ([]Value, *State) {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	e.callDepth++
	if e.callDepth > 60 {
		fail("call depth exceeded at %s", fn)
	}
	defer func() { e.callDepth-- }()
	var parent *Frame
	if len(e.stack) > 0 {
		parent = e.stack[len(e.stack)-1]
	}
	for _, f := range e.stack {
		if f.fn == fn && fn.Parent() == nil && e.spec == 0 {
			fail("recursive call of %s needs a contract", fn)
		}
	}
	f := &Frame{e: e, fn: fn, vals: map[ssa.Value]Value{}, parent: parent, loops: findLoops(fn), order: rpo(fn), in: map[*ssa.BasicBlock][]edge{}, back: map[*ssa.BasicBlock][]edge{}, active: map[*ssa.BasicBlock]bool{}, unrolling: map[*ssa.BasicBlock][]ssa.Value{}, args: args, apply: ap, bind: bind}
	if parent != nil {
		f.loopK = parent.loopK
	}
	if ap == nil && e.spec == 0 {
		e.inlined[fn.String()] = true
	}
	e.stack = append(e.stack, f)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.vals[fv] = bind[i]
	}
	s0 := st.clone()
	savedNames := st.names
	s0.names = map[string]nameEnt{}
	for i, p := range fn.Params {
		s0.names[p.Name()] = nameEnt{v: args[i], typ: p.Type(), sv: p}
	}
	for i, fv := range fn.FreeVars {
		s0.names[fv.Name()] = nameEnt{v: bind[i], addr: true, typ: fv.Type().(*types.Pointer).Elem()}
	}
	f.entry = s0.clone()
	f.in[fn.Blocks[0]] = []edge{{pi: -1, st: s0}}
	f.run(f.order, map[*ssa.BasicBlock]bool{})
	if len(f.rets) == 0 {
		return nil, nil
	}
	// join returns
	var sts []*State
	for _, r := range f.rets {
		sts = append(sts, r.st)
	}
	out, conds := e.join(sts)
	nres := fn.Signature.Results().Len()
	res := make([]Value, nres)
	for i := 0; i < nres; i++ {
		v := f.rets[len(f.rets)-1].val[i]
		for j := len(f.rets) - 2; j >= 0; j-- {
			v = e.iteV(conds[j], f.rets[j].val[i], v)
		}
		res[i] = v
	}
	out.names = savedNames
	return res, out
}

func conjs(t *Term) []*Term {
	if t.isTrue() {
		return nil
	}
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// join merges states; conds[i] selects state i given that one of them is taken.
func (e *Engine) join(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{tTrue}
	}
	cnt := map[*Term]int{}
	for _, s := range sts {
		for _, c := range conjs(s.pc) {
			cnt[c]++
		}
	}
	var common []*Term
	for _, c := range conjs(sts[0].pc) {
		if cnt[c] == len(sts) {
			common = append(common, c)
		}
	}
	rests := make([]*Term, len(sts))
	for i, s := range sts {
		var r []*Term
		for _, c := range conjs(s.pc) {
			if cnt[c] != len(sts) {
				r = append(r, c)
			}
		}
		rests[i] = mkAnd(r...)
	}
	out := &State{heap: &Heap{map[string]*Term{}}, names: map[string]nameEnt{}}
	out.pc = mkAnd(append(append([]*Term{}, common...), orFactor(rests))...)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap.m {
			keys[k] = true
		}
	}
	n := len(sts)
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		get := func(s *State) *Term {
			if t, ok := s.heap.m[k]; ok {
				return t
			}
			if t, ok := e.init[k]; ok {
				return t
			}
			return nil
		}
		v := get(sts[n-1])
		for j := n - 2; j >= 0; j-- {
			w := get(sts[j])
			if v == nil || w == nil {
				fail("heap key %s missing at join", k)
			}
			v = mkIte(rests[j], w, v)
		}
		out.heap.m[k] = v
	}
	// allocation counter
	a := sts[0].alloc
	same := true
	for _, s := range sts[1:] {
		if s.alloc.base != a.base {
			same = false
		} else if s.alloc.off > a.off {
			a = s.alloc
		}
	}
	if same {
		out.alloc = a
	} else {
		nb := e.newBase()
		for _, s := range sts {
			e.global(mkLe(e.birthTerm(s.alloc), e.allocVars[nb.base]), e.allocVars[nb.base])
		}
		out.alloc = nb
	}
	for k, v := range sts[0].names {
		ok := true
		for _, s := range sts[1:] {
			w, has := s.names[k]
			if !has || w.addr != v.addr || !sameV(w.v, v.v) {
				ok = false
				break
			}
		}
		if ok {
			out.names[k] = v
		}
	}
	return out, rests
}

// orFactor builds a disjunction, factoring c / not c pairs.
func orFactor(ts []*Term) *Term {
	cur := append([]*Term{}, ts...)
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(cur); i++ {
			for j := i + 1; j < len(cur); j++ {
				if m := mergePair(cur[i], cur[j]); m != nil {
					cur[i] = m
					cur = append(cur[:j:j], cur[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return mkOr(cur...)
}

func mergePair(a, b *Term) *Term {
	ca, cb := conjs(a), conjs(b)
	inB := map[*Term]bool{}
	for _, c := range cb {
		inB[c] = true
	}
	var common, ra []*Term
	for _, c := range ca {
		if inB[c] {
			common = append(common, c)
			delete(inB, c)
		} else {
			ra = append(ra, c)
		}
	}
	if len(inB) == 0 {
		return b
	}
	if len(ra) == 0 {
		return a
	}
	var rb []*Term
	for _, c := range cb {
		if inB[c] {
			rb = append(rb, c)
		}
	}
	if len(ra) == 1 && len(rb) == 1 && mkNot(ra[0]) == rb[0] {
		return mkAnd(common...)
	}
	// (¬x ∨ ..) patterns: a and (not a and r)  ->  a or r
	na := mkNot(mkAnd(ra...))
	nb := mkAnd(rb...)
	if na == nb {
		return mkAnd(common...)
	}
	if len(ra) == 1 && inB[mkNot(ra[0])] {
		var r2 []*Term
		for _, c := range rb {
			if c != mkNot(ra[0]) {
				r2 = append(r2, c)
			}
		}
		return mkAnd(append(common, mkOr(ra[0], mkAnd(r2...)))...)
	}
	inA := map[*Term]bool{}
	for _, c := range ra {
		inA[c] = true
	}
	if len(rb) == 1 && inA[mkNot(rb[0])] {
		var r2 []*Term
		for _, c := range ra {
			if c != mkNot(rb[0]) {
				r2 = append(r2, c)
			}
		}
		return mkAnd(append(common, mkOr(rb[0], mkAnd(r2...)))...)
	}
	return nil
}

func (f *Frame) run(order []*ssa.BasicBlock, done map[*ssa.BasicBlock]bool) {
	for _, b := range order {
		if done[b] {
			continue
		}
		if len(f.in[b]) == 0 {
			done[b] = true
			continue
		}
		if l, ok := f.loops[b]; ok && !f.active[b] {
			f.runLoop(l, done)
			continue
		}
		done[b] = true
		f.runBlock(b)
	}
}

func (f *Frame) runBlock(b *ssa.BasicBlock) {
	ins := f.in[b]
	delete(f.in, b)
	var sts []*State
	for _, x := range ins {
		sts = append(sts, x.st)
	}
	st, conds := f.e.join(sts)
	// phis
	var phis []*ssa.Phi
	var pv []Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		pv = append(pv, f.phiVal(ins, conds, len(pv)))
	}
	f.mergeLive(ins, conds)
	for i, p := range phis {
		f.vals[p] = pv[i]
		if p.Comment != "" {
			st.names[p.Comment] = nameEnt{v: pv[i], typ: p.Type(), sv: p}
		}
	}
	f.execInstrs(b, st, len(phis))
}

func (f *Frame) execInstrs(b *ssa.BasicBlock, st *State, from int) {
	for _, in := range b.Instrs[from:] {
		f.e.steps++
		f.cur = st
		if f.e.steps > 3000000 {
			fail("step budget exceeded")
		}
		switch x := in.(type) {
		case *ssa.If:
			c := f.e.simp(f.get(x.Cond, st).(*Term))
			f.goTo(b, 0, st, c)
			f.goTo(b, 1, st, mkNot(c))
			return
		case *ssa.Jump:
			f.goTo(b, 0, st, tTrue)
			return
		case *ssa.Return:
			if st.pc.isFalse() {
				return
			}
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, f.get(r, st))
			}
			f.rets = append(f.rets, retEdge{st, vs})
			return
		case *ssa.Panic:
			f.e.oblige(st, "safety", "explicit panic unreachable", tFalse, x.Pos(), nil)
			return
		default:
			var dead bool
			st, dead = f.exec(in, st)
			if dead {
				return
			}
		}
	}
}

func (f *Frame) goTo(b *ssa.BasicBlock, si int, st *State, cond *Term) {
	pc := mkAnd(st.pc, cond)
	if pc.isFalse() {
		return
	}
	t := b.Succs[si]
	// which predecessor slot?
	occ := 0
	for k := 0; k < si; k++ {
		if b.Succs[k] == t {
			occ++
		}
	}
	pi := -1
	for i, p := range t.Preds {
		if p == b {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	ns := st.clone()
	ns.pc = pc
	ed := edge{pi: pi, st: ns}
	for _, in := range t.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed.phi = append(ed.phi, f.get(p.Edges[pi], ns))
	}
	for h, lo := range f.unrolling {
		if f.loops[h].blocks[b] && !f.loops[h].blocks[t] {
			if ed.live == nil {
				ed.live = map[ssa.Value]Value{}
			}
			for _, v := range lo {
				if x, ok := f.vals[v]; ok {
					ed.live[v] = x
				}
			}
		}
	}
	if f.active[t] && f.loops[t] != nil && f.loops[t].blocks[b] {
		f.back[t] = append(f.back[t], ed)
		return
	}
	f.in[t] = append(f.in[t], ed)
}

func (f *Frame) phiVal(ins []edge, conds []*Term, k int) Value {
	v := ins[len(ins)-1].phi[k]
	for j := len(ins) - 2; j >= 0; j-- {
		v = f.e.iteV(conds[j], ins[j].phi[k], v)
	}
	return v
}

func (f *Frame) mergeLive(ins []edge, conds []*Term) {
	last := len(ins) - 1
	for v, x := range ins[last].live {
		ok := true
		for j := last - 1; j >= 0; j-- {
			y, has := ins[j].live[v]
			if !has {
				ok = false
				break
			}
			x = f.e.iteV(conds[j], y, x)
		}
		if ok {
			f.vals[v] = x
		}
	}
}

// get evaluates an SSA operand.
func (f *Frame) get(v ssa.Value, st *State) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return f.e.constant(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{builtin: x.Name()}
	case *ssa.Global:
		return f.e.globalPtr(x)
	}
	r, ok := f.vals[v]
	if !ok {
		fail("value %s (%T) of %s not available", v.Name(), v, f.fn)
	}
	return r
}

func (e *Engine) globalPtr(g *ssa.Global) *PtrV {
	if p, ok := e.globalsV[g]; ok {
		return p
	}
	t := g.Type().(*types.Pointer).Elem()
	key := ""
	if !isAgg(t) {
		key = cellKey(t)
	}
	r := mkFresh("global_"+g.Name(), SRef)
	r.birth = Birth{0, 0, true}
	e.global(mkAnd(mkLt(mkInt(0), mkRoot(r)), mkLt(mkRoot(r), e.allocVars[0]), mkEq(mkPath(r), tPNil)), r)
	for _, o := range e.globalsV {
		e.global(mkNe(mkRoot(o.ref), mkRoot(r)), r)
	}
	if e.known == nil {
		e.known = map[*Term]*Term{}
	}
	e.known[mkEq(r, nilRef)] = tFalse
	e.known[mkNe(r, nilRef)] = tTrue
	p := &PtrV{key: key, ref: r}
	e.globalsV[g] = p
	return p
}

func (e *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return mkStr(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			i, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				fail("const %s", c)
			}
			return mkNum(new(big.Rat).SetInt(i), SInt)
		case b.Info()&types.IsFloat != 0:
			v := constant.ToFloat(c.Value)
			r, ok := new(big.Rat).SetString(v.ExactString())
			if !ok {
				fail("const %s", c)
			}
			// rounding is ignored throughout: the rounded literals of pi/180 and 180/pi count as exact reciprocals
			if f, _ := r.Float64(); math.Abs(f*180/math.Pi-1) < 1e-7 {
				d := new(big.Rat).SetFloat64(180 / math.Pi)
				return mkReal(d.Inv(d))
			} else if math.Abs(f*math.Pi/180-1) < 1e-7 {
				return mkReal(new(big.Rat).SetFloat64(180 / math.Pi))
			}
			return mkReal(r)
		}
	}
	// type parameters or interfaces of constants
	fail("constant %s of type %s", c, t)
	return nil
}

func (e *Engine) newObj(st *State) *Term {
	r := mkMk(e.birthTerm(st.alloc), tPNil)
	st.alloc.off++
	return r
}

func (e *Engine) typeTag(t types.Type) int {
	k := tyStr(t)
	if i, ok := e.tags[k]; ok {
		return i
	}
	e.tagTypes = append(e.tagTypes, t)
	e.tags[k] = len(e.tagTypes)
	return len(e.tagTypes)
}

func (f *Frame) nonNil(st *State, p *PtrV, what string, pos token.Pos) {
	if p.snap != nil || f.e.spec > 0 {
		return
	}
	f.e.oblige(st, "safety", "nil dereference: "+what, mkNe(p.ref, nilRef), pos, nil)
}

func ptrElem(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

func (f *Frame) exec(in ssa.Instruction, st *State) (*State, bool) {
	e := f.e
	switch x := in.(type) {
	case *ssa.DebugRef:
		if id, ok := x.Expr.(interface{ String() string }); ok && x.Object() != nil {
			_ = id
			if v, ok := f.tryGet(x.X, st); ok {
				name := x.Object().Name()
				st.names[name] = nameEnt{v: v, addr: x.IsAddr, typ: x.Object().Type(), sv: x.X}
			}
		}
	case *ssa.Alloc:
		t := ptrElem(x.Type())
		var r *Term
		if _, arr := under(t).(*types.Array); arr && !x.Heap {
			// the address of a local array is never stored: no slice in memory shares its storage
			nb := e.newBase()
			a := e.allocVars[nb.base]
			e.global(mkLe(e.birthTerm(st.alloc), a), a)
			r = mkMk(a, tPNil)
			st.alloc = Birth{nb.base, 1, true}
			e.localArrs = append(e.localArrs, a)
		} else {
			r = e.newObj(st)
		}
		key := ""
		if !isAgg(t) {
			key = cellKey(t)
		}
		p := &PtrV{key: key, ref: r}
		e.store(st, p, t, e.zero(t))
		if tyStr(t) == "bytes.Buffer" {
			e.ioFresh(st, r)
		}
		f.vals[x] = p
		if x.Comment != "" && !strings.Contains(x.Comment, " ") {
			st.names[x.Comment] = nameEnt{v: p, addr: true, typ: t, sv: x}
		}
	case *ssa.BinOp:
		f.vals[x] = f.binop(x, st)
	case *ssa.UnOp:
		f.vals[x] = f.unop(x, st)
	case *ssa.ChangeType:
		f.vals[x] = f.get(x.X, st)
	case *ssa.ChangeInterface:
		f.vals[x] = f.get(x.X, st)
	case *ssa.Convert:
		f.vals[x] = f.convert(f.get(x.X, st), x.X.Type(), x.Type(), st)
	case *ssa.Extract:
		f.vals[x] = f.get(x.Tuple, st).(*TupleV).elems[x.Index]
	case *ssa.Field:
		f.vals[x] = f.get(x.X, st).(*Agg).elems[x.Field]
	case *ssa.FieldAddr:
		p := f.get(x.X, st).(*PtrV)
		f.nonNil(st, p, "field access", x.Pos())
		stt := ptrElem(x.X.Type())
		ft := under(stt).(*types.Struct).Field(x.Field).Type()
		if isAgg(ft) {
			f.vals[x] = &PtrV{ref: mkFld(p.ref, x.Field), snap: p.snap}
		} else {
			f.vals[x] = &PtrV{key: fieldKey(stt, x.Field), ref: p.ref, snap: p.snap}
		}
	case *ssa.Index:
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			a := f.get(x.X, st).(*Agg)
			i := f.get(x.Index, st).(*Term)
			f.bounds(st, i, mkInt(u.Len()), x.Pos())
			f.vals[x] = f.indexAgg(a, i)
		default:
			s := f.get(x.X, st).(*Term)
			i := f.get(x.Index, st).(*Term)
			f.bounds(st, i, strLen(s), x.Pos())
			f.vals[x] = e.strAt(s, i)
		}
	case *ssa.IndexAddr:
		i := f.get(x.Index, st).(*Term)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := f.get(x.X, st).(*SliceV)
			f.bounds(st, i, s.len, x.Pos())
			f.vals[x] = elemPtr(s.arr, mkAdd(s.off, i), u.Elem(), s.snap)
		case *types.Pointer:
			p := f.get(x.X, st).(*PtrV)
			f.nonNil(st, p, "array index", x.Pos())
			at := under(u.Elem()).(*types.Array)
			f.bounds(st, i, mkInt(at.Len()), x.Pos())
			f.vals[x] = elemPtr(p.ref, i, at.Elem(), p.snap)
		default:
			fail("IndexAddr on %s", x.X.Type())
		}
	case *ssa.Lookup:
		f.lookup(x, st)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, f.get(b, st))
		}
		f.vals[x] = fv
	case *ssa.MakeInterface:
		f.vals[x] = e.makeIface(f.get(x.X, st), x.X.Type(), st)
	case *ssa.MakeMap:
		f.vals[x] = e.makeMap(st, x.Type())
	case *ssa.MakeSlice:
		n := f.get(x.Len, st).(*Term)
		c := f.get(x.Cap, st).(*Term)
		e.oblige(st, "safety", "makeslice: len out of range", mkAnd(mkLe(mkInt(0), n), mkLe(n, c)), x.Pos(), nil)
		f.vals[x] = e.makeSlice(st, under(x.Type()).(*types.Slice).Elem(), n, c)
	case *ssa.MapUpdate:
		m := f.get(x.Map, st).(*MapV)
		e.oblige(st, "safety", "assignment to entry in nil map", mkNe(m.ref, nilRef), x.Pos(), nil)
		e.mapStore(st, m, under(x.Map.Type()).(*types.Map), f.get(x.Key, st), f.get(x.Value, st))
	case *ssa.Range:
		f.rangeStart(x, st)
	case *ssa.Next:
		f.next(x, st)
	case *ssa.Slice:
		f.vals[x] = f.slice(x, st)
	case *ssa.SliceToArrayPointer:
		s := f.get(x.X, st).(*SliceV)
		f.vals[x] = &PtrV{ref: s.arr, snap: s.snap}
		if !s.off.isInt0() {
			fail("slice to array pointer with offset")
		}
	case *ssa.Store:
		p := f.get(x.Addr, st).(*PtrV)
		f.nonNil(st, p, "store", x.Pos())
		e.store(st, p, ptrElem(x.Addr.Type()), f.get(x.Val, st))
	case *ssa.TypeAssert:
		f.typeAssert(x, st)
	case *ssa.Call:
		return f.call(x, st)
	case *ssa.RunDefers:
	case *ssa.Defer:
		// deferred calls to Close and mutex operations are not modelled
		fail("defer")
	default:
		fail("instruction %T: %s", in, in)
	}
	return st, false
}

func (f *Frame) tryGet(v ssa.Value, st *State) (r Value, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(unsupported); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return f.get(v, st), true
}

func (f *Frame) bounds(st *State, i, n *Term, pos token.Pos) {
	f.e.oblige(st, "safety", "index out of range", mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), pos, nil)
}

func (f *Frame) indexAgg(a *Agg, i *Term) Value {
	if k, ok := i.intVal(); ok {
		if k < 0 || k >= len(a.elems) {
			if len(a.elems) == 0 {
				fail("index of empty array")
			}
			k = 0
		}
		return a.elems[k]
	}
	v := a.elems[len(a.elems)-1]
	for k := len(a.elems) - 2; k >= 0; k-- {
		v = f.e.iteV(mkEq(i, mkInt(int64(k))), a.elems[k], v)
	}
	return v
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wrap reduces an integer to the range of a sized type.
func wrap(t *Term, typ types.Type) *Term {
	lo, hi, ok := rangeOf(typ)
	if !ok {
		return t
	}
	if inRange(t, lo, hi) {
		return t
	}
	size := new(big.Rat).Add(new(big.Rat).Sub(hi, lo), big.NewRat(1, 1))
	l := mkNum(lo, SInt)
	return mkAdd(mkIMod(mkSub(t, l), mkNum(size, SInt)), l)
}

// inRange: syntactic interval check
func inRange(t *Term, lo, hi *big.Rat) bool {
	l, h, ok := interval(t)
	return ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}
func interval(t *Term) (lo, hi *big.Rat, ok bool) {
	if l, h := boundLo[t], boundHi[t]; h != nil {
		if l == nil && t.op == OApp && t.name == "slen" {
			l = new(big.Rat)
		}
		if l != nil {
			return l, h, true
		}
	}
	switch t.op {
	case ONum:
		return t.num, t.num, true
	case OIMod:
		if t.args[1].op == ONum && t.args[1].num.Sign() > 0 {
			return new(big.Rat), new(big.Rat).Sub(t.args[1].num, big.NewRat(1, 1)), true
		}
	case OIDiv:
		if t.args[1].op == ONum && t.args[1].num.Sign() > 0 {
			l, h, ok := interval(t.args[0])
			if ok {
				return new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(l, t.args[1].num))), new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(h, t.args[1].num))), true
			}
		}
	case OIte:
		l1, h1, ok1 := interval(t.args[1])
		l2, h2, ok2 := interval(t.args[2])
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	case OAdd:
		lo, hi = new(big.Rat), new(big.Rat)
		for _, a := range t.args {
			l, h, ok := interval(a)
			if !ok {
				return nil, nil, false
			}
			lo = new(big.Rat).Add(lo, l)
			hi = new(big.Rat).Add(hi, h)
		}
		return lo, hi, true
	case OMul:
		if t.args[0].op == ONum {
			l, h, ok := interval(t.args[1])
			if ok {
				a, b := new(big.Rat).Mul(t.args[0].num, l), new(big.Rat).Mul(t.args[0].num, h)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				return a, b, true
			}
		}
	case OVar, OSelect, OApp, OBound:
		if r, ok := termRange[t]; ok {
			return r[0], r[1], true
		}
		if t.op == OSelect {
			h := t.args[0]
			for h.op == OStore {
				h = h.args[0]
			}
			if h.op == OVar && h.heapKey != "" {
				if typ := curEngine.keyTyp[h.heapKey]; typ != nil {
					if lo, hi, ok := rangeOf(typ); ok && t.args[0] == h {
						return lo, hi, true
					}
				}
			}
		}
	}
	return nil, nil, false
}

var termRange = map[*Term][2]*big.Rat{}
var curEngine *Engine

// nonneg: syntactic check
func nonneg(t *Term) bool {
	switch t.op {
	case ONum:
		return t.num.Sign() >= 0
	case OIMod:
		return t.args[1].op == ONum && t.args[1].num.Sign() > 0
	case OAdd:
		for _, a := range t.args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	case OMul:
		return nonneg(t.args[0]) && nonneg(t.args[1])
	case OIDiv:
		return nonneg(t.args[0]) && t.args[1].op == ONum && t.args[1].num.Sign() > 0
	case OIte:
		return nonneg(t.args[1]) && nonneg(t.args[2])
	case OVar, OApp:
		if strings.Contains(t.name, "#len") || strings.Contains(t.name, "_len!") || t.op == OApp && t.name == "slen" {
			return true
		}
	case OSelect:
		h := t.args[0]
		if h.op == OVar && strings.HasSuffix(h.heapKey, "#len") {
			return true
		}
	}
	l, _, ok := interval(t)
	return ok && l.Sign() >= 0
}

func goDiv(a, b *Term) *Term {
	if b.op == ONum && b.num.Sign() > 0 {
		if nonneg(a) {
			return mkIDiv(a, b)
		}
		return mkIte(mkLe(mkInt(0), a), mkIDiv(a, b), mkNeg(mkIDiv(mkNeg(a), b)))
	}
	pos := mkIte(mkLe(mkInt(0), a), mkIDiv(a, b), mkNeg(mkIDiv(mkNeg(a), b)))
	if nonneg(a) {
		pos = mkIDiv(a, b)
	}
	return pos // SMT div by negative b truncates towards zero for a >= 0
}
func goMod(a, b *Term) *Term {
	if nonneg(a) {
		return mkIMod(a, b)
	}
	return mkIte(mkLe(mkInt(0), a), mkIMod(a, b), mkNeg(mkIMod(mkNeg(a), b)))
}

// bitAnd with constant mask on two's complement integers
func bitAndConst(x *Term, mask *big.Int) *Term {
	if mask.Sign() < 0 {
		// x & ^m = x - (x & m)
		m := new(big.Int).Not(mask)
		return mkSub(x, bitAndConst(x, m))
	}
	r := mkInt(0)
	for i := 0; i < mask.BitLen(); {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < mask.BitLen() && mask.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		p := mkNum(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i))), SInt)
		w := mkNum(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(j-i))), SInt)
		r = mkAdd(r, mkMul(p, mkIMod(mkIDiv(x, p), w)))
		i = j
	}
	return r
}

func (f *Frame) binop(x *ssa.BinOp, st *State) Value {
	e := f.e
	a, b := f.get(x.X, st), f.get(x.Y, st)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return e.equal(a, b, t, st)
	case token.NEQ:
		return mkNot(e.equal(a, b, t, st))
	}
	p, q := a.(*Term), b.(*Term)
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return e.strConcat(p, q)
		case token.LSS:
			return mkApp("slt", SBool, p, q)
		case token.GTR:
			return mkApp("slt", SBool, q, p)
		case token.LEQ:
			return mkNot(mkApp("slt", SBool, q, p))
		case token.GEQ:
			return mkNot(mkApp("slt", SBool, p, q))
		}
	}
	switch x.Op {
	case token.LSS:
		return mkLt(p, q)
	case token.LEQ:
		return mkLe(p, q)
	case token.GTR:
		return mkLt(q, p)
	case token.GEQ:
		return mkLe(q, p)
	}
	if isFloat(t) {
		switch x.Op {
		case token.ADD:
			return mkAdd(p, q)
		case token.SUB:
			return mkSub(p, q)
		case token.MUL:
			return mkMul(p, q)
		case token.QUO:
			return mkDiv(p, q)
		}
	}
	if isInteger(t) {
		switch x.Op {
		case token.ADD:
			return wrap(mkAdd(p, q), t)
		case token.SUB:
			return wrap(mkSub(p, q), t)
		case token.MUL:
			return wrap(mkMul(p, q), t)
		case token.QUO:
			e.oblige(st, "safety", "integer divide by zero", mkNe(q, mkInt(0)), x.Pos(), nil)
			return wrap(goDiv(p, q), t)
		case token.REM:
			e.oblige(st, "safety", "integer divide by zero", mkNe(q, mkInt(0)), x.Pos(), nil)
			return goMod(p, q)
		case token.AND:
			if q.op == ONum {
				return bitAndConst(p, q.num.Num())
			}
			if p.op == ONum {
				return bitAndConst(q, p.num.Num())
			}
			return f.bitUF("bvand", p, q, t)
		case token.OR:
			if q.op == ONum {
				return mkSub(mkAdd(p, q), bitAndConst(p, q.num.Num()))
			}
			if p.op == ONum {
				return mkSub(mkAdd(p, q), bitAndConst(q, p.num.Num()))
			}
			return f.bitUF("bvor", p, q, t)
		case token.XOR:
			if q.op == ONum {
				return mkSub(mkAdd(p, q), mkMul(mkInt(2), bitAndConst(p, q.num.Num())))
			}
			return f.bitUF("bvxor", p, q, t)
		case token.AND_NOT:
			if q.op == ONum {
				return mkSub(p, bitAndConst(p, q.num.Num()))
			}
			return f.bitUF("bvandnot", p, q, t)
		case token.SHL:
			if k, ok := q.intVal(); ok && k < 4096 {
				return wrap(mkMul(mkNum(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))), SInt), p), t)
			}
			return f.bitUF("bvshl", p, q, t)
		case token.SHR:
			if k, ok := q.intVal(); ok && k < 4096 {
				return mkIDiv(p, mkNum(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))), SInt))
			}
			return f.bitUF("bvshr", p, q, t)
		}
	}
	fail("binop %s on %s", x.Op, t)
	return nil
}

func (f *Frame) bitUF(name string, p, q *Term, t types.Type) *Term {
	return mkApp(name, SInt, p, q)
}

func (e *Engine) equal(a, b Value, t types.Type, st *State) *Term {
	switch x := a.(type) {
	case *Term:
		return mkEq(x, b.(*Term))
	case *Agg:
		y := b.(*Agg)
		r := tTrue
		for i := range x.elems {
			var et types.Type
			switch u := under(t).(type) {
			case *types.Struct:
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			r = mkAnd(r, e.equal(x.elems[i], y.elems[i], et, st))
		}
		return r
	case *PtrV:
		y := b.(*PtrV)
		if x.key != y.key && x.ref != nilRef && y.ref != nilRef {
			return tFalse
		}
		return mkEq(x.ref, y.ref)
	case *SliceV: // comparison with nil
		y := b.(*SliceV)
		if y.arr == nilRef {
			return mkEq(mkRoot(x.arr), mkInt(0))
		}
		return mkEq(mkRoot(y.arr), mkInt(0))
	case *MapV:
		return mkEq(x.ref, b.(*MapV).ref)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			fail("interface compared with concrete value")
		}
		if y.tag.isInt0() {
			return mkEq(x.tag, mkInt(0))
		}
		if x.tag.isInt0() {
			return mkEq(y.tag, mkInt(0))
		}
		return mkAnd(mkEq(x.tag, y.tag), mkOr(mkEq(x.ref, y.ref), mkAnd(mkNot(mkApp("ptrtag", SBool, x.tag)), mkApp("boxeq", SBool, x.tag, x.ref, y.ref))))
	case *FuncV:
		y := b.(*FuncV)
		if y.sym != nil && y.sym.isInt0() && y.fn == nil {
			if x.fn != nil || x.builtin != "" {
				return tFalse
			}
			return mkEq(x.sym, mkInt(0))
		}
		if x.sym != nil && x.sym.isInt0() {
			return e.equal(b, a, t, st)
		}
	}
	fail("equality of %T", a)
	return nil
}

func (f *Frame) unop(x *ssa.UnOp, st *State) Value {
	e := f.e
	v := f.get(x.X, st)
	switch x.Op {
	case token.MUL:
		p := v.(*PtrV)
		f.nonNil(st, p, "load", x.Pos())
		if g, ok := x.X.(*ssa.Global); ok {
			if r := e.globalConst(g, st); r != nil {
				return r
			}
		}
		return e.load(st, p, ptrElem(x.X.Type()))
	case token.SUB:
		t := v.(*Term)
		if t.sort == SInt {
			return wrap(mkNeg(t), x.Type())
		}
		return mkNeg(t)
	case token.NOT:
		return mkNot(v.(*Term))
	case token.XOR:
		t := v.(*Term)
		if _, hi, ok := rangeOf(x.Type()); ok && isUnsigned(x.Type()) {
			return mkSub(mkNum(hi, SInt), t)
		}
		return mkSub(mkInt(-1), t)
	}
	fail("unop %s", x.Op)
	return nil
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (f *Frame) convert(v Value, from, to types.Type, st *State) Value {
	e := f.e
	switch {
	case isInteger(from) && isInteger(to):
		return wrap(v.(*Term), to)
	case isInteger(from) && isFloat(to):
		return mkToReal(v.(*Term))
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInteger(to):
		t := v.(*Term)
		if t.op == OToReal {
			return wrap(t.args[0], to)
		}
		z := mkReal(new(big.Rat))
		return wrap(mkIte(mkLe(z, t), mkFloor(t), mkNeg(mkFloor(mkNeg(t)))), to)
	case isString(to) && isString(from):
		return v
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	if sl, ok := under(to).(*types.Slice); ok && isString(from) {
		return e.strToSlice(st, v.(*Term), sl)
	}
	if isString(to) {
		if s, ok := v.(*SliceV); ok {
			return e.sliceToStr(st, s, under(from).(*types.Slice))
		}
		return mkApp("runeToStr", SStr, v.(*Term))
	}
	fail("conversion %s -> %s", from, to)
	return nil
}

func (e *Engine) makeIface(v Value, t types.Type, st *State) Value {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	tag := mkInt(int64(e.typeTag(t)))
	switch x := v.(type) {
	case *PtrV:
		if pt := ptrElem(t); !isAgg(pt) && x.key != cellKey(pt) {
			// interior pointer: remember its key
			return &IfaceV{tag: tag, ref: x.ref, snap: x.snap, ptr: x}
		}
		return &IfaceV{tag: tag, ref: x.ref, snap: x.snap}
	case *MapV:
		return &IfaceV{tag: tag, ref: x.ref, snap: x.snap}
	}
	// box
	r := e.newObj(st)
	key := ""
	if !isAgg(t) {
		key = "box:" + typeKey(t)
		e.storeLeaf(st, key, r, t, v)
	} else {
		e.storeAgg(st, r, t, v)
	}
	return &IfaceV{tag: tag, ref: r}
}

func (e *Engine) unbox(st *State, i *IfaceV, t types.Type) Value {
	if i.ptr != nil {
		return i.ptr
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map:
		return withSnap(e.leafValue([]*Term{i.ref}, t), i.snap)
	}
	h := st.heap
	if i.snap != nil {
		h = i.snap
	}
	if isAgg(t) {
		return e.loadAgg(h, i.ref, t, i.snap)
	}
	return e.loadLeaf(h, "box:"+typeKey(t), i.ref, t, i.snap)
}

func (f *Frame) typeAssert(x *ssa.TypeAssert, st *State) {
	e := f.e
	i := f.get(x.X, st).(*IfaceV)
	var ok *Term
	var val Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		src := e.ifaceImpls[tyStr(x.X.Type())]
		if _, conc := i.tag.intVal(); len(src) > 0 && !conc && i.tag.op != OIte {
			// closed world: narrow the dynamic type
			e.models["closed world: "+tyStr(x.X.Type())] = true
			tag := mkInt(0)
			var oks, all []*Term
			for _, t := range src {
				c := mkEq(i.tag, mkInt(int64(e.typeTag(t))))
				all = append(all, c)
				if types.Implements(t, it) {
					tag = mkIte(c, mkInt(int64(e.typeTag(t))), tag)
					oks = append(oks, c)
				}
			}
			e.assume(st, mkImplies(mkNe(i.tag, mkInt(0)), mkOr(all...)), "closed world")
			ok = mkOr(oks...)
			val = &IfaceV{tag: tag, ref: i.ref, snap: i.snap}
		} else {
			ok = e.implements(i.tag, x.AssertedType, it)
			val = i
		}
	} else {
		ok = mkEq(i.tag, mkInt(int64(e.typeTag(x.AssertedType))))
		val = e.unbox(st, i, x.AssertedType)
	}
	if x.CommaOk {
		z := e.zero(x.AssertedType)
		f.vals[x] = &TupleV{[]Value{e.iteV(ok, val, z), ok}}
		return
	}
	e.oblige(st, "safety", "type assertion", ok, x.Pos(), nil)
	f.vals[x] = val
}

func (e *Engine) implements(tag *Term, t types.Type, it *types.Interface) *Term {
	if k, ok := tag.intVal(); ok {
		if k == 0 {
			return tFalse
		}
		return mkBool(types.Implements(e.tagTypes[k-1], it))
	}
	if tag.op == OIte {
		return mkIte(tag.args[0], e.implements(tag.args[1], t, it), e.implements(tag.args[2], t, it))
	}
	n := "impl_" + sanitize(typeKey(t))
	r := mkApp(n, SBool, tag)
	e.global(mkNot(mkApp(n, SBool, mkInt(0))), r)
	for k, tt := range e.tagTypes {
		e.global(mkEq(mkApp(n, SBool, mkInt(int64(k+1))), mkBool(types.Implements(tt, it))), r)
	}
	return r
}

// ---- slices

func (e *Engine) makeSlice(st *State, et types.Type, n, c *Term) *SliceV {
	r := e.newObj(st)
	s := &SliceV{arr: r, off: mkInt(0), len: n, cap: c}
	if k, ok := c.intVal(); ok && k <= 16 {
		for i := 0; i < k; i++ {
			e.store(st, elemPtr(r, mkInt(int64(i)), et, nil), et, e.zero(et))
		}
		return s
	}
	// fresh memory: contents are constrained, not written
	i := mkBoundVar("i", SInt)
	for _, ls := range leafSites(et, elemKeyIf(et)) {
		sel := mkSelect(e.heapTerm(st.heap, ls.key, ls.sort, ls.typ), ls.at(mkIdx(r, i)))
		e.assume(st, mkForall([]*Term{i}, mkEq(sel, zeroOfSort(ls.sort)), []*Term{sel}), "make: zeroed")
	}
	return s
}

func (f *Frame) slice(x *ssa.Slice, st *State) Value {
	e := f.e
	v := f.get(x.X, st)
	lo := mkInt(0)
	if x.Low != nil {
		lo = f.get(x.Low, st).(*Term)
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := v.(*SliceV)
		hi := s.len
		if x.High != nil {
			hi = f.get(x.High, st).(*Term)
		}
		cp := s.cap
		if x.Max != nil {
			cp = f.get(x.Max, st).(*Term)
		}
		e.oblige(st, "safety", "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, s.cap)), x.Pos(), nil)
		return &SliceV{arr: s.arr, off: mkAdd(s.off, lo), len: mkSub(hi, lo), cap: mkSub(cp, lo), snap: s.snap}
	case *types.Pointer:
		p := v.(*PtrV)
		at := under(u.Elem()).(*types.Array)
		hi := mkInt(at.Len())
		if x.High != nil {
			hi = f.get(x.High, st).(*Term)
		}
		e.oblige(st, "safety", "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkInt(at.Len()))), x.Pos(), nil)
		return &SliceV{arr: p.ref, off: lo, len: mkSub(hi, lo), cap: mkSub(mkInt(at.Len()), lo), snap: p.snap}
	case *types.Basic:
		s := v.(*Term)
		hi := strLen(s)
		if x.High != nil {
			hi = f.get(x.High, st).(*Term)
		}
		e.oblige(st, "safety", "string slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, strLen(s))), x.Pos(), nil)
		return e.substr(s, lo, hi)
	}
	fail("slice of %s", x.X.Type())
	return nil
}

// appendV implements append(s, t...)
func (e *Engine) appendV(st *State, s, t *SliceV, et types.Type) *SliceV {
	if t.snap != nil || s.snap != nil {
		fail("append of old-state slice")
	}
	if t.len.isInt0() {
		return s
	}
	newLen := mkAdd(s.len, t.len)
	inplace := mkLe(newLen, s.cap)
	if e.spec > 0 {
		inplace = tFalse
	}
	nr := e.newObj(st)
	res := &SliceV{arr: mkIte(inplace, s.arr, nr), off: mkIte(inplace, s.off, mkInt(0)), len: newLen}
	if inplace.isTrue() {
		res.cap = s.cap
	} else {
		nc := e.freshLeaf("cap#cap", SInt, "#cap", nil, st.alloc)
		e.wf(mkLe(newLen, nc), nc)
		res.cap = mkIte(inplace, s.cap, nc)
	}
	sites := leafSites(et, elemKeyIf(et))
	// values to append, read before any write
	tn, constT := t.len.intVal()
	constT = constT && tn <= 64
	var tvals [][]*Term
	if constT {
		for j := 0; j < tn; j++ {
			var row []*Term
			for _, ls := range sites {
				row = append(row, mkSelect(e.heapTerm(st.heap, ls.key, ls.sort, ls.typ), ls.at(mkIdx(t.arr, mkAdd(t.off, mkInt(int64(j)))))))
			}
			tvals = append(tvals, row)
		}
	}
	pre := map[string]*Term{}
	for _, ls := range sites {
		pre[ls.key] = e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
	}
	// copy of the old elements into the new array (only when reallocated)
	if !inplace.isTrue() && !s.len.isInt0() {
		if sn, ok := s.len.intVal(); ok && sn <= 16 && inplace.isFalse() {
			for j := 0; j < sn; j++ {
				for _, ls := range sites {
					h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
					st.heap.m[ls.key] = mkStore(h, ls.at(mkIdx(nr, mkInt(int64(j)))), mkSelect(pre[ls.key], ls.at(mkIdx(s.arr, mkAdd(s.off, mkInt(int64(j)))))))
				}
			}
		} else {
			i := mkBoundVar("i", SInt)
			for _, ls := range sites {
				h := pre[ls.key]
				dst := mkSelect(h, ls.at(mkIdx(nr, i)))
				src := mkSelect(h, ls.at(mkIdx(s.arr, mkAdd(s.off, i))))
				e.assume(st, mkOr(inplace, mkForall([]*Term{i}, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, s.len)), mkEq(dst, src)), []*Term{dst})), "append: old elements")
			}
		}
	}
	if constT {
		for j := 0; j < tn; j++ {
			for k, ls := range sites {
				h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
				e.logWrite(ls.key, mkRoot(res.arr))
				st.heap.m[ls.key] = mkStore(h, ls.at(mkIdx(res.arr, mkAdd(res.off, mkAdd(s.len, mkInt(int64(j)))))), tvals[j][k])
			}
		}
		return res
	}
	e.copyRange(st, res.arr, mkAdd(res.off, s.len), t.arr, t.off, t.len, sites, pre)
	return res
}

// copyRange copies n elements; source values are taken from pre.
func (e *Engine) copyRange(st *State, darr, doff, sarr, soff, n *Term, sites []leafSite, pre map[string]*Term) {
	for _, ls := range sites {
		e.logWrite(ls.key, mkRoot(darr))
	}
	if k, ok := n.intVal(); ok && k <= 64 {
		for j := 0; j < k; j++ {
			for _, ls := range sites {
				h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
				st.heap.m[ls.key] = mkStore(h, ls.at(mkIdx(darr, mkAdd(doff, mkInt(int64(j))))), mkSelect(pre[ls.key], ls.at(mkIdx(sarr, mkAdd(soff, mkInt(int64(j)))))))
			}
		}
		return
	}
	seen := map[string]bool{}
	for _, ls := range sites {
		if seen[ls.key] {
			fail("bulk copy of elements with repeated leaf key %s", ls.key)
		}
		seen[ls.key] = true
		h := e.heapTerm(st.heap, ls.key, ls.sort, ls.typ)
		nh := e.newHeapVar("Hc_"+ls.key, h.sort, ls.key, st.alloc, ls.typ)
		i := mkBoundVar("i", SInt)
		dst := mkSelect(nh, ls.at(mkIdx(darr, i)))
		src := mkSelect(pre[ls.key], ls.at(mkIdx(sarr, mkAdd(soff, mkSub(i, doff)))))
		in := mkAnd(mkLe(doff, i), mkLt(i, mkAdd(doff, n)))
		e.assume(st, mkForall([]*Term{i}, mkImplies(in, mkEq(dst, src)), []*Term{dst}), "copy: range")
		// frame
		r := mkBoundVar("r", SRef)
		sel := mkSelect(nh, r)
		j := mkBoundVar("j", SInt)
		hit := mkAnd(mkEq(r, ls.at(mkIdx(darr, j))), mkAnd(mkLe(doff, j), mkLt(j, mkAdd(doff, n))))
		_ = hit
		e.assume(st, mkForall([]*Term{r}, mkOr(mkEq(sel, mkSelect(h, r)), inRangeOf(r, ls, darr, doff, n)), []*Term{sel}), "copy: frame")
		st.heap.m[ls.key] = nh
	}
}

// inRangeOf: r is the leaf address (for site ls) of some element k of array arr with off <= k < off+n.
func inRangeOf(r *Term, ls leafSite, arr, off, n *Term) *Term {
	// ls.at(idx(arr,k)) = mk(root arr, wrap(pidx(path arr, k))); strip the constant suffix of the path
	k := mkBoundVar("k", SInt)
	probe := ls.at(mkIdx(arr, k))
	p := mkPath(probe)
	cond := mkEq(mkRoot(r), mkRoot(arr))
	q := mkPath(r)
	// walk the path constructors of probe down to pidx(_, k)
	for {
		if p.op == OPFld {
			cond = mkAnd(cond, mkApp("is-pfld", SBool, q), mkEq(mkApp("pf_i", SInt, q), p.args[1]))
			p = p.args[0]
			q = mkApp("pf_p", SPath, q)
			continue
		}
		if p.op == OPIdx && p.args[1] == k {
			cond = mkAnd(cond, mkApp("is-pidx", SBool, q), mkEq(mkApp("pi_p", SPath, q), p.args[0]),
				mkLe(off, mkApp("pi_i", SInt, q)), mkLt(mkApp("pi_i", SInt, q), mkAdd(off, n)))
			return cond
		}
		if p.op == OPIdx {
			cond = mkAnd(cond, mkApp("is-pidx", SBool, q), mkEq(mkApp("pi_i", SInt, q), p.args[1]))
			p = p.args[0]
			q = mkApp("pi_p", SPath, q)
			continue
		}
		fail("inRangeOf: unexpected path %s", p)
	}
}

func (e *Engine) copyV(st *State, d, s *SliceV, et types.Type) *Term {
	n := mkIte(mkLe(d.len, s.len), d.len, s.len)
	if d.len == s.len {
		n = d.len
	}
	sites := leafSites(et, elemKeyIf(et))
	pre := map[string]*Term{}
	h := st.heap
	if s.snap != nil {
		h = s.snap
	}
	for _, ls := range sites {
		pre[ls.key] = e.heapTerm(h, ls.key, ls.sort, ls.typ)
	}
	e.copyRange(st, d.arr, d.off, s.arr, s.off, n, sites, pre)
	return n
}
