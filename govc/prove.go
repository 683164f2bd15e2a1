package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type Budget struct {
	quick time.Duration // first attempt
	full  time.Duration // later attempts
	cand  bool
}

// goalParts skolemises a goal and strips implications.
func goalParts(g *Term) (hyps []*Term, goal *Term) {
	for {
		switch g.op {
		case OForall:
			m := map[*Term]*Term{}
			n := len(g.args) - 1
			for _, v := range g.args[:n] {
				m[v] = mkFresh("sk_"+strings.SplitN(v.name, "!", 2)[0], v.sort)
			}
			g = subst(g.args[n], m)
			continue
		case OOr:
			// pick one disjunct as goal, the others negated become hypotheses
			var pick *Term
			score := func(t *Term) int {
				switch t.op {
				case OForall:
					return 5
				case OAnd:
					return 4
				case OEq:
					return 3
				case OLt, OLe:
					return 2
				case ONot:
					return 0
				}
				return 1
			}
			for _, a := range g.args {
				if pick == nil || score(a) > score(pick) {
					pick = a
				}
			}
			for _, a := range g.args {
				if a != pick {
					hyps = append(hyps, mkNot(a))
				}
			}
			g = pick
			continue
		}
		return hyps, g
	}
}

type prob struct {
	hyps  []*Term // unconditional
	cand  []*Cand // candidates per cfacts
	cfact []*Term
	goal  *Term
}

func (e *Engine) problem(o *Obl) *prob {
	gh, goal := goalParts(o.goal)
	p := &prob{}
	lits := map[*Term]*Term{}
	var pcs []*Term
	addLit := func(c *Term) {
		lits[c] = tTrue
		lits[mkNot(c)] = tFalse
	}
	for _, c := range conjs(o.pc) {
		pcs = append(pcs, c)
		addLit(c)
	}
	for _, h := range gh {
		for _, c := range conjs(h) {
			pcs = append(pcs, c)
			addLit(c)
		}
	}
	p.hyps = append(p.hyps, pcs...)
	simp := func(t *Term) *Term {
		if len(lits) == 0 {
			return t
		}
		return substLits(t, lits)
	}
	for _, f := range e.facts[:o.nfacts] {
		if f.cand != nil && f.cand.dropped {
			continue
		}
		pc := simp(f.pc)
		if pc.isFalse() {
			continue
		}
		t := mkImplies(pc, f.t)
		if f.cand != nil {
			p.cand = append(p.cand, f.cand)
			p.cfact = append(p.cfact, t)
		} else {
			p.hyps = append(p.hyps, t)
		}
	}
	p.goal = simp(goal)
	return p
}

// substLits replaces known literals (not inside themselves) with memo per call.
func substLits(t *Term, lits map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		if r, ok := lits[t]; ok {
			return r
		}
		return t
	}
	return subst(t, lits)
}

func isRealRel(t *Term) bool {
	return (t.op == OEq || t.op == OLt || t.op == OLe) && t.args[0].sort == SReal
}

// proveObl tries to discharge an obligation.
func (e *Engine) proveObl(o *Obl, b Budget) {
	t0 := time.Now()
	defer func() {
		o.last = time.Since(t0).Seconds()
		o.secs += o.last
		if x := recover(); x != nil {
			if _, ok := x.(polyLimit); ok {
				o.status = "unknown"
				o.out = "polynomial limit"
				return
			}
			panic(x)
		}
	}()
	p := e.problem(o)
	if p.goal.isTrue() {
		o.status, o.solver, o.core = "proved", "simplifier", map[*Cand]bool{}
		return
	}
	if os.Getenv("GOVC_GOALS") != "" {
		g := p.goal.String()
		if len(g) > 400 {
			g = g[:400]
		}
		fmt.Println("goal:", o.kind, o.name, o.pos, g)
	}
	if p.goal.op == OAnd {
		// prove conjuncts separately
		core := map[*Cand]bool{}
		solv := map[string]bool{}
		for _, g := range p.goal.args {
			ok, s, c, out := e.proveGoal(p, g, b)
			if !ok {
				o.status, o.out = "unknown", out
				return
			}
			solv[s] = true
			for k := range c {
				core[k] = true
			}
		}
		o.status, o.core = "proved", core
		var ss []string
		for s := range solv {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		o.solver = strings.Join(ss, "+")
		return
	}
	ok, s, c, out := e.proveGoal(p, p.goal, b)
	if ok {
		o.status, o.solver, o.core = "proved", s, c
	} else {
		o.status, o.out = "unknown", out
	}
}

func (e *Engine) proveGoal(p *prob, goal *Term, b Budget) (bool, string, map[*Cand]bool, string) {
	if goal.op == OForall || goal.op == OOr || goal.op == OAnd {
		gh, g := goalParts(goal)
		q := &prob{hyps: append(append([]*Term{}, p.hyps...), gh...), cand: p.cand, cfact: p.cfact, goal: g}
		if g.op == OAnd {
			core := map[*Cand]bool{}
			for _, x := range g.args {
				ok, _, c, out := e.proveGoal(q, x, b)
				if !ok {
					return false, "", nil, out
				}
				for k := range c {
					core[k] = true
				}
			}
			return true, "split", core, ""
		}
		if g != goal {
			return e.proveGoal(q, g, b)
		}
	}
	if goal.op == OEq && goal.args[0].sort == SBool {
		// split an equivalence
		a, bb := goal.args[0], goal.args[1]
		core := map[*Cand]bool{}
		all := true
		for _, pr := range [][2]*Term{{a, bb}, {bb, a}} {
			q := &prob{hyps: append(append([]*Term{}, p.hyps...), pr[0]), cand: p.cand, cfact: p.cfact, goal: pr[1]}
			ok, _, c, _ := e.proveGoal(q, pr[1], b)
			if !ok {
				all = false
				break
			}
			for k := range c {
				core[k] = true
			}
		}
		if all {
			return true, "split", core, ""
		}
	}
	real := isRealRel(goal) || goal.op == ONot && isRealRel(goal.args[0])
	if real {
		ok, how := e.proveReal(p, goal, b)
		if ok {
			core := map[*Cand]bool{}
			for _, c := range p.cand {
				core[c] = true
			}
			return true, how, core, ""
		}
	}
	return e.proveSMT(p, goal, b)
}

func (e *Engine) proveSMT(p *prob, goal *Term, b Budget) (bool, string, map[*Cand]bool, string) {
	hyps := append([]*Term{}, p.hyps...)
	hyps = append(hyps, mkNot(goal))
	var flags []*Term
	byFlag := map[string]*Cand{}
	for i, c := range p.cand {
		hyps = append(hyps, mkImplies(c.flag, p.cfact[i]))
		if byFlag[c.flag.name] == nil {
			flags = append(flags, c.flag)
			byFlag[c.flag.name] = c
		}
	}
	hyps = e.withGlobals(hyps)
	if ok, nm, cs := e.proveReduced(hyps, goal, flags, byFlag, b); ok {
		return true, nm, cs, ""
	}
	q := &Query{hyps: hyps, flags: flags}
	text := q.text("")
	type att struct {
		s string
		t time.Duration
	}
	atts := []att{{"z3n-ematch", b.quick}, {"cvc5", b.quick}, {"z3n", b.full}, {"z3o-ematch", b.full}, {"cvc5", b.full}}
	if b.full == 0 {
		atts = atts[:2]
		if b.quick <= 2*time.Second {
			atts = atts[:1]
		}
	}
	var log []string
	if dumpDir != "" {
		smtMu.Lock()
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dumpDir, dumpN), []byte("; "+strings.ReplaceAll(goal.String(), "\n", " ")+"\n"+text), 0644)
		log = append(log, fmt.Sprintf("dump q%d", dumpN))
		smtMu.Unlock()
	}
	for _, a := range atts {
		r, core, d := runSolver(a.s, text, a.t)
		smtMu.Lock()
		solverSecs[a.s] += d
		smtMu.Unlock()
		if r == "unsat" {
			cs := map[*Cand]bool{}
			for k := range core {
				if c := byFlag[k]; c != nil {
					cs[c] = true
				}
			}
			return true, solvers[a.s].name, cs, ""
		}
		log = append(log, fmt.Sprintf("%s: %s (%.1fs)", solvers[a.s].name, r, d))
		if r == "sat" {
			break
		}
		if b.cand && r == "unknown" && a.s == "z3n-ematch" && d < 0.3*a.t.Seconds() {
			break // saturated: not worth more effort for a candidate invariant
		}
	}
	return false, "", nil, strings.Join(log, "; ") + "\ngoal: " + goal.String()
}

// proveReduced tries a weaker but much easier query: quantified hypotheses about unrelated parts of
// the heap are left out and nonlinear arithmetic is replaced by unknowns (both sound for unsat).
func (e *Engine) proveReduced(hyps []*Term, goal *Term, flags []*Term, byFlag map[string]*Cand, b Budget) (bool, string, map[*Cand]bool) {
	keys := map[string]bool{}
	occurs([]*Term{goal}, map[*Term]bool{}, func(t *Term) {
		if t.heapKey != "" {
			keys[t.heapKey] = true
		}
	})
	qm := map[*Term]bool{}
	var hs []*Term
	for _, h := range hyps {
		if hasQuant(h, qm) && len(keys) > 0 {
			any, hit := false, false
			occurs([]*Term{h}, map[*Term]bool{}, func(t *Term) {
				if t.heapKey != "" {
					any = true
					if keys[t.heapKey] {
						hit = true
					}
				}
			})
			if any && !hit {
				continue
			}
		}
		hs = append(hs, h)
	}
	ab := newAbstractor()
	for i := range hs {
		hs[i] = ab.abs(hs[i])
	}
	// first without the quantified facts about element values (frames and reachability only)
	if len(keys) > 0 {
		var fs []*Term
		vm := map[*Term]bool{}
		for _, h := range hs {
			if !valueQuant(h, vm) {
				fs = append(fs, h)
			}
		}
		if len(fs) < len(hs) {
			q := &Query{hyps: append(fs, ab.extra...), flags: flags}
			t := b.quick
			if t > 1500*time.Millisecond {
				t = 1500 * time.Millisecond
			}
			r, core, d := runSolver("z3n-ematch", q.text(""), t)
			smtMu.Lock()
			solverSecs["z3n-ematch"] += d
			smtMu.Unlock()
			if r == "unsat" {
				cs := map[*Cand]bool{}
				for k := range core {
					if c := byFlag[k]; c != nil {
						cs[c] = true
					}
				}
				return true, solvers["z3n-ematch"].name, cs
			}
		}
	}
	hs = append(hs, ab.extra...)
	q := &Query{hyps: hs, flags: flags}
	text := q.text("")
	t := b.quick
	if t > 3*time.Second {
		t = 3 * time.Second
	}
	for _, s := range []string{"z3n-ematch", "cvc5"} {
		r, core, d := runSolver(s, text, t)
		smtMu.Lock()
		solverSecs[s] += d
		smtMu.Unlock()
		if r == "unsat" {
			cs := map[*Cand]bool{}
			for k := range core {
				if c := byFlag[k]; c != nil {
					cs[c] = true
				}
			}
			return true, solvers[s].name, cs
		}
		if r == "sat" || b.cand {
			break
		}
	}
	return false, "", nil
}

// valueQuant reports whether t contains a quantifier that does not range over references.
func valueQuant(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	if t.op == OForall {
		r = true
		for _, v := range t.args[:len(t.args)-1] {
			if v.sort == SRef {
				r = false
			}
		}
	} else {
		for _, a := range t.args {
			if valueQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

type abstractor struct {
	memo  map[*Term]*Term
	extra []*Term
	comm  bool
}

func newAbstractor() *abstractor { return &abstractor{memo: map[*Term]*Term{}} }

func (a *abstractor) abs(t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := a.memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == OMul && t.sort == SReal && t.args[0].op != ONum && t.args[1].op != ONum:
		r = mkApp("umul", SReal, a.abs(t.args[0]), a.abs(t.args[1]))
		if !a.comm {
			a.comm = true
			x, y := mkBoundVar("x", SReal), mkBoundVar("y", SReal)
			u := mkApp("umul", SReal, x, y)
			a.extra = append(a.extra, mkForall([]*Term{x, y}, mkEq(u, mkApp("umul", SReal, y, x)), []*Term{u}))
		}
	case t.op == ODiv && t.sort == SReal && t.args[1].op != ONum:
		r = mkApp("udiv", SReal, a.abs(t.args[0]), a.abs(t.args[1]))
	}
	if r == nil && len(t.fb) == 0 {
		switch {
		case t.op == OMul && t.args[0].op != ONum && t.args[1].op != ONum:
			r = mkVarNamed(fmt.Sprintf("nl!%d", t.id), t.sort)
		case t.op == OIMod && t.args[1].op != ONum:
			r = mkVarNamed(fmt.Sprintf("nl!%d", t.id), t.sort)
			x, y := a.abs(t.args[0]), a.abs(t.args[1])
			z := mkInt(0)
			a.extra = append(a.extra, mkImplies(mkLt(z, y), mkAnd(mkLe(z, r), mkLt(r, y),
				mkImplies(mkAnd(mkLe(z, x), mkLt(x, y)), mkEq(r, x)),
				mkImplies(mkAnd(mkLe(y, x), mkLt(x, mkAdd(y, y))), mkEq(r, mkSub(x, y))))))
		}
	}
	if r == nil {
		na := make([]*Term, len(t.args))
		for i, x := range t.args {
			na[i] = a.abs(x)
		}
		r = rebuild(t, na, a.abs)
	}
	a.memo[t] = r
	return r
}

var smtMu sync.Mutex
var solverSecs = map[string]float64{}

// ---- real arithmetic goals

func (e *Engine) proveReal(p *prob, goal *Term, b Budget) (bool, string) {
	hyps := append([]*Term{}, p.hyps...)
	for i, c := range p.cand {
		if !c.dropped {
			hyps = append(hyps, p.cfact[i])
		}
	}
	// keep quantifier-free, arithmetic hypotheses
	memo := map[*Term]bool{}
	var qf []*Term
	for _, h := range hyps {
		for _, c := range conjs(h) {
			if !hasQuant(c, memo) {
				qf = append(qf, c)
			}
		}
	}
	return e.realSplit(qf, goal, b, 0)
}

// realAtoms walks the arithmetic structure of t.
func realAtoms(t *Term, seen map[*Term]bool, visit func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OAdd, OMul, ODiv, OEq, OLt, OLe, ONot, OAnd, OOr:
		for _, a := range t.args {
			realAtoms(a, seen, visit)
		}
	case ONum:
	case OApp:
		visit(t)
		for _, a := range t.args {
			if a.sort == SReal {
				realAtoms(a, seen, visit)
			}
		}
	default:
		visit(t)
	}
}

func (e *Engine) realSplit(hyps []*Term, goal *Term, b Budget, depth int) (bool, string) {
	if goal.isTrue() {
		return true, "simplifier"
	}
	for _, h := range hyps {
		if h.isFalse() {
			return true, "simplifier"
		}
	}
	if nh, ng, ok := e.normLeaf(hyps, goal); ok {
		hyps, goal = nh, ng
		if goal.isTrue() {
			return true, "poly"
		}
	}
	// find an ite to split on
	var cond *Term
	realAtoms(goal, map[*Term]bool{}, func(t *Term) {
		if t.op == OIte && cond == nil {
			c := t.args[0]
			for c.op == OAnd || c.op == OOr || c.op == ONot {
				c = c.args[0]
			}
			cond = c
		}
	})
	if cond != nil && depth < 14 {
		// does one side contradict / is it implied by literals?
		for _, v := range []bool{true, false} {
			m := map[*Term]*Term{cond: mkBool(v), mkNot(cond): mkBool(!v)}
			g := subst(goal, m)
			var hs []*Term
			bad := false
			for _, h := range hyps {
				for _, nh := range conjs(subst(h, m)) {
					if nh.isFalse() {
						bad = true
					}
					if !nh.isTrue() {
						hs = append(hs, nh)
					}
				}
			}
			if bad {
				continue
			}
			lit := cond
			if !v {
				lit = mkNot(cond)
			}
			if isRealRel(cond) {
				if ok, _ := e.arithCached(hs, mkNot(lit), Budget{700 * time.Millisecond, 0, false}); ok {
					continue
				}
			}
			hs = append(hs, lit)
			if ok, _ := e.realSplit(hs, g, b, depth+1); !ok {
				return false, ""
			}
		}
		return true, "poly(cases)"
	}
	if goal.op == OEq {
		if e.polyEq(hyps, goal, b) {
			return true, "poly"
		}
	}
	if e.polyContra(hyps) {
		return true, "poly(contradiction)"
	}
	if e.arithLin(hyps, goal, 2*time.Second) {
		return true, "z3-5.3 (linear over monomials)"
	}
	ok, how := e.arith(hyps, goal, b)
	if !ok && os.Getenv("GOVC_LEAF") != "" {
		fmt.Fprintf(os.Stderr, "LEAF depth=%d goal=%s\n", depth, goal.Full())
		for _, h := range hyps {
			if isRealRel(h) || h.op == ONot && isRealRel(h.args[0]) {
				fmt.Fprintf(os.Stderr, "   H %s\n", h.Full())
			}
		}
	}
	return ok, how
}

// polyContra looks for a disequality or strict inequality whose sides are polynomially equal.
func (e *Engine) polyContra(hyps []*Term) bool {
	for _, h := range hyps {
		var a, b *Term
		switch {
		case h.op == ONot && h.args[0].op == OEq && h.args[0].args[0].sort == SReal:
			a, b = h.args[0].args[0], h.args[0].args[1]
		case h.op == OLt && h.args[0].sort == SReal:
			a, b = h.args[0], h.args[1]
		default:
			continue
		}
		if hasIte(a) || hasIte(b) {
			continue
		}
		bad := func() (r bool) {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(polyLimit); is {
						return
					}
					panic(x)
				}
			}()
			c := newPolyCtx()
			d := mkSub(a, b)
			e.polyRules(c, hyps, d)
			p := c.reduce(c.of(d))
			if len(c.dens) > 0 {
				return false
			}
			k, isC := p.isConst()
			return isC && (k.Sign() == 0 || h.op == OLt && k.Sign() > 0)
		}()
		if bad {
			return true
		}
	}
	return false
}

func (e *Engine) polyEq(hyps []*Term, goal *Term, b Budget) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyLimit); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	diff := mkSub(goal.args[0], goal.args[1])
	var dens []*Term
	try := func(useHyps bool) bool {
		c := newPolyCtx()
		if useHyps {
			e.polyRules(c, hyps, diff)
		}
		p := c.reduce(c.clear(c.of(diff)))
		dens = c.dens
		return p.isZero()
	}
	if !try(false) && !try(true) {
		return false
	}
	for _, d := range dens {
		if e.nonZero(hyps, d) {
			continue
		}
		if ok, _ := e.arithCached(hyps, mkNe(d, mkReal(new(big.Rat))), b); !ok {
			return false
		}
	}
	return true
}

// polyRules orients relevant equalities.
func (e *Engine) polyRules(c *polyCtx, hyps []*Term, diff *Term) {
	atoms := map[*Term]bool{}
	realAtoms(diff, map[*Term]bool{}, func(t *Term) { atoms[t] = true })
	var eqs []*Term
	for _, h := range hyps {
		if h.op == OEq && h.args[0].sort == SReal {
			eqs = append(eqs, h)
		}
	}
	// atoms reachable through the equations, so that half angles hidden behind a definition are seen
	reach := map[*Term]bool{}
	for a := range atoms {
		reach[a] = true
	}
	for n := -1; n != len(reach); {
		n = len(reach)
		for _, q := range eqs {
			var as []*Term
			rel := false
			realAtoms(q, map[*Term]bool{}, func(t *Term) {
				as = append(as, t)
				rel = rel || reach[t]
			})
			if rel {
				for _, a := range as {
					reach[a] = true
				}
			}
		}
	}
	// trigonometric and root relations
	var list []*Term
	for a := range reach {
		if atoms[a] || a.op == OApp && (a.name == "sin" || a.name == "cos") {
			list = append(list, a)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	z := mkReal(new(big.Rat))
	for _, a := range list {
		if a.op == OApp && a.name == "sqrt" {
			if ok, _ := e.arithCached(hyps, mkLe(z, a.args[0]), Budget{2 * time.Second, 0, false}); ok {
				eqs = append(eqs, mkEq(mkMul(a, a), a.args[0]))
			}
		}
		if a.op == OApp && (a.name == "sin" || a.name == "cos") {
			s, cc := mkApp("sin", SReal, a.args[0]), mkApp("cos", SReal, a.args[0])
			eqs = append(eqs, mkEq(mkAdd(mkMul(s, s), mkMul(cc, cc)), mkReal(rat(1, 1))))
			// double angle: expand sin(2h), cos(2h) when h occurs
			h := mkMul(mkReal(rat(1, 2)), a.args[0])
			sh, ch := mkApp("sin", SReal, h), mkApp("cos", SReal, h)
			if reach[sh] || reach[ch] {
				eqs = append(eqs, mkEq(s, mkMul(mkReal(rat(2, 1)), mkMul(sh, ch))))
				eqs = append(eqs, mkEq(cc, mkSub(mkReal(rat(1, 1)), mkMul(mkReal(rat(2, 1)), mkMul(sh, sh)))))
				eqs = append(eqs, mkEq(mkAdd(mkMul(sh, sh), mkMul(ch, ch)), mkReal(rat(1, 1))))
			}
		}
	}
	seen := map[*Term]bool{}
	used := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for _, q := range eqs {
			if used[q] {
				continue
			}
			rel := false
			realAtoms(q, map[*Term]bool{}, func(t *Term) {
				if atoms[t] {
					rel = true
				}
			})
			if !rel {
				continue
			}
			used[q] = true
			if seen[q] {
				continue
			}
			seen[q] = true
			c.addRuleSafe(mkSub(q.args[0], q.args[1]))
			realAtoms(q, map[*Term]bool{}, func(t *Term) {
				if !atoms[t] {
					atoms[t] = true
					changed = true
				}
			})
		}
	}
	c.memo = map[*Term]*Poly{}
}

func (c *polyCtx) addRuleSafe(t *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyLimit); is {
				return
			}
			panic(x)
		}
	}()
	n := len(c.dens)
	p := c.of(t)
	if len(c.dens) > n {
		return // equalities with divisions are not oriented
	}
	c.addRule(p)
	c.memo = map[*Term]*Poly{}
}

var arithMemo sync.Map

func (e *Engine) arithCached(hyps []*Term, goal *Term, b Budget) (bool, string) {
	for _, h := range hyps {
		if h == goal {
			return true, "hyp"
		}
	}
	var sb strings.Builder
	for _, h := range hyps {
		fmt.Fprintf(&sb, "%d,", h.id)
	}
	fmt.Fprintf(&sb, "|%d", goal.id)
	k := sb.String()
	if v, ok := arithMemo.Load(k); ok {
		return v.(bool), "cache"
	}
	if e.arithLin(hyps, goal, 2*time.Second) {
		arithMemo.Store(k, true)
		return true, "z3-5.3 (linear over monomials)"
	}
	ok, s := e.arith(hyps, goal, b)
	arithMemo.Store(k, ok)
	return ok, s
}

// arith: pure nonlinear real arithmetic query, non-arithmetic atoms abstracted.
func (e *Engine) arith(hyps []*Term, goal *Term, b Budget) (bool, string) {
	ab := map[*Term]*Term{}
	var abs func(t *Term) *Term
	memo := map[*Term]*Term{}
	abs = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case ONum, OTrue, OFalse:
			r = t
		case OVar:
			if t.sort == SReal || t.sort == SBool {
				r = t
			}
		case OAdd, OMul, ODiv, OLt, OLe, OEq:
			if t.args[0].sort == SReal || t.op == OEq && t.args[0].sort == SBool {
				na := make([]*Term, len(t.args))
				for i, a := range t.args {
					na[i] = abs(a)
				}
				r = rebuild(t, na, nil)
			}
		case ONot, OAnd, OOr:
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = abs(a)
			}
			r = rebuild(t, na, nil)
		case OIte:
			if t.sort == SReal || t.sort == SBool {
				r = mkIte(abs(t.args[0]), abs(t.args[1]), abs(t.args[2]))
			}
		}
		if r == nil {
			v, ok := ab[t]
			if !ok {
				v = mkVarNamed(fmt.Sprintf("ab!%d", t.id), t.sort)
				ab[t] = v
			}
			r = v
		}
		memo[t] = r
		return r
	}
	// close under axioms on the goal's atoms
	all := append([]*Term{}, hyps...)
	seen := map[*Term]bool{}
	queue := append([]*Term{goal}, hyps...)
	for len(queue) > 0 {
		var next []*Term
		occurs(queue, seen, func(t *Term) {
			if t.sort == SReal {
				next = append(next, autoAxioms(t)...)
			}
		})
		all = append(all, next...)
		queue = next
	}
	// relevance: real variables connected to the goal
	type hinfo struct {
		t  *Term
		vs []*Term
	}
	var hs []hinfo
	real := func(t *Term) []*Term {
		var out []*Term
		s := map[*Term]bool{}
		occurs([]*Term{t}, s, func(x *Term) {
			if x.op == OVar && x.sort == SReal {
				out = append(out, x)
			}
		})
		return out
	}
	for _, h := range all {
		a := abs(h)
		if a.isTrue() {
			continue
		}
		vs := real(a)
		if len(vs) > 0 {
			hs = append(hs, hinfo{a, vs})
		}
	}
	g := abs(goal)
	inSet := map[*Term]bool{}
	for _, v := range real(g) {
		inSet[v] = true
	}
	var sel []*Term
	usedH := make([]bool, len(hs))
	for changed := true; changed; {
		changed = false
		for i, h := range hs {
			if usedH[i] {
				continue
			}
			hit := false
			for _, v := range h.vs {
				if inSet[v] {
					hit = true
				}
			}
			if hit {
				usedH[i] = true
				changed = true
				sel = append(sel, h.t)
				for _, v := range h.vs {
					inSet[v] = true
				}
			}
		}
	}
	q := &Query{hyps: append(sel, mkNot(g))}
	text := q.text("")
	if dumpDir != "" {
		smtMu.Lock()
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/a%d.smt2", dumpDir, dumpN), []byte("; "+strings.ReplaceAll(goal.String(), "\n", " ")+"\n"+text), 0644)
		smtMu.Unlock()
	}
	tries := []string{"z3n", "cvc5"}
	if b.full > 0 {
		tries = append(tries, "z3o")
	}
	for i, s := range tries {
		t := b.quick
		if i > 0 && b.full > 0 {
			t = b.full
		}
		r, _, d := runSolver(s, text, t)
		smtMu.Lock()
		solverSecs[s] += d
		smtMu.Unlock()
		if d > 0.5 && os.Getenv("GOVC_LEAF") != "" {
			fmt.Fprintf(os.Stderr, "SLOW %s %s %.1f %s\n", s, r, d, clip(goal.Full(), 500))
		}
		if r == "unsat" {
			return true, solvers[s].name + " (NRA)"
		}
		if r == "sat" {
			return false, ""
		}
	}
	return false, ""
}
