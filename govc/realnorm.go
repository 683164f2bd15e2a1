package main

// Normalisation of real terms: arguments of square roots and trigonometric functions are put in
// polynomial normal form modulo the equational hypotheses, perfect squares are unrooted, and
// compositions such as sin(atan2(y,x)) are unfolded (side conditions are proved or become
// non-zero-denominator obligations).

import (
	"math/big"
	"sort"
	"time"
)

func (c *polyCtx) term(p *Poly) *Term {
	var ts []*pterm
	for _, t := range p.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return lexLess(ts[j].mo, ts[i].mo) })
	r := mkReal(new(big.Rat))
	for _, t := range ts {
		x := mkReal(t.c)
		for i, v := range t.mo.vs {
			a := c.at[v]
			if a == nil {
				panic(polyLimit{})
			}
			for k := 0; k < t.mo.es[i]; k++ {
				x = mkMul(x, a)
			}
		}
		r = mkAdd(r, x)
	}
	return r
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	q := new(big.Rat).SetFrac(n, d)
	if new(big.Rat).Mul(q, q).Cmp(r) == 0 {
		return q, true
	}
	return nil, false
}

// squareRoot of a one-term polynomial that is a perfect square.
func (c *polyCtx) squareRoot(p *Poly) (*Term, bool) {
	if p.isZero() {
		return mkReal(new(big.Rat)), true
	}
	if len(p.m) != 1 {
		return nil, false
	}
	for _, t := range p.m {
		q, ok := ratSqrt(t.c)
		if !ok {
			return nil, false
		}
		x := mkReal(q)
		for i, v := range t.mo.vs {
			if t.mo.es[i]%2 != 0 || c.at[v] == nil {
				return nil, false
			}
			for k := 0; k < t.mo.es[i]/2; k++ {
				x = mkMul(x, c.at[v])
			}
		}
		return x, true
	}
	return nil, false
}

type normer struct {
	e     *Engine
	c     *polyCtx
	hyps  []*Term
	memo  map[*Term]*Term
	limit bool
}

func (n *normer) norm(t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := n.memo[t]; ok {
		return r
	}
	r := t
	switch {
	case t.op == OApp && t.sort == SReal:
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = n.norm(a)
		}
		r = n.app(t.name, na, t)
	case t.op == OAdd || t.op == OMul || t.op == ODiv || t.op == OEq || t.op == OLt || t.op == OLe || t.op == ONot || t.op == OAnd || t.op == OOr || t.op == OIte:
		if len(t.fb) == 0 {
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = n.norm(a)
			}
			r = rebuild(t, na, nil)
		}
	}
	n.memo[t] = r
	return r
}

func hasIte(t *Term) bool {
	found := false
	realAtoms(t, map[*Term]bool{}, func(x *Term) {
		if x.op == OIte {
			found = true
		}
	})
	return found
}

func (n *normer) canon(t *Term) (*Term, *Poly) {
	if hasIte(t) {
		return t, nil
	}
	p := n.c.reduce(n.c.of(t))
	if len(p.m) > 60 {
		return t, nil
	}
	return n.c.term(p), p
}

func (n *normer) app(name string, a []*Term, orig *Term) *Term {
	one := mkReal(rat(1, 1))
	switch name {
	case "sqrt":
		x, p := n.canon(a[0])
		if p != nil {
			if q, ok := n.c.squareRoot(p); ok {
				return mkIte(mkLe(mkReal(new(big.Rat)), q), q, mkMul(mkReal(rat(-1, 1)), q))
			}
		}
		return mkApp("sqrt", SReal, x)
	case "sin", "cos":
		if in := a[0]; in.op == OApp && in.name == "atan2" {
			y, x := in.args[0], in.args[1]
			if n.nonzero(x, y) {
				r := n.app("sqrt", []*Term{mkAdd(mkMul(x, x), mkMul(y, y))}, nil)
				if name == "sin" {
					return mkDiv(y, r)
				}
				return mkDiv(x, r)
			}
		}
		if in := a[0]; in.op == OApp && in.name == "asin" {
			x := in.args[0]
			b := Budget{2 * time.Second, 0, false}
			if ok, _ := n.e.arithCached(n.hyps, mkLe(x, one), b); ok {
				if ok, _ := n.e.arithCached(n.hyps, mkLe(mkReal(rat(-1, 1)), x), b); ok {
					if name == "sin" {
						return x
					}
					return n.app("sqrt", []*Term{mkSub(one, mkMul(x, x))}, nil)
				}
			}
		}
	case "asin", "acos", "atan2":
		for i := range a {
			a[i], _ = n.canon(a[i])
		}
	}
	return mkApp(name, SReal, a...)
}

func (n *normer) nonzero(x, y *Term) bool {
	p := n.c.reduce(n.c.of(mkAdd(mkMul(x, x), mkMul(y, y))))
	if len(p.m) > 60 {
		return false
	}
	ok, _ := n.e.arithCached(n.hyps, mkLt(mkReal(new(big.Rat)), n.c.term(p)), Budget{3 * time.Second, 0, false})
	return ok
}

// normLeaf normalises a goal and its real hypotheses.
func (e *Engine) normLeaf(hyps []*Term, goal *Term) (nh []*Term, ng *Term, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyLimit); is {
				nh, ng, ok = hyps, goal, false
				return
			}
			panic(x)
		}
	}()
	trig := false
	occurs(append([]*Term{goal}, hyps...), map[*Term]bool{}, func(t *Term) {
		if t.op == OApp && t.sort == SReal && (t.name == "sqrt" || t.name == "sin" || t.name == "cos") {
			trig = true
		}
	})
	if !trig {
		return hyps, goal, true
	}
	c := newPolyCtx()
	e.polyRules(c, hyps, goal)
	n := &normer{e: e, c: c, hyps: hyps, memo: map[*Term]*Term{}}
	ng = n.norm(goal)
	for _, h := range hyps {
		x := h
		if isRealRel(h) || h.op == ONot && isRealRel(h.args[0]) {
			func() {
				defer func() {
					if y := recover(); y != nil {
						if _, is := y.(polyLimit); is {
							return
						}
						panic(y)
					}
				}()
				x = n.norm(h)
			}()
		}
		nh = append(nh, conjs(x)...)
	}
	return nh, ng, true
}

// arithLin proves a real (in)equality by linear arithmetic over monomials in polynomial normal form,
// with pairwise products of inequality hypotheses and non-negativity of even monomials added.
func (e *Engine) arithLin(hyps []*Term, goal *Term, budget time.Duration) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyLimit); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	if hasIte(goal) {
		return false
	}
	c := newPolyCtx()
	g := goal
	if g.op == ONot {
		g = g.args[0]
	}
	if !isRealRel(g) {
		return false
	}
	e.polyRules(c, hyps, mkSub(g.args[0], g.args[1]))
	atoms := map[int]bool{}
	note := func(p *Poly) {
		for _, t := range p.m {
			for _, v := range t.mo.vs {
				atoms[v] = true
			}
		}
	}
	gp := c.reduce(c.of(mkSub(g.args[1], g.args[0])))
	if len(c.dens) > 0 || len(gp.m) > 200 {
		return false
	}
	note(gp)
	type ineq struct {
		p      *Poly
		strict bool
	}
	var ins []ineq
	for _, h := range hyps {
		if !(h.op == OLt || h.op == OLe) || h.args[0].sort != SReal || hasIte(h) {
			continue
		}
		n := len(c.dens)
		p := c.reduce(c.of(mkSub(h.args[1], h.args[0])))
		if len(c.dens) > n {
			continue
		}
		if len(p.m) > 0 && len(p.m) < 60 {
			ins = append(ins, ineq{p, h.op == OLt})
		}
	}
	// relevance by shared atoms
	var rel []ineq
	used := make([]bool, len(ins))
	for ch := true; ch; {
		ch = false
		for i, q := range ins {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range q.p.m {
				for _, v := range t.mo.vs {
					if atoms[v] {
						hit = true
					}
				}
			}
			if hit {
				used[i] = true
				ch = true
				note(q.p)
				rel = append(rel, q)
			}
		}
	}
	if len(rel) > 24 {
		rel = rel[:24]
	}
	base := len(rel)
	if base <= 12 {
		for i := 0; i < base; i++ {
			for j := i; j < base; j++ {
				if len(rel[i].p.m)*len(rel[j].p.m) <= 400 {
					rel = append(rel, ineq{c.reduce(rel[i].p.mul(rel[j].p)), rel[i].strict && rel[j].strict})
				}
			}
		}
	}
	z := mkReal(new(big.Rat))
	var hs []*Term
	even := map[string]bool{}
	lin := func(p *Poly) *Term {
		var ks []string
		for k := range p.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r := z
		for _, k := range ks {
			t := p.m[k]
			if k == "" {
				r = mkAdd(r, mkReal(t.c))
				continue
			}
			v := mkVarNamed("mono!"+k, SReal)
			all := true
			for _, x := range t.mo.es {
				if x%2 != 0 {
					all = false
				}
			}
			if all && !even[k] {
				even[k] = true
				hs = append(hs, mkLe(z, v))
			}
			r = mkAdd(r, mkMul(mkReal(t.c), v))
		}
		return r
	}
	for _, q := range rel {
		if q.strict {
			hs = append(hs, mkLt(z, lin(q.p)))
		} else {
			hs = append(hs, mkLe(z, lin(q.p)))
		}
	}
	gl := lin(gp)
	var gt *Term
	switch g.op {
	case OEq:
		gt = mkEq(gl, z)
	case OLt:
		gt = mkLt(z, gl)
	case OLe:
		gt = mkLe(z, gl)
	}
	if goal.op == ONot {
		gt = mkNot(gt)
	}
	hs = append(hs, mkNot(gt))
	q := &Query{hyps: hs}
	r, _, d := runSolver("z3n", q.text(""), budget)
	smtMu.Lock()
	solverSecs["z3n"] += d
	smtMu.Unlock()
	return r == "unsat"
}

// nonZero proves d != 0 factor by factor.
func (e *Engine) nonZero(hyps []*Term, d *Term) bool {
	z := mkReal(new(big.Rat))
	switch {
	case d.op == ONum:
		return d.num.Sign() != 0
	case d.op == OMul:
		return e.nonZero(hyps, d.args[0]) && e.nonZero(hyps, d.args[1])
	case d.op == OApp && d.name == "sqrt":
		ok, _ := e.arithCached(hyps, mkLt(z, d.args[0]), Budget{2 * time.Second, 0, false})
		return ok
	}
	for _, h := range hyps {
		if h == mkNe(d, z) || h == mkLt(z, d) || h == mkLt(d, z) {
			return true
		}
	}
	return e.arithLin(hyps, mkLt(z, d), time.Second) || e.arithLin(hyps, mkLt(d, z), time.Second)
}
