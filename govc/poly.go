package main

// Polynomial identity prover: multivariate polynomials over Q with atoms = non-arithmetic terms,
// rewriting by equational hypotheses (lexicographic order) and clearing of denominators.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type mono struct {
	key string
	vs  []int // atom ids, descending
	es  []int
}

type Poly struct {
	m map[string]*pterm
}
type pterm struct {
	mo mono
	c  *big.Rat
}

func monoKey(vs, es []int) string {
	var sb strings.Builder
	for i := range vs {
		sb.WriteString(strconv.Itoa(vs[i]))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(es[i]))
		sb.WriteByte(' ')
	}
	return sb.String()
}
func mkMono(vs, es []int) mono { return mono{monoKey(vs, es), vs, es} }

func newPoly() *Poly { return &Poly{map[string]*pterm{}} }
func polyConst(c *big.Rat) *Poly {
	p := newPoly()
	if c.Sign() != 0 {
		p.m[""] = &pterm{mono{}, c}
	}
	return p
}
func polyAtom(id int) *Poly {
	p := newPoly()
	m := mkMono([]int{id}, []int{1})
	p.m[m.key] = &pterm{m, big.NewRat(1, 1)}
	return p
}
func (p *Poly) addTerm(m mono, c *big.Rat) {
	if t, ok := p.m[m.key]; ok {
		s := new(big.Rat).Add(t.c, c)
		if s.Sign() == 0 {
			delete(p.m, m.key)
		} else {
			p.m[m.key] = &pterm{m, s}
		}
		return
	}
	if c.Sign() != 0 {
		p.m[m.key] = &pterm{m, c}
	}
}
func (p *Poly) add(q *Poly) *Poly {
	r := newPoly()
	for k, t := range p.m {
		r.m[k] = t
	}
	for _, t := range q.m {
		r.addTerm(t.mo, t.c)
	}
	return r
}
func (p *Poly) scale(c *big.Rat) *Poly {
	r := newPoly()
	if c.Sign() == 0 {
		return r
	}
	for k, t := range p.m {
		r.m[k] = &pterm{t.mo, new(big.Rat).Mul(t.c, c)}
	}
	return r
}
func mulMono(a, b mono) mono {
	if len(a.vs) == 0 {
		return b
	}
	if len(b.vs) == 0 {
		return a
	}
	var vs, es []int
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j >= len(b.vs) || i < len(a.vs) && a.vs[i] > b.vs[j]:
			vs = append(vs, a.vs[i])
			es = append(es, a.es[i])
			i++
		case i >= len(a.vs) || b.vs[j] > a.vs[i]:
			vs = append(vs, b.vs[j])
			es = append(es, b.es[j])
			j++
		default:
			vs = append(vs, a.vs[i])
			es = append(es, a.es[i]+b.es[j])
			i++
			j++
		}
	}
	return mkMono(vs, es)
}

type polyLimit struct{}

func (p *Poly) mul(q *Poly) *Poly {
	if len(p.m)*len(q.m) > 400000 {
		panic(polyLimit{})
	}
	r := newPoly()
	for _, a := range p.m {
		for _, b := range q.m {
			r.addTerm(mulMono(a.mo, b.mo), new(big.Rat).Mul(a.c, b.c))
		}
	}
	return r
}
func (p *Poly) isZero() bool { return len(p.m) == 0 }
func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.m) == 0 {
		return new(big.Rat), true
	}
	if len(p.m) == 1 {
		if t, ok := p.m[""]; ok {
			return t.c, true
		}
	}
	return nil, false
}

// lexLess compares monomials: higher atom id first, then exponent.
func lexLess(a, b mono) bool {
	for i := 0; ; i++ {
		if i >= len(a.vs) {
			return i < len(b.vs)
		}
		if i >= len(b.vs) {
			return false
		}
		if a.vs[i] != b.vs[i] {
			return a.vs[i] < b.vs[i]
		}
		if a.es[i] != b.es[i] {
			return a.es[i] < b.es[i]
		}
	}
}
func (p *Poly) lead() *pterm {
	var best *pterm
	for _, t := range p.m {
		if best == nil || lexLess(best.mo, t.mo) {
			best = t
		}
	}
	return best
}
func divMono(a, b mono) (mono, bool) {
	var vs, es []int
	j := 0
	for i := range a.vs {
		if j < len(b.vs) && b.vs[j] == a.vs[i] {
			if b.es[j] > a.es[i] {
				return mono{}, false
			}
			if a.es[i] > b.es[j] {
				vs = append(vs, a.vs[i])
				es = append(es, a.es[i]-b.es[j])
			}
			j++
		} else {
			vs = append(vs, a.vs[i])
			es = append(es, a.es[i])
		}
	}
	if j < len(b.vs) {
		return mono{}, false
	}
	return mkMono(vs, es), true
}
func (p *Poly) key() string {
	ks := make([]string, 0, len(p.m))
	for k, t := range p.m {
		ks = append(ks, k+"*"+t.c.RatString())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

type polyRule struct {
	lead mono
	rest *Poly // lead -> rest
}

type polyCtx struct {
	rules []polyRule
	steps int
	invs  map[int]*Poly // inverse atom id -> polynomial it inverts
	inv   map[string]int
	dens  []*Term
	densP map[int]*Term
	memo  map[*Term]*Poly
	at    map[int]*Term
	apps  map[string]*Term
}

func newPolyCtx() *polyCtx {
	return &polyCtx{invs: map[int]*Poly{}, inv: map[string]int{}, memo: map[*Term]*Poly{}, densP: map[int]*Term{}, at: map[int]*Term{}, apps: map[string]*Term{}}
}

func (c *polyCtx) addRule(p *Poly) {
	p = c.reduce(p)
	l := p.lead()
	if l == nil || len(l.mo.vs) == 0 {
		return
	}
	r := newPoly()
	inv := new(big.Rat).Neg(new(big.Rat).Inv(l.c))
	for k, t := range p.m {
		if k != l.mo.key {
			r.m[k] = &pterm{t.mo, new(big.Rat).Mul(t.c, inv)}
		}
	}
	// keep rules small
	if len(r.m) > 200 {
		return
	}
	c.rules = append(c.rules, polyRule{l.mo, r})
}

func (c *polyCtx) reduce(p *Poly) *Poly {
	if len(c.rules) == 0 {
		return p
	}
	done := newPoly()
	work := p
	for len(work.m) > 0 {
		var hit *pterm
		var rule polyRule
		var q mono
		// take the largest reducible term first
		l := work.lead()
		for _, r := range c.rules {
			if d, ok := divMono(l.mo, r.lead); ok {
				hit, rule, q = l, r, d
				break
			}
		}
		if hit == nil {
			done.addTerm(l.mo, l.c)
			nw := newPoly()
			for k, t := range work.m {
				if k != l.mo.key {
					nw.m[k] = t
				}
			}
			work = nw
			continue
		}
		c.steps++
		if c.steps > 60000 {
			panic(polyLimit{})
		}
		nw := newPoly()
		for k, t := range work.m {
			if k != l.mo.key {
				nw.m[k] = t
			}
		}
		for _, t := range rule.rest.m {
			nw.addTerm(mulMono(q, t.mo), new(big.Rat).Mul(hit.c, t.c))
		}
		work = nw
	}
	return done
}

// of converts a Real/Int term to a polynomial.
func (c *polyCtx) of(t *Term) *Poly {
	if p, ok := c.memo[t]; ok {
		return p
	}
	p := c.of0(t)
	p = c.reduce(p)
	if len(p.m) > 6000 {
		panic(polyLimit{})
	}
	c.memo[t] = p
	return p
}
func (c *polyCtx) of0(t *Term) *Poly {
	switch t.op {
	case ONum:
		return polyConst(t.num)
	case OAdd:
		r := newPoly()
		for _, a := range t.args {
			r = r.add(c.of(a))
		}
		return r
	case OMul:
		return c.of(t.args[0]).mul(c.of(t.args[1]))
	case ODiv:
		d := c.of(t.args[1])
		n := c.of(t.args[0])
		if k, ok := d.isConst(); ok {
			if k.Sign() == 0 {
				break
			}
			return n.scale(new(big.Rat).Inv(k))
		}
		// factor out the leading coefficient so proportional denominators share an inverse
		l := d.lead()
		dn := d.scale(new(big.Rat).Inv(l.c))
		id, ok := c.inv[dn.key()]
		if !ok {
			a := mkApp("inv", SReal, t.args[1])
			id = a.id
			c.inv[dn.key()] = id
			c.invs[id] = dn
			c.densP[id] = t.args[1]
			c.dens = append(c.dens, t.args[1])
			c.at[id] = mkDiv(mkReal(rat(1, 1)), c.term(dn))
			if len(dn.m) == 1 {
				// inv * d = 1 (d is non-zero: side condition)
				rel := polyAtom(id).mul(dn).add(polyConst(rat(-1, 1)))
				c.addRule(rel)
			}
		}
		return n.mul(polyAtom(id)).scale(new(big.Rat).Inv(l.c))
	case OToReal:
		if a := t.args[0]; a.op == OAdd || a.op == OMul {
			r := polyConst(new(big.Rat))
			if a.op == OAdd {
				for _, x := range a.args {
					r = r.add(c.of(mkToReal(x)))
				}
				return r
			}
			return c.of(mkToReal(a.args[0])).mul(c.of(mkToReal(a.args[1])))
		}
	}
	if t.op == OApp && t.sort == SReal && len(t.args) > 0 && t.name != "inv" {
		// congruence modulo polynomial identities of the arguments
		k := t.name
		for _, a := range t.args {
			if a.sort == SReal {
				k += "|" + c.of(a).key()
			} else {
				k += "|#" + strconv.Itoa(a.id)
			}
		}
		if r, ok := c.apps[k]; ok {
			t = r
		} else {
			c.apps[k] = t
		}
	}
	c.at[t.id] = t
	return polyAtom(t.id)
}

// clear removes inverse atoms by multiplying through.
func (c *polyCtx) clear(p *Poly) *Poly {
	for iter := 0; iter < 50; iter++ {
		best := -1
		for _, t := range p.m {
			for _, v := range t.mo.vs {
				if _, ok := c.invs[v]; ok && v > best {
					best = v
				}
			}
		}
		if best < 0 {
			return p
		}
		d := c.invs[best]
		max := 0
		for _, t := range p.m {
			for i, v := range t.mo.vs {
				if v == best && t.mo.es[i] > max {
					max = t.mo.es[i]
				}
			}
		}
		pow := []*Poly{polyConst(big.NewRat(1, 1))}
		for i := 1; i <= max; i++ {
			pow = append(pow, c.reduce(pow[i-1].mul(d)))
		}
		r := newPoly()
		for _, t := range p.m {
			e := 0
			var vs, es []int
			for i, v := range t.mo.vs {
				if v == best {
					e = t.mo.es[i]
				} else {
					vs = append(vs, v)
					es = append(es, t.mo.es[i])
				}
			}
			q := newPoly()
			q.addTerm(mkMono(vs, es), t.c)
			r = r.add(q.mul(pow[max-e]))
		}
		p = c.reduce(r)
	}
	return p
}
