package main

// Hash-consed first-order terms with simplifying constructors.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Op uint8

const (
	OVar Op = iota
	OBound
	ONum
	OTrue
	OFalse
	OStr // string literal
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLt
	OLe
	OAdd
	OMul
	ODiv  // real division
	OIDiv // SMT integer div
	OIMod // SMT integer mod
	OToReal
	OFloor // to_int
	OSelect
	OStore
	OApp
	OForall
	OExists
	OMk
	ORoot
	OPath
	OPNil
	OPFld
	OPIdx
	OConstArr
)

const (
	SBool = "Bool"
	SInt  = "Int"
	SReal = "Real"
	SRef  = "Ref"
	SPath = "Path"
	SStr  = "Str"
)

// Birth is an allocation time (base index, offset), ordered lexicographically.
type Birth struct {
	base, off int
	ok        bool
}

func (a Birth) le(b Birth) bool {
	if !a.ok || !b.ok {
		return false
	}
	return a.base < b.base || (a.base == b.base && a.off <= b.off)
}
func maxBirth(a, b Birth) Birth {
	if !a.ok {
		return a
	}
	if !b.ok {
		return b
	}
	if a.le(b) {
		return b
	}
	return a
}

type Term struct {
	op        Op
	sort      string
	args      []*Term
	name      string
	num       *big.Rat
	id        int
	fb        []*Term   // free bound variables
	pats      [][]*Term // quantifier patterns
	birth     Birth     // for variables of sort Ref / heap arrays
	allocBase int       // for allocation base variables: index+1
	heapKey   string    // for heap base variables
	frBase    *Term     // heap variables that differ from frBase only below root frRoot
	frRoot    *Term
	birthMemo *Birth
}

type termTable struct {
	mu   sync.Mutex
	m    map[string]*Term
	next int
	nvar int
}

var TT = &termTable{m: map[string]*Term{}}

func intern(op Op, srt string, name string, num *big.Rat, pats [][]*Term, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(srt)
	sb.WriteByte('|')
	sb.WriteString(name)
	if num != nil {
		sb.WriteByte('#')
		sb.WriteString(num.RatString())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range pats {
		sb.WriteByte(';')
		for _, a := range p {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(' ')
		}
	}
	k := sb.String()
	TT.mu.Lock()
	defer TT.mu.Unlock()
	if t, ok := TT.m[k]; ok {
		return t
	}
	t := &Term{op: op, sort: srt, name: name, num: num, args: args, pats: pats, id: TT.next}
	TT.next++
	// free bound vars
	switch op {
	case OBound:
		t.fb = []*Term{t}
	case OForall, OExists:
		n := len(args) - 1
		for _, v := range args[n].fb {
			bound := false
			for _, b := range args[:n] {
				if b == v {
					bound = true
				}
			}
			if !bound {
				t.fb = append(t.fb, v)
			}
		}
	default:
		for _, a := range args {
			for _, v := range a.fb {
				dup := false
				for _, w := range t.fb {
					if w == v {
						dup = true
					}
				}
				if !dup {
					t.fb = append(t.fb[:len(t.fb):len(t.fb)], v)
				}
			}
		}
	}
	TT.m[k] = t
	return t
}

var tTrue = intern(OTrue, SBool, "", nil, nil)
var tFalse = intern(OFalse, SBool, "", nil, nil)
var tPNil = intern(OPNil, SPath, "", nil, nil)
var nilRef = intern(OMk, SRef, "", nil, nil, mkInt(0), tPNil)

func mkNum(r *big.Rat, srt string) *Term { return intern(ONum, srt, "", r, nil) }
func mkInt(i int64) *Term                { return intern(ONum, SInt, "", new(big.Rat).SetInt64(i), nil) }
func mkReal(r *big.Rat) *Term            { return intern(ONum, SReal, "", r, nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return intern(OStr, SStr, s, nil, nil) }

var varNames = map[string]int{}
var varMu sync.Mutex

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func freshName(base string) string {
	base = sanitize(base)
	varMu.Lock()
	defer varMu.Unlock()
	n := varNames[base]
	varNames[base] = n + 1
	return fmt.Sprintf("%s!%d", base, n)
}
func mkVarNamed(name, srt string) *Term { return intern(OVar, srt, name, nil, nil) }
func mkFresh(base, srt string) *Term    { return intern(OVar, srt, freshName(base), nil, nil) }
func mkBoundVar(base, srt string) *Term { return intern(OBound, srt, freshName(base), nil, nil) }

func (t *Term) isNum() bool   { return t.op == ONum }
func (t *Term) isInt0() bool  { return t.op == ONum && t.num.Sign() == 0 }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) intVal() (int, bool) {
	if t.op == ONum && t.num.IsInt() && t.num.Num().IsInt64() {
		return int(t.num.Num().Int64()), true
	}
	return 0, false
}

// ---- linear integer forms

type linForm struct {
	co map[*Term]*big.Rat
	c  *big.Rat
}

func linOf(t *Term) *linForm {
	l := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
	linAcc(l, t, big.NewRat(1, 1))
	return l
}
func linAcc(l *linForm, t *Term, k *big.Rat) {
	switch t.op {
	case ONum:
		l.c = new(big.Rat).Add(l.c, new(big.Rat).Mul(k, t.num))
		return
	case OAdd:
		for _, a := range t.args {
			linAcc(l, a, k)
		}
		return
	case OMul:
		if t.args[0].op == ONum {
			linAcc(l, t.args[1], new(big.Rat).Mul(k, t.args[0].num))
			return
		}
	}
	v, ok := l.co[t]
	if !ok {
		v = new(big.Rat)
	}
	v = new(big.Rat).Add(v, k)
	if v.Sign() == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = v
	}
}
func (l *linForm) term() *Term {
	ks := make([]*Term, 0, len(l.co))
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, k := range ks {
		c := l.co[k]
		if c.Cmp(big.NewRat(1, 1)) == 0 {
			parts = append(parts, k)
		} else {
			parts = append(parts, intern(OMul, SInt, "", nil, nil, mkNum(c, SInt), k))
		}
	}
	if l.c.Sign() != 0 {
		parts = append(parts, mkNum(l.c, SInt))
	}
	if len(parts) == 0 {
		return mkInt(0)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return intern(OAdd, SInt, "", nil, nil, parts...)
}

func mkAdd(a, b *Term) *Term {
	if a.sort == SInt {
		if a.op == ONum && b.op == ONum {
			return mkNum(new(big.Rat).Add(a.num, b.num), SInt)
		}
		if a.isInt0() {
			return b
		}
		if b.isInt0() {
			return a
		}
		l := linOf(a)
		linAcc(l, b, big.NewRat(1, 1))
		return l.term()
	}
	if a.op == ONum && b.op == ONum {
		return mkReal(new(big.Rat).Add(a.num, b.num))
	}
	if a.op == ONum && a.num.Sign() == 0 {
		return b
	}
	if b.op == ONum && b.num.Sign() == 0 {
		return a
	}
	return intern(OAdd, SReal, "", nil, nil, a, b)
}
func mkNeg(a *Term) *Term {
	return mkMul(mkNum(big.NewRat(-1, 1), a.sort), a)
}
func mkSub(a, b *Term) *Term {
	if a.sort == SInt {
		l := linOf(a)
		linAcc(l, b, big.NewRat(-1, 1))
		return l.term()
	}
	if a == b {
		return mkReal(new(big.Rat))
	}
	return mkAdd(a, mkNeg(b))
}
func mkMul(a, b *Term) *Term {
	if b.op == ONum && a.op != ONum {
		a, b = b, a
	}
	if a.op == ONum {
		if b.op == ONum {
			return mkNum(new(big.Rat).Mul(a.num, b.num), a.sort)
		}
		if a.num.Sign() == 0 {
			return a
		}
		if a.num.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		if a.sort == SInt {
			l := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
			linAcc(l, b, a.num)
			return l.term()
		}
		if b.op == OMul && b.args[0].op == ONum {
			return mkMul(mkReal(new(big.Rat).Mul(a.num, b.args[0].num)), b.args[1])
		}
	}
	if a.op != ONum && a.id > b.id {
		a, b = b, a
	}
	return intern(OMul, a.sort, "", nil, nil, a, b)
}
func mkDiv(a, b *Term) *Term {
	if b.op == ONum && b.num.Sign() != 0 {
		return mkMul(mkReal(new(big.Rat).Inv(b.num)), a)
	}
	return intern(ODiv, SReal, "", nil, nil, a, b)
}
func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

// SMT-LIB div (floor for positive divisor)
func mkIDiv(a, b *Term) *Term {
	if a.op == ONum && b.op == ONum && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num.Num(), b.num.Num(), new(big.Int))
		return mkNum(new(big.Rat).SetInt(q), SInt)
	}
	if b.op == ONum && b.num.Cmp(big.NewRat(1, 1)) == 0 {
		return a
	}
	if b.op == ONum && b.num.Sign() > 0 {
		// (k*b*x + y) div b = k*x + y div b
		l := linOf(a)
		out := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
		rest := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
		for t, c := range l.co {
			q := new(big.Rat).Quo(c, b.num)
			if q.IsInt() {
				out.co[t] = q
			} else {
				rest.co[t] = c
			}
		}
		q := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(l.c, b.num)))
		out.c = q
		rest.c = new(big.Rat).Sub(l.c, new(big.Rat).Mul(q, b.num))
		if len(out.co) > 0 || out.c.Sign() != 0 {
			if len(rest.co) == 0 {
				return out.term() // 0 <= rest.c < b
			}
			return mkAdd(out.term(), intern(OIDiv, SInt, "", nil, nil, rest.term(), b))
		}
	}
	return intern(OIDiv, SInt, "", nil, nil, a, b)
}
func mkIMod(a, b *Term) *Term {
	if a.op == ONum && b.op == ONum && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num.Num(), b.num.Num(), new(big.Int))
		return mkNum(new(big.Rat).SetInt(m), SInt)
	}
	if b.op == ONum && b.num.Sign() > 0 {
		l := linOf(a)
		for again := true; again; {
			again = false
			for t, c := range l.co { // (x mod kM) mod M = x mod M
				if t.op == OIMod && t.args[1].op == ONum && new(big.Rat).Quo(t.args[1].num, b.num).IsInt() && c.IsInt() {
					delete(l.co, t)
					linAcc(l, t.args[0], c)
					again = true
					break
				}
			}
		}
		rest := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
		for t, c := range l.co {
			if !new(big.Rat).Quo(c, b.num).IsInt() {
				rest.co[t] = c
			}
		}
		rest.c = new(big.Rat).Sub(l.c, new(big.Rat).Mul(new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(l.c, b.num))), b.num))
		if len(rest.co) == 0 {
			return rest.term()
		}
		a = rest.term()
	}
	return intern(OIMod, SInt, "", nil, nil, a, b)
}
func mkToReal(a *Term) *Term {
	if a.op == ONum {
		return mkReal(a.num)
	}
	if a.op == OIte {
		return mkIte(a.args[0], mkToReal(a.args[1]), mkToReal(a.args[2]))
	}
	return intern(OToReal, SReal, "", nil, nil, a)
}
func mkFloor(a *Term) *Term {
	if a.op == ONum {
		return mkNum(new(big.Rat).SetInt(ratFloor(a.num)), SInt)
	}
	if a.op == OToReal {
		return a.args[0]
	}
	return intern(OFloor, SInt, "", nil, nil, a)
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLt:
		return mkLe(a.args[1], a.args[0])
	case OLe:
		return mkLt(a.args[1], a.args[0])
	case OAnd, OOr:
		ns := make([]*Term, len(a.args))
		for i, x := range a.args {
			ns[i] = mkNot(x)
		}
		if a.op == OAnd {
			return mkOr(ns...)
		}
		return mkAnd(ns...)
	}
	return intern(ONot, SBool, "", nil, nil, a)
}

func mkAnd(ts ...*Term) *Term { return mkAC(OAnd, tTrue, tFalse, ts) }
func mkOr(ts ...*Term) *Term  { return mkAC(OOr, tFalse, tTrue, ts) }

func mkAC(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// absorption: in And, drop ors containing a member; remove negated members
	for i := 0; i < len(out); i++ {
		t := out[i]
		dual := OOr
		if op == OOr {
			dual = OAnd
		}
		if t.op != dual {
			continue
		}
		var rest []*Term
		drop := false
		changed := false
		for _, a := range t.args {
			if seen[a] {
				drop = true
				break
			}
			if seen[mkNot(a)] {
				changed = true
				continue
			}
			rest = append(rest, a)
		}
		if drop {
			out = append(out[:i:i], out[i+1:]...)
			i--
			continue
		}
		if changed {
			nt := mkAC(dual, zero, unit, rest)
			out = append(out[:i:i], out[i+1:]...)
			return mkAC(op, unit, zero, append(out, nt))
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(op, SBool, "", nil, nil, out...)
}
func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// merge store towers: ite(c, store(H,i,v), H) = store(H,i,ite(c,v,H[i]))
	if a.op == OStore && a.args[0] == b {
		return mkStore(b, a.args[1], mkIte(c, a.args[2], mkSelect(b, a.args[1])))
	}
	if b.op == OStore && b.args[0] == a {
		return mkStore(a, b.args[1], mkIte(c, mkSelect(a, b.args[1]), b.args[2]))
	}
	if a.op == OStore && b.op == OStore && a.args[1] == b.args[1] {
		return mkStore(mkIte(c, a.args[0], b.args[0]), a.args[1], mkIte(c, a.args[2], b.args[2]))
	}
	return intern(OIte, a.sort, "", nil, nil, c, a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s %s: %s %s", a.sort, b.sort, a, b))
	}
	if a.op == ONum && b.op == ONum {
		return mkBool(a.num.Cmp(b.num) == 0)
	}
	if a.op == OStr && b.op == OStr {
		return mkBool(a.name == b.name)
	}
	switch a.sort {
	case SInt:
		d := linOf(a)
		linAcc(d, b, big.NewRat(-1, 1))
		if len(d.co) == 0 {
			return mkBool(d.c.Sign() == 0)
		}
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isFalse() {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return tFalse
		}
	case SRef:
		if refDiff(a, b) {
			return tFalse
		}
		if a.op == OMk && b.op == OMk {
			return mkAnd(mkEq(a.args[0], b.args[0]), mkEq(a.args[1], b.args[1]))
		}
	case SPath:
		if pathDiff(a, b) {
			return tFalse
		}
		if a.op == b.op && (a.op == OPFld || a.op == OPIdx) {
			return mkAnd(mkEq(a.args[0], b.args[0]), mkEq(a.args[1], b.args[1]))
		}
	}
	if a.op == OIte && (a.args[1].op == ONum || a.args[1].op == OStr || a.args[2].op == ONum || a.args[2].op == OStr) && (b.op == ONum || b.op == OStr) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == OIte && (a.op == ONum || a.op == OStr) {
		return mkEq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OEq, SBool, "", nil, nil, a, b)
}
func mkLt(a, b *Term) *Term { // a < b
	if a.sort == SInt {
		d := linOf(b)
		linAcc(d, a, big.NewRat(-1, 1))
		if len(d.co) == 0 {
			return mkBool(d.c.Sign() > 0)
		}
		return mkLe(mkAdd(a, mkInt(1)), b)
	}
	if a == b {
		return tFalse
	}
	if a.op == ONum && b.op == ONum {
		return mkBool(a.num.Cmp(b.num) < 0)
	}
	return intern(OLt, SBool, "", nil, nil, a, b)
}
func mkLe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SInt {
		d := linOf(b)
		linAcc(d, a, big.NewRat(-1, 1))
		if len(d.co) == 0 {
			return mkBool(d.c.Sign() >= 0)
		}
		if d.c.Sign() >= 0 { // string lengths are not negative
			nonneg := true
			for t, c := range d.co {
				if t.op != OApp || t.name != "slen" || c.Sign() < 0 {
					nonneg = false
					break
				}
			}
			if nonneg {
				return tTrue
			}
		}
		// canonical: put positive part on the right, negative on left
		neg := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
		pos := &linForm{co: map[*Term]*big.Rat{}, c: new(big.Rat)}
		for t, c := range d.co {
			if c.Sign() > 0 {
				pos.co[t] = c
			} else {
				neg.co[t] = new(big.Rat).Neg(c)
			}
		}
		if d.c.Sign() > 0 {
			pos.c = d.c
		} else {
			neg.c = new(big.Rat).Neg(d.c)
		}
		return intern(OLe, SBool, "", nil, nil, neg.term(), pos.term())
	}
	if a.op == ONum && b.op == ONum {
		return mkBool(a.num.Cmp(b.num) <= 0)
	}
	return intern(OLe, SBool, "", nil, nil, a, b)
}
func mkNe(a, b *Term) *Term { return mkNot(mkEq(a, b)) }

// ---- references

func mkMk(root, path *Term) *Term {
	if root.op == ORoot && path.op == OPath && root.args[0] == path.args[0] {
		return root.args[0]
	}
	return intern(OMk, SRef, "", nil, nil, root, path)
}
func mkRoot(r *Term) *Term {
	switch r.op {
	case OMk:
		return r.args[0]
	case OIte:
		return mkIte(r.args[0], mkRoot(r.args[1]), mkRoot(r.args[2]))
	}
	return intern(ORoot, SInt, "", nil, nil, r)
}
func mkPath(r *Term) *Term {
	switch r.op {
	case OMk:
		return r.args[1]
	case OIte:
		return mkIte(r.args[0], mkPath(r.args[1]), mkPath(r.args[2]))
	}
	return intern(OPath, SPath, "", nil, nil, r)
}
func mkFld(r *Term, i int) *Term {
	if r.op == OIte {
		return mkIte(r.args[0], mkFld(r.args[1], i), mkFld(r.args[2], i))
	}
	return mkMk(mkRoot(r), intern(OPFld, SPath, "", nil, nil, mkPath(r), mkInt(int64(i))))
}
func mkIdx(r *Term, i *Term) *Term {
	if r.op == OIte {
		return mkIte(r.args[0], mkIdx(r.args[1], i), mkIdx(r.args[2], i))
	}
	return mkMk(mkRoot(r), intern(OPIdx, SPath, "", nil, nil, mkPath(r), i))
}

// birthOf returns a time at which the reference was certainly allocated.
func birthOf(t *Term) Birth {
	if t.birthMemo != nil {
		return *t.birthMemo
	}
	b := birthOf0(t)
	t.birthMemo = &b
	return b
}
func birthOf0(t *Term) Birth {
	switch t.op {
	case OVar, OApp:
		return t.birth
	case OMk:
		return rootBirth(t.args[0])
	case OIte:
		return maxBirth(birthOf(t.args[1]), birthOf(t.args[2]))
	case OSelect:
		return selBirth(t.args[0], t.args[1])
	}
	return Birth{}
}
func rootBirth(r *Term) Birth {
	if r.op == ONum {
		return Birth{0, 0, true}
	}
	if b, c, ok := allocRoot(r); ok {
		return Birth{b, c + 1, true}
	}
	if r.op == ORoot {
		return birthOf(r.args[0])
	}
	if r.op == OIte {
		return maxBirth(rootBirth(r.args[1]), rootBirth(r.args[2]))
	}
	return Birth{}
}

// allocRoot recognises A_i + c.
func allocRoot(r *Term) (int, int, bool) {
	if r.allocBase > 0 {
		return r.allocBase - 1, 0, true
	}
	if r.op == OAdd && len(r.args) == 2 && r.args[0].allocBase > 0 && r.args[1].op == ONum {
		c, _ := r.args[1].intVal()
		return r.args[0].allocBase - 1, c, true
	}
	return 0, 0, false
}
func selBirth(h, x *Term) Birth {
	switch h.op {
	case OVar:
		if h.birth.ok && birthOf(x).le(h.birth) {
			return h.birth
		}
		return Birth{}
	case OStore:
		return maxBirth(birthOf(h.args[2]), selBirth(h.args[0], x))
	case OIte:
		return maxBirth(selBirth(h.args[1], x), selBirth(h.args[2], x))
	}
	return Birth{}
}

func rootDiff(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OIte {
		return rootDiff(a.args[1], b) && rootDiff(a.args[2], b)
	}
	if b.op == OIte {
		return rootDiff(a, b.args[1]) && rootDiff(a, b.args[2])
	}
	if a.op == ONum && b.op == ONum {
		return a.num.Cmp(b.num) != 0
	}
	ab, ac, aok := allocRoot(a)
	bb, bc, bok := allocRoot(b)
	if aok && bok {
		return ab != bb || ac != bc
	}
	if aok {
		return rootBirth(b).le(Birth{ab, ac, true})
	}
	if bok {
		return rootBirth(a).le(Birth{bb, bc, true})
	}
	return false
}
func intDiff(a, b *Term) bool {
	d := linOf(a)
	linAcc(d, b, big.NewRat(-1, 1))
	return len(d.co) == 0 && d.c.Sign() != 0
}
func pathDiff(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OIte {
		return pathDiff(a.args[1], b) && pathDiff(a.args[2], b)
	}
	if b.op == OIte {
		return pathDiff(a, b.args[1]) && pathDiff(a, b.args[2])
	}
	isC := func(t *Term) bool { return t.op == OPNil || t.op == OPFld || t.op == OPIdx }
	if isC(a) && isC(b) {
		if a.op != b.op {
			return true
		}
		if a.op == OPNil {
			return false
		}
		return intDiff(a.args[1], b.args[1]) || pathDiff(a.args[0], b.args[0])
	}
	return false
}
func refDiff(a, b *Term) bool {
	if a == b {
		return false
	}
	return rootDiff(mkRoot(a), mkRoot(b)) || pathDiff(mkPath(a), mkPath(b))
}

// ---- arrays

func arrSorts(s string) (string, string) {
	// "(Array K V)"
	inner := s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range inner {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return inner[:i], inner[i+1:]
		}
	}
	panic("bad array sort " + s)
}
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func keyDiff(i, j *Term) bool {
	switch i.sort {
	case SRef:
		return refDiff(i, j)
	case SInt:
		return intDiff(i, j)
	case SStr:
		return i.op == OStr && j.op == OStr && i.name != j.name
	}
	return mkEq(i, j).isFalse()
}

func mkSelect(a, i *Term) *Term {
	switch a.op {
	case OStore:
		if a.args[1] == i {
			return a.args[2]
		}
		if keyDiff(a.args[1], i) {
			return mkSelect(a.args[0], i)
		}
		if i.op == OIte && i.sort == SRef {
			return mkIte(i.args[0], mkSelect(a, i.args[1]), mkSelect(a, i.args[2]))
		}
		if i.sort == SRef && a.args[1].op == OIte {
			return mkIte(mkEq(a.args[1], i), a.args[2], mkSelect(a.args[0], i))
		}
	case OIte:
		return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
	case OConstArr:
		return a.args[0]
	case OVar:
		if a.frBase != nil && i.sort == SRef && rootDiff(mkRoot(i), a.frRoot) {
			return mkSelect(a.frBase, i)
		}
	}
	if i.op == OIte && i.sort == SRef {
		return mkIte(i.args[0], mkSelect(a, i.args[1]), mkSelect(a, i.args[2]))
	}
	_, v := arrSorts(a.sort)
	return intern(OSelect, v, "", nil, nil, a, i)
}
func mkStore(a, i, v *Term) *Term {
	if i.op == OIte && i.sort == SRef {
		c, x, y := i.args[0], i.args[1], i.args[2]
		return mkIte(c, mkStore(a, x, v), mkStore(a, y, v))
	}
	if a.op == OStore && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if a.op == OConstArr && a.args[0] == v {
		return a
	}
	if a.op == OSelect || a.op == OVar {
		if v.op == OSelect && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return intern(OStore, a.sort, "", nil, nil, a, i, v)
}
func mkConstArr(srt string, v *Term) *Term { return intern(OConstArr, srt, "", nil, nil, v) }

func mkApp(name, srt string, args ...*Term) *Term {
	return intern(OApp, srt, name, nil, nil, args...)
}

func mkForall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	used := false
	for _, v := range vars {
		for _, f := range body.fb {
			if f == v {
				used = true
			}
		}
	}
	if !used {
		return body
	}
	if len(pats) == 0 {
		// forall x. (A or forall y. B)  ->  forall x y. (A or B)
		if body.op == OForall && len(body.pats) == 0 {
			n := len(body.args) - 1
			return mkForall(append(append([]*Term{}, vars...), body.args[:n]...), body.args[n])
		}
		if body.op == OOr {
			for i, a := range body.args {
				if a.op == OForall && len(a.pats) == 0 {
					n := len(a.args) - 1
					vs := map[*Term]*Term{}
					nv := append([]*Term{}, vars...)
					for _, v := range a.args[:n] {
						w := mkBoundVar("i", v.sort)
						vs[v] = w
						nv = append(nv, w)
					}
					rest := append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)
					return mkForall(nv, mkOr(append(rest, subst(a.args[n], vs))...))
				}
			}
		}
	}
	return intern(OForall, SBool, "", nil, pats, append(append([]*Term{}, vars...), body)...)
}
func mkExists(vars []*Term, body *Term) *Term {
	return mkNot(mkForall(vars, mkNot(body)))
}

// substitute bound variables
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case ONot:
		return mkNot(a[0])
	case OAnd:
		return mkAnd(a...)
	case OOr:
		return mkOr(a...)
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OEq:
		return mkEq(a[0], a[1])
	case OLt:
		return mkLt(a[0], a[1])
	case OLe:
		return mkLe(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = mkAdd(r, x)
		}
		return r
	case OMul:
		return mkMul(a[0], a[1])
	case ODiv:
		return mkDiv(a[0], a[1])
	case OIDiv:
		return mkIDiv(a[0], a[1])
	case OIMod:
		return mkIMod(a[0], a[1])
	case OToReal:
		return mkToReal(a[0])
	case OFloor:
		return mkFloor(a[0])
	case OSelect:
		return mkSelect(a[0], a[1])
	case OStore:
		return mkStore(a[0], a[1], a[2])
	case OMk:
		return mkMk(a[0], a[1])
	case ORoot:
		return mkRoot(a[0])
	case OPath:
		return mkPath(a[0])
	case OConstArr:
		return mkConstArr(t.sort, a[0])
	case OForall:
		n := len(a) - 1
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return mkForall(a[:n], a[n], pats...)
	default:
		r := intern(t.op, t.sort, t.name, t.num, t.pats, a...)
		return r
	}
}

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OVar, OBound:
		return t.name
	case ONum:
		return t.num.RatString()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OStr:
		return strconv.Quote(t.name)
	}
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLt: "<", OLe: "<=", OAdd: "+", OMul: "*", ODiv: "/", OIDiv: "div", OIMod: "mod", OToReal: "real", OFloor: "floor", OSelect: "sel", OStore: "store", OForall: "forall", OMk: "mk", ORoot: "root", OPath: "path", OPNil: "pnil", OPFld: "pfld", OPIdx: "pidx", OConstArr: "const"}
	n := names[t.op]
	if t.op == OApp {
		n = t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(a.str(d + 1))
		if sb.Len() > 3000 {
			break
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Full prints infix without depth limit (debugging).
func (t *Term) Full() string {
	switch t.op {
	case OVar, OBound:
		return t.name
	case ONum:
		return t.num.RatString()
	case OSelect:
		if t.args[1].op == OMk || t.args[1].op == OVar {
			return strings.Replace(t.args[0].Full(), "H0_", "", 1) + "[" + t.args[1].Full() + "]"
		}
	case OMk:
		return t.args[1].Full()
	case OPath:
		return t.args[0].Full()
	case OPIdx:
		return t.args[0].Full() + "." + t.args[1].Full()
	case OAdd, OMul, ODiv, OEq, OLt, OLe:
		names := map[Op]string{OEq: " = ", OLt: " < ", OLe: " <= ", OAdd: "+", OMul: "*", ODiv: "/"}
		var p []string
		for _, a := range t.args {
			p = append(p, a.Full())
		}
		return "(" + strings.Join(p, names[t.op]) + ")"
	}
	s := t.str(12)
	i := strings.IndexByte(s, ' ')
	if i > 0 && len(t.args) > 0 {
		s = s[:i]
		for _, a := range t.args {
			s += " " + a.Full()
		}
		return s + ")"
	}
	return s
}
