package main

// SMT-LIB output and solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"time"
)

type printer struct {
	sb     *strings.Builder
	decl   map[string]string // symbol -> declaration
	order  []string
	defs   map[*Term]string
	cnt    map[*Term]int
	tups   map[string]bool
	strs   map[string]string
	strOrd []string
	sorts  map[string]bool
}

func newPrinter() *printer {
	return &printer{sb: &strings.Builder{}, decl: map[string]string{}, defs: map[*Term]string{}, cnt: map[*Term]int{}, tups: map[string]bool{}, strs: map[string]string{}, sorts: map[string]bool{}}
}

var clash = map[string]bool{"sqrt": true, "sin": true, "cos": true, "tan": true, "asin": true, "acos": true, "atan": true, "exp": true, "pow": true, "abs": true}

func sym(s string) string {
	if clash[s] {
		return "|fn." + s + "|"
	}
	return "|" + s + "|"
}

func (p *printer) count(t *Term) {
	p.cnt[t]++
	if p.cnt[t] > 1 {
		return
	}
	p.noteSort(t.sort)
	switch t.op {
	case OVar:
		p.declare(t.name, fmt.Sprintf("(declare-const %s %s)", sym(t.name), t.sort))
	case OStr:
		if _, ok := p.strs[t.name]; !ok {
			p.strs[t.name] = fmt.Sprintf("str!%d", len(p.strs))
			p.strOrd = append(p.strOrd, t.name)
		}
	case OApp:
		p.declApp(t)
	}
	for _, a := range t.args {
		p.count(a)
	}
}

var builtinApp = map[string]bool{"is-pfld": true, "is-pidx": true, "pf_i": true, "pf_p": true, "pi_i": true, "pi_p": true}

func (p *printer) declApp(t *Term) {
	if builtinApp[t.name] {
		return
	}
	if strings.HasPrefix(t.name, "mkTup") || strings.HasPrefix(t.name, "sel") && strings.Contains(t.name, "Tup_") {
		return
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.sort)
	}
	p.declare(t.name, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(t.name), strings.Join(as, " "), t.sort))
}

func (p *printer) declare(n, d string) {
	if _, ok := p.decl[n]; ok {
		return
	}
	p.decl[n] = d
	p.order = append(p.order, n)
}

func (p *printer) noteSort(s string) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		p.noteSort(k)
		p.noteSort(v)
	}
	if strings.HasPrefix(s, "Tup_") {
		p.tups[s] = true
	}
}

func numStr(r *big.Rat, srt string) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if srt == SInt {
		s = a.Num().String()
	} else if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = fmt.Sprintf("(/ %s.0 %s.0)", a.Num(), a.Denom())
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLt: "<", OLe: "<=", OAdd: "+", OMul: "*", ODiv: "/", OIDiv: "div", OIMod: "mod", OToReal: "to_real", OFloor: "to_int", OSelect: "select", OStore: "store", OMk: "mk", ORoot: "root", OPath: "path", OPFld: "pfld", OPIdx: "pidx"}

// term prints t; shared ground subterms become definitions.
func (p *printer) term(t *Term, out *strings.Builder, lets map[*Term]string) {
	if n, ok := p.defs[t]; ok {
		out.WriteString(n)
		return
	}
	if lets != nil {
		if n, ok := lets[t]; ok {
			out.WriteString(n)
			return
		}
	}
	switch t.op {
	case OVar, OBound:
		out.WriteString(sym(t.name))
		return
	case ONum:
		out.WriteString(numStr(t.num, t.sort))
		return
	case OTrue:
		out.WriteString("true")
		return
	case OFalse:
		out.WriteString("false")
		return
	case OPNil:
		out.WriteString("pnil")
		return
	case OStr:
		out.WriteString(sym(p.strs[t.name]))
		return
	}
	if len(t.fb) == 0 && p.cnt[t] > 1 && lets == nil {
		// define
		var b strings.Builder
		p.node(t, &b, nil)
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
		p.defs[t] = n
		out.WriteString(n)
		return
	}
	p.node(t, out, lets)
}

func (p *printer) node(t *Term, out *strings.Builder, lets map[*Term]string) {
	switch t.op {
	case OForall:
		p.quant(t, out, lets)
		return
	case OConstArr:
		out.WriteString("((as const " + t.sort + ") ")
		p.term(t.args[0], out, lets)
		out.WriteString(")")
		return
	case OApp:
		switch t.name {
		case "is-pfld":
			out.WriteString("((_ is pfld) ")
		case "is-pidx":
			out.WriteString("((_ is pidx) ")
		default:
			if builtinApp[t.name] {
				out.WriteString("(" + t.name + " ")
			} else if len(t.args) == 0 {
				out.WriteString(sym(t.name))
				return
			} else {
				out.WriteString("(" + sym(t.name) + " ")
			}
		}
		for i, a := range t.args {
			if i > 0 {
				out.WriteString(" ")
			}
			p.term(a, out, lets)
		}
		out.WriteString(")")
		return
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(fmt.Sprintf("print op %d", t.op))
	}
	out.WriteString("(" + n)
	for _, a := range t.args {
		out.WriteString(" ")
		p.term(a, out, lets)
	}
	out.WriteString(")")
}

// groundDefs defines all shared ground subterms of t up front.
func (p *printer) groundDefs(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		p.groundDefs(a, seen)
	}
	if len(t.fb) == 0 && len(t.args) > 0 && p.defs[t] == "" && (p.cnt[t] > 1) {
		var b strings.Builder
		p.term(t, &b, nil)
	}
}

func (p *printer) quant(t *Term, out *strings.Builder, lets map[*Term]string) {
	n := len(t.args) - 1
	body := t.args[n]
	if lets == nil {
		p.groundDefs(body, map[*Term]bool{})
	}
	out.WriteString("(forall (")
	for _, v := range t.args[:n] {
		fmt.Fprintf(out, "(%s %s)", sym(v.name), v.sort)
	}
	out.WriteString(") ")
	nl := map[*Term]string{}
	for k, v := range lets {
		nl[k] = v
	}
	// shared non-ground nodes not below an inner quantifier
	cnt := map[*Term]int{}
	var ord []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.fb) == 0 || len(x.args) == 0 || nl[x] != "" {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.op != OForall {
			for _, a := range x.args {
				walk(a)
			}
		} else {
			// terms free of the inner binders can still be shared, but keep it simple
		}
		ord = append(ord, x)
	}
	walk(body)
	var pats [][]*Term
	for _, pt := range t.pats {
		bad := false
		var np []*Term
		for _, x := range pt {
			np = append(np, p.nameItes(x))
		}
		occurs(np, map[*Term]bool{}, func(x *Term) {
			if x.op == OIte || x.op == OForall || x.op == OStore && len(x.fb) > 0 {
				bad = true
			}
		})
		if !bad {
			pats = append(pats, np)
		}
	}
	hasPat := len(pats) > 0
	if hasPat {
		out.WriteString("(! ")
	}
	closing := 0
	for _, x := range ord {
		if cnt[x] > 1 && x != body {
			var b strings.Builder
			p.node(x, &b, nl)
			nm := fmt.Sprintf("l!%d", x.id)
			fmt.Fprintf(out, "(let ((%s %s)) ", nm, b.String())
			nl[x] = nm
			closing++
		}
	}
	p.node2(body, out, nl)
	out.WriteString(strings.Repeat(")", closing))
	if hasPat {
		for _, pt := range pats {
			out.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					out.WriteString(" ")
				}
				p.term(x, out, map[*Term]string{})
			}
			out.WriteString(")")
		}
		out.WriteString(")")
	}
	out.WriteString(")")
}

// nameItes replaces ground conditionals (not allowed in patterns) by constants defined equal to them.
func (p *printer) nameItes(t *Term) *Term {
	if t.op == OIte && len(t.fb) == 0 {
		v := mkVarNamed(fmt.Sprintf("pi!%d", t.id), t.sort)
		if _, ok := p.decl[v.name]; !ok {
			p.declare(v.name, fmt.Sprintf("(declare-const %s %s)", sym(v.name), v.sort))
			var b strings.Builder
			p.term(t, &b, nil)
			fmt.Fprintf(p.sb, "(assert (= %s %s))\n", sym(v.name), b.String())
		}
		return v
	}
	if len(t.args) == 0 || t.op == OForall {
		return t
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = p.nameItes(a)
		ch = ch || na[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, na, nil)
}

func (p *printer) node2(t *Term, out *strings.Builder, lets map[*Term]string) { p.term(t, out, lets) }

// ---- queries

type Query struct {
	hyps  []*Term
	flags []*Term // assumption literals
}

func occurs(ts []*Term, seen map[*Term]bool, visit func(*Term)) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		visit(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// withGlobals adds the global facts about terms that occur, to a fixpoint.
func (e *Engine) withGlobals(hyps []*Term) []*Term {
	seen := map[*Term]bool{}
	out := append([]*Term{}, hyps...)
	queue := hyps
	doneA := map[*Term]bool{}
	for len(queue) > 0 {
		var next []*Term
		occurs(queue, seen, func(t *Term) {
			if doneA[t] {
				return
			}
			doneA[t] = true
			if g, ok := e.globals[t]; ok {
				next = append(next, g...)
			}
			next = append(next, autoAxioms(t)...)
		})
		out = append(out, next...)
		queue = next
	}
	return out
}

// autoAxioms: facts about interpreted functions on ground terms.
func autoAxioms(t *Term) []*Term {
	if t.op != OApp || len(t.fb) > 0 {
		return nil
	}
	z := mkReal(new(big.Rat))
	o := mkReal(rat(1, 1))
	m1 := mkReal(rat(-1, 1))
	switch t.name {
	case "slen":
		r := []*Term{mkLe(mkInt(0), t)}
		if a := t.args[0]; a.op == OApp && a.name == "sconcat" {
			r = append(r, mkEq(t, mkAdd(strLen(a.args[0]), strLen(a.args[1]))))
		}
		return r
	case "sat":
		return []*Term{mkLe(mkInt(0), t), mkLe(t, mkInt(255))}
	case "sqrt":
		x := t.args[0]
		return []*Term{mkLe(z, t), mkImplies(mkLe(z, x), mkEq(mkMul(t, t), x))}
	case "sin", "cos":
		s, c := mkApp("sin", SReal, t.args[0]), mkApp("cos", SReal, t.args[0])
		return []*Term{mkEq(mkAdd(mkMul(s, s), mkMul(c, c)), o), mkLe(t, o), mkLe(m1, t)}
	case "asin":
		x := t.args[0]
		in := mkAnd(mkLe(m1, x), mkLe(x, o))
		return []*Term{mkImplies(in, mkAnd(mkEq(mkApp("sin", SReal, t), x), mkLe(z, mkApp("cos", SReal, t))))}
	case "acos":
		x := t.args[0]
		in := mkAnd(mkLe(m1, x), mkLe(x, o))
		return []*Term{mkImplies(in, mkAnd(mkEq(mkApp("cos", SReal, t), x), mkLe(z, mkApp("sin", SReal, t))))}
	case "atan2":
		y, x := t.args[0], t.args[1]
		r := mkSqrt(mkAdd(mkMul(x, x), mkMul(y, y)))
		nz := mkOr(mkNe(x, z), mkNe(y, z))
		return []*Term{mkImplies(nz, mkAnd(mkEq(mkMul(r, mkApp("sin", SReal, t)), y), mkEq(mkMul(r, mkApp("cos", SReal, t)), x), mkLt(z, r)))}
	}
	return nil
}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := t.op == OForall
	if !r {
		for _, a := range t.args {
			if hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func (q *Query) text(logic string) string {
	p := newPrinter()
	for _, h := range q.hyps {
		p.count(h)
	}
	for _, f := range q.flags {
		p.count(f)
	}
	// globally needed sorts
	var head strings.Builder
	head.WriteString("(set-option :produce-unsat-assumptions true)\n")
	if logic != "" {
		head.WriteString("(set-logic " + logic + ")\n")
	}
	if p.sorts[SRef] || p.sorts[SPath] {
		head.WriteString("(declare-datatypes ((Path 0)) (((pnil) (pfld (pf_p Path) (pf_i Int)) (pidx (pi_p Path) (pi_i Int)))))\n(declare-datatypes ((Ref 0)) (((mk (root Int) (path Path)))))\n")
	}
	if p.sorts[SStr] {
		head.WriteString("(declare-sort Str 0)\n")
	}
	var tk []string
	for k := range p.tups {
		tk = append(tk, k)
	}
	sort.Strings(tk)
	for _, k := range tk {
		parts := strings.Split(k, "_")[1:]
		fmt.Fprintf(&head, "(declare-datatypes ((%s 0)) (((|mk%s|", k, k)
		for i, s := range parts {
			fmt.Fprintf(&head, " (|sel%d%s| %s)", i, k, s)
			p.noteSort(s)
		}
		head.WriteString("))))\n")
	}
	var body strings.Builder
	p.sb = &body
	for _, h := range q.hyps {
		var b strings.Builder
		p.term(h, &b, nil)
		fmt.Fprintf(&body, "(assert %s)\n", b.String())
	}
	for _, n := range p.order {
		head.WriteString(p.decl[n])
		head.WriteByte('\n')
	}
	if len(p.strOrd) > 0 {
		var ns []string
		for _, s := range p.strOrd {
			fmt.Fprintf(&head, "(declare-const %s Str)\n", sym(p.strs[s]))
			ns = append(ns, sym(p.strs[s]))
			if _, ok := p.decl["slen"]; ok {
				fmt.Fprintf(&head, "(assert (= (|slen| %s) %d))\n", sym(p.strs[s]), len(s))
			}
			if _, ok := p.decl["sat"]; ok && len(s) <= 32 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&head, "(assert (= (|sat| %s %d) %d))\n", sym(p.strs[s]), i, s[i])
				}
			}
		}
		if len(ns) > 1 {
			fmt.Fprintf(&head, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	var fl []string
	for _, f := range q.flags {
		fl = append(fl, sym(f.name))
	}
	if len(fl) > 0 {
		fmt.Fprintf(&body, "(check-sat-assuming (%s))\n", strings.Join(fl, " "))
		body.WriteString("(get-unsat-assumptions)\n")
	} else {
		body.WriteString("(check-sat)\n")
	}
	return head.String() + body.String()
}

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

var solvers = map[string]solverCfg{
	"z3n-ematch": {"z3-5.3 (e-matching)", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.arith.nl.nra true)\n"},
	"z3n":        {"z3-5.3", []string{"z3-new", "-in"}, ""},
	"z3o-ematch": {"z3-4.8 (e-matching)", []string{"z3", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	"z3o":        {"z3-4.8", []string{"z3", "-in"}, ""},
	"cvc5":       {"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--produce-unsat-assumptions"}, ""},
}

var flagRe = regexp.MustCompile(`\|?flag![0-9]+\|?`)
var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int

func runSolver(cfg string, text string, timeout time.Duration) (res string, core map[string]bool, dur float64) {
	s := solvers[cfg]
	ctx, cancel := context.WithTimeout(context.Background(), timeout+500*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	args := append([]string{}, s.cmd[1:]...)
	pre := s.pre
	if strings.HasPrefix(cfg, "z3") {
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
		text = "(set-logic ALL)\n" + text
	}
	cmd := exec.CommandContext(ctx, s.cmd[0], args...)
	cmd.Stdin = strings.NewReader(pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	dur = time.Since(t0).Seconds()
	o := out.String()
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	for _, l := range strings.Split(o, "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	first = strings.TrimSpace(first)
	switch first {
	case "unsat":
		core = map[string]bool{}
		for _, m := range flagRe.FindAllString(o, -1) {
			core[strings.Trim(m, "|")] = true
		}
		return "unsat", core, dur
	case "sat", "unknown":
		return first, nil, dur
	}
	if strings.Contains(first, "error") {
		if dumpDir != "" {
			dumpN++
			os.WriteFile(fmt.Sprintf("%s/err%d.smt2", dumpDir, dumpN), []byte(pre+text), 0644)
		}
		return "error: " + first, nil, dur
	}
	return "timeout", nil, dur
}
