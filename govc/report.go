package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// known findings: lines "KNOWN property=<id> target=<spec> obligation=<name>  # what fails"
type known struct{ prop, target, obl, what string }

func readKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var m map[string]string
		if json.Unmarshal([]byte(l), &m) != nil || m["status"] != "known" {
			continue
		}
		out = append(out, known{m["property"], m["target"], m["obligation"], m["what"]})
	}
	return out
}

func knownOf(kn []known, prop, target, obl string) *known {
	for i := range kn {
		if kn[i].prop == prop && strings.HasSuffix(target, kn[i].target) && kn[i].obl == strings.SplitN(obl, "/", 2)[0] {
			return &kn[i]
		}
	}
	return nil
}

func evidencePath(prop string) string {
	return filepath.Join(*flagVerif, "evidence", prop+".json")
}

func writeEvidence(prop string, cov map[string]interface{}, t0 time.Time) {
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0755)
	seed, _ := strconv.Atoi(seedVal())
	level := "proof"
	var man struct {
		Checks []struct {
			Property, Level string
			Note            string `json:"level_note"`
		}
	}
	if b, err := os.ReadFile(filepath.Join(*flagVerif, "MANIFEST.json")); err == nil && json.Unmarshal(b, &man) == nil {
		for _, c := range man.Checks {
			if c.Property == prop && c.Level != "" {
				level = c.Level
				cov["explanation"] = c.Note
			}
		}
	}
	ev := map[string]interface{}{"property": prop, "tier": *flagTier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(evidencePath(prop), append(b, '\n'), 0644)
}

func replayFile(prop, text string) string {
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0755)
	p := filepath.Join(*flagVerif, "evidence", prop+".replay.txt")
	os.WriteFile(p, []byte(text), 0644)
	return p
}

func checkerCmd(prop string) string {
	return fmt.Sprintf("bash %s/check.sh %s %s", *flagVerif, prop, *flagTier)
}

func undecided(prop, msg string, details []string, t0 time.Time) int {
	text := "property " + prop + ": " + msg + "\n" + strings.Join(details, "\n") + "\n"
	p := replayFile(prop, text)
	writeEvidence(prop, map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": checkerCmd(prop), "trusted_base": "none: " + msg}, t0)
	fmt.Print(text)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
	return 1
}

func broken(prop, msg string, t0 time.Time) int {
	return undecided(prop, msg, nil, t0)
}

type failure struct {
	target, obl, kind, pos, out string
}

func conclude(prop string, results []*targetResult, rep map[string]*replayRes, names map[string][]string, specs []specFile, tLoad float64, t0 time.Time) int {
	var fails []failure
	total, done := 0, 0
	bySolver := map[string]int{}
	under, inlined, applied, models, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var proofSecs float64
	partial := []string{}
	type tsum struct {
		Spec        string  `json:"spec"`
		Obligations int     `json:"obligations"`
		Discharged  int     `json:"discharged"`
		Invariants  int     `json:"loop_invariants_proved"`
		Seconds     float64 `json:"seconds"`
	}
	var sums []tsum
	var samples []string
	for _, r := range results {
		s := tsum{Spec: shortName(r.t.fn), Seconds: r.secs}
		if r.err != "" {
			total++
			s.Obligations++
			fails = append(fails, failure{shortName(r.t.fn), "verification conditions", "unsupported", "", r.err})
		}
		inv := map[*Cand]bool{}
		post := 0
		for _, o := range r.obls {
			if o.kind == "cand" {
				if o.status == "proved" && !o.cand.dropped {
					inv[o.cand] = true
				}
				continue
			}
			if o.kind == "post" {
				post++
			}
			total++
			s.Obligations++
			proofSecs += o.secs
			if o.status == "proved" {
				done++
				s.Discharged++
				bySolver[o.solver]++
				if len(samples) < 6 && o.kind == "post" {
					samples = append(samples, shortName(r.t.fn)+": "+o.name+" ["+o.solver+"]")
				}
			} else {
				fails = append(fails, failure{shortName(r.t.fn), o.name, o.kind, o.pos, o.out})
			}
		}
		s.Invariants = len(inv)
		sums = append(sums, s)
		if r.err == "" && post == 0 {
			total++
			fails = append(fails, failure{shortName(r.t.fn), "no postcondition reached", "vacuity", "", "the specification generates no postcondition obligation"})
		}
		for k := range r.e.under {
			under[k] = true
		}
		for k := range r.e.inlined {
			inlined[k] = true
		}
		for k := range r.e.applied {
			applied[k] = true
		}
		for k := range r.e.models {
			models[k] = true
		}
		for _, k := range r.e.trusted {
			trusted[k] = true
		}
		if r.e.partial {
			partial = append(partial, shortName(r.t.fn))
		}
	}
	kn := readKnown()
	isKnown := func(target, obl string) *known { return knownOf(kn, prop, target, obl) }
	knownHit := map[*known]bool{}
	var open []failure
	for _, f := range fails {
		if k := isKnown(f.target, f.obl); k != nil {
			knownHit[k] = true
			continue
		}
		open = append(open, f)
	}
	// longer replay of the specifications whose proof failed
	if len(open) > 0 && rep != nil {
		only := map[string]bool{}
		found := false
		for _, r := range rep {
			if r.Fail != "" && isKnown(r.Name, r.Fail) == nil {
				found = true
			}
		}
		if !found {
			for _, f := range open {
				t := f.target
				if i := strings.LastIndex(t, "."); i >= 0 {
					t = t[i+1:]
				}
				only[t] = true
			}
			// and every lemma of the property, as the failed contract may be internal
			more := replayAll(prop, names, specs, only)
			for k, r := range more {
				if old := rep[k]; old != nil {
					r.Tried += old.Tried
					r.Accepted += old.Accepted
				}
				rep[k] = r
			}
		}
	}
	var rfail []*replayRes
	var repSum []map[string]interface{}
	boundSum := []map[string]interface{}{}
	var rn []string
	for n := range rep {
		rn = append(rn, n)
	}
	sort.Strings(rn)
	accTotal := 0
	for _, n := range rn {
		r := rep[n]
		if r.Fail != "" {
			if k := isKnown(r.Name, r.Fail); k != nil {
				knownHit[k] = true
			} else {
				rfail = append(rfail, r)
			}
		}
		if r.Err != "" {
			open = append(open, failure{r.Pkg + "." + r.Name, "specification replay", "replay", "", r.Err})
		} else if r.Accepted == 0 && r.Fail == "" && !strings.Contains(r.Name, "_novac") {
			open = append(open, failure{r.Pkg + "." + r.Name, "precondition reachable", "vacuity", "", fmt.Sprintf("none of %d generated inputs satisfies the precondition", r.Tried)})
		}
		accTotal += r.Accepted
		m := map[string]interface{}{"spec": r.Pkg + "." + r.Name, "inputs": r.Tried, "satisfying_precondition": r.Accepted}
		if strings.HasPrefix(r.Name, "Bounded_") {
			m["bound"] = fmt.Sprintf("%d generated inputs, seed %s", r.Accepted, seedVal())
			boundSum = append(boundSum, m)
		} else {
			repSum = append(repSum, m)
		}
		if len(samples) < 9 && r.Sample != "" {
			x := r.Sample
			if len(x) > 300 {
				x = x[:300] + "…"
			}
			samples = append(samples, r.Name+" replayed on "+x)
		}
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
	}
	ks := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, strings.ReplaceAll(k, repoPrefix+"/", ""))
		}
		sort.Strings(out)
		return out
	}
	tb := []string{"govc verification-condition generator (/verif/govc) over go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 and govc's polynomial normaliser", "float32/float64 arithmetic treated as exact real arithmetic (no rounding, overflow, NaN)", "int and int64 treated as mathematical integers; narrower integers wrap exactly", "input slices have offset 0 and capacity equal to length; termination not proved"}
	for _, m := range ks(models) {
		tb = append(tb, "external model: "+m)
	}
	for _, m := range ks(trusted) {
		tb = append(tb, "assumed in specification: "+m)
	}
	for _, m := range ks(applied) {
		if by := elsewhere[m]; by != "" {
			tb = append(tb, "contract of "+m+" used here is proved by check "+by)
		}
	}
	for _, m := range partial {
		tb = append(tb, "partial correctness (run-time panics assumed absent) in "+m)
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": done, "checker_cmd": checkerCmd(prop), "trusted_base": strings.Join(tb, "; "),
		"functions_under_contract":              ks(under),
		"callee_bodies_verified_inline":         ks(inlined),
		"callees_used_through_contract_only":    ks(applied),
		"discharged_by":                         bySolver,
		"obligation_seconds":                    proofSecs,
		"solver_seconds":                        solverSecs,
		"specifications":                        sums,
		"assumptions":                           tb,
		"replayed_specifications":               repSum,
		"bounded_stand_ins_not_proved":          boundSum,
		"replay_inputs_satisfying_precondition": accTotal,
		"samples":                               samples,
		"load_seconds":                          tLoad,
	}
	writeEvidence(prop, cov, t0)
	if len(rfail) > 0 {
		var sb strings.Builder
		for _, r := range rfail {
			fmt.Fprintf(&sb, "property %s violated: specification %s.%s, assertion %q fails on the real code\ninput: %s\nseed: %d\n%s\nreplay: VP_SINGLE=%d via %s\n\n", prop, r.Pkg, r.Name, r.Fail, r.Input, r.Seed, r.Stack, r.Seed, checkerCmd(prop))
		}
		for _, f := range open {
			fmt.Fprintf(&sb, "undischarged obligation: %s / %s (%s) %s\n  %s\n", f.target, f.obl, f.kind, f.pos, f.out)
		}
		p := replayFile(prop, sb.String())
		fmt.Print(trunc(sb.String()))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	if len(open) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations not discharged, and no failing input found among %d replayed inputs\n", prop, accTotal)
		for _, f := range open {
			fmt.Fprintf(&sb, "failed obligation: %s / %s (%s) %s\n  %s\n", f.target, f.obl, f.kind, f.pos, f.out)
		}
		p := replayFile(prop, sb.String())
		fmt.Print(trunc(sb.String()))
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		return 1
	}
	bs := ""
	if len(boundSum) > 0 {
		bs = fmt.Sprintf(", %d bounded stand-ins", len(boundSum))
	}
	fmt.Printf("property %s holds: %d/%d obligations discharged over %d specifications%s, %d replayed inputs agree (%.1fs)\n", prop, done, total, len(results), bs, accTotal, time.Since(t0).Seconds())
	return 0
}

func trunc(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "\n…\n"
	}
	return s
}
