package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository. Every one used is listed in the evidence as trusted.

func rat(n, d int64) *big.Rat { return big.NewRat(n, d) }

func mkSqrt(x *Term) *Term {
	if x.op == ONum && x.num.Sign() >= 0 {
		n := new(big.Int).Sqrt(x.num.Num())
		d := new(big.Int).Sqrt(x.num.Denom())
		if new(big.Int).Mul(n, n).Cmp(x.num.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(x.num.Denom()) == 0 {
			return mkReal(new(big.Rat).SetFrac(n, d))
		}
	}
	return mkApp("sqrt", SReal, x)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true, "math": true, "unicode": true, "unicode/utf8": true, "math/bits": true, "regexp": true}

func (e *Engine) external(fn *ssa.Function, args []Value, st *State, pos token.Pos) ([]Value, *State) {
	name := fn.String()
	T := func(i int) *Term { return args[i].(*Term) }
	one := func(t Value) ([]Value, *State) {
		e.models[name] = true
		return []Value{t}, st
	}
	z := mkReal(new(big.Rat))
	switch name {
	case "encoding/binary.Write":
		e.models[name+" (token stream)"] = true
		return e.binWrite(args, st)
	case "encoding/binary.Read":
		e.models[name+" (token stream)"] = true
		return e.binRead(args, st, pos)
	case "log.Fatal", "log.Fatalf", "os.Exit":
		e.oblige(st, "safety", "process exit unreachable", tFalse, pos, nil)
		return nil, nil
	case "math.Sqrt":
		return one(mkSqrt(T(0)))
	case "math.Sin", "math.Cos", "math.Tan", "math.Asin", "math.Acos", "math.Atan":
		return one(mkApp(strings.ToLower(name[5:]), SReal, T(0)))
	case "math.Atan2":
		return one(mkApp("atan2", SReal, T(0), T(1)))
	case "math.Abs":
		return one(mkIte(mkLe(z, T(0)), T(0), mkNeg(T(0))))
	case "math.Max":
		return one(mkIte(mkLe(T(1), T(0)), T(0), T(1)))
	case "math.Min":
		return one(mkIte(mkLe(T(0), T(1)), T(0), T(1)))
	case "math.Floor":
		return one(mkToReal(mkFloor(T(0))))
	case "math.Float32bits":
		return one(mkApp("f32bits", SInt, T(0)))
	case "math.Float32frombits":
		if T(0).op == OApp && T(0).name == "f32bits" {
			return one(T(0).args[0])
		}
		return one(mkApp("f32from", SReal, T(0)))
	case "log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print":
		e.models[name] = true
		return e.freshResults(fn, st), st
	case "errors.New", "fmt.Errorf":
		e.models[name] = true
		r := e.newObj(st)
		t := e.freshLeaf("errtag", SInt, "#tag", nil, st.alloc)
		e.assume(st, mkLt(mkInt(1000000), t), "errors are non-nil")
		return []Value{&IfaceV{tag: t, ref: r}}, st
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		e.models[name] = true
		var ts []*Term
		var sl *SliceV
		nm := strings.ReplaceAll(name, ".", "_")
		if name == "fmt.Sprintf" {
			ts = append(ts, T(0))
			sl = args[1].(*SliceV)
		} else {
			sl = args[0].(*SliceV)
		}
		if n, ok := sl.len.intVal(); ok {
			it := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().(*types.Slice).Elem()
			for i := 0; i < n; i++ {
				v := e.load(st, elemPtr(sl.arr, mkAdd(sl.off, mkInt(int64(i))), it, sl.snap), it).(*IfaceV)
				k, ok := v.tag.intVal()
				if !ok || k == 0 {
					return one(e.freshLeaf("sprintf", SStr, "", nil, st.alloc))
				}
				tt := e.tagTypes[k-1]
				u := e.unbox(st, v, tt)
				if t, ok := u.(*Term); ok {
					ts = append(ts, t)
					nm += "_" + sanitize(t.sort)
				} else {
					return one(e.freshLeaf("sprintf", SStr, "", nil, st.alloc))
				}
			}
			return one(mkApp(nm, SStr, ts...))
		}
		return one(e.freshLeaf("sprintf", SStr, "", nil, st.alloc))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		if T(0).op == OStr && T(1).op == OStr {
			a, b := T(0).name, T(1).name
			switch name {
			case "strings.HasPrefix":
				return one(mkBool(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return one(mkBool(strings.HasSuffix(a, b)))
			case "strings.Contains":
				return one(mkBool(strings.Contains(a, b)))
			}
		}
	}
	p := fnPkg(fn)
	if p != nil && purePkgs[p.Pkg.Path()] {
		var ts []*Term
		ok := true
		for _, a := range args {
			t, is := a.(*Term)
			if !is {
				ok = false
				break
			}
			ts = append(ts, t)
		}
		if ok {
			e.models[name] = true
			var res []Value
			r := fn.Signature.Results()
			for i := 0; i < r.Len(); i++ {
				rt := r.At(i).Type()
				ls := leavesOf(rt)
				if len(ls) == 1 && ls[0].sort != SRef {
					v := mkApp("ext_"+sanitize(name)+"_"+string(rune('0'+i)), ls[0].sort, ts...)
					if lo, hi, ok := rangeOf(rt); ok {
						e.wf(mkAnd(mkLe(mkNum(lo, SInt), v), mkLe(v, mkNum(hi, SInt))), v)
					}
					res = append(res, v)
				} else {
					res = append(res, e.symbolic("ext_"+sanitize(name), rt, st.alloc, false))
				}
			}
			return res, st
		}
	}
	fail("external function %s has no model", name)
	return nil, nil
}

func (e *Engine) freshResults(fn *ssa.Function, st *State) []Value {
	var res []Value
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		res = append(res, e.symbolic("ext_"+fn.Name(), r.At(i).Type(), st.alloc, false))
	}
	return res
}

func (e *Engine) externalMethod(recv *IfaceV, m *types.Func, args []Value, st *State, pos token.Pos) ([]Value, *State) {
	if m.Name() == "Error" {
		return []Value{mkApp("errstr", SStr, recv.tag)}, st
	}
	fail("call of interface method %s on an unknown type", m.FullName())
	return nil, nil
}
