package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

func evidence(id, tier, expl string, n, ok, viol, nk int, d time.Duration, rules []map[string]any, fns, obls, entries, notes []string) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if t := os.Getenv("VERIF_TIER"); t == "quick" || t == "thorough" {
		tier = t
	}
	if tier != "thorough" {
		tier = "quick"
	}
	return map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": d.Seconds(),
		"coverage": map[string]any{
			"explanation": expl, "obligations": n, "discharged": ok, "violations": viol, "known_findings": nk,
			"rules": rules, "functions_analysed": fns, "samples": obls, "entry_points": entries, "notes": notes,
		},
	}
}

// paramAtoms gives symbolic arguments for fn.
func paramAtoms(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "_" || n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		out = append(out, wrapT(mkAtom(n, p.Type())))
	}
	return out
}
func nonNilParams(st *State, args []*Term) {
	for _, a := range args {
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Pointer); ok {
				st.assume(mkEqv(a, tNil), false)
			}
		}
	}
}

func dump(args []string) {
	w, err := load()
	if err != nil {
		fmt.Println(err)
		return
	}
	fn := w.fn(args[0], args[1])
	if len(args) > 2 && args[2] == "ssa" {
		fn.WriteTo(os.Stdout)
		for _, a := range fn.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	x := newX(w.prog)
	x.h.bounds = func(x *X, st *State, f *ssa.Function, in ssa.Instruction, what string, c *Term) bool {
		x.check(st, "bounds", what+" "+posStr(w.prog, in.Pos()), st.isTrue(c), in.Pos(), "%v", c)
		return true
	}
	st := newState()
	as := paramAtoms(fn)
	nonNilParams(st, as)
	t0 := time.Now()
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				fmt.Println("UNDECIDED", u.msg, "steps", x.steps, time.Since(t0))
				return
			}
			panic(e)
		}
	}()
	outs := x.exec(st, fn, as, nil)
	for i, o := range outs {
		if i > 30 {
			fmt.Println("...", len(outs))
			break
		}
		fmt.Printf("--- outcome %d panic=%v %v\n", i, o.panicked, o.pv)
		for _, r := range o.ret {
			fmt.Println("  ret", o.st.f.rw(r))
			if r.op == OSlice {
				fmt.Println("     content", x.sliceContent(o.st, r))
			}
		}
		for m, v := range o.st.mem {
			fmt.Println("  mem", m, "=", o.st.f.rw(v))
		}
		for _, f := range o.st.f.allFacts() {
			fmt.Println("  fact", f)
		}
		for a, b := range o.st.f.sub {
			fmt.Println("  sub", a, "->", b)
		}
	}
	bad := map[string]string{}
	n := 0
	for _, l := range x.log {
		n++
		if !l.ok {
			bad[l.construct] = l.msg
		}
	}
	fmt.Println("bounds checks", n, "bad:", len(bad))
	for _, k := range sortedKeys(bad) {
		fmt.Println("  BAD", k, bad[k])
	}
	fmt.Println("steps", x.steps, "outs", len(outs), time.Since(t0), initNotes)
}

func (u undecided) Error() string { return u.msg }
