package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C01"] = c01 }

// c01: typestate of the Term / Context protocol. The abstract terminal states
// (valuations of the flags of Term) reachable from a fresh terminal are
// enumerated to a fixpoint by analysing RunWith / RunWithout / AddContext
// from each of them, with the context and every user function opaque.
func c01(r *Run) {
	w := r.w
	r.rule("enter-once", "RunWith on an inactive terminal attempts to enter the context exactly once, before anything else of the context", 1)
	r.rule("run-guarded", "the user function runs exactly once when the context was entered (or is already in the requested state), and never when entering or exiting it failed", 2)
	r.rule("exit-all-paths", "once entering was attempted the context is exited on every path out of RunWith: normal return, error, panic, failed enter", 1)
	r.rule("close-last", "a closable context is closed exactly once, after it was exited", 1)
	r.rule("first-error", "the first error (enter, function, exit, close in that order) is the one returned; panics propagate", 2)
	r.rule("direct", "when the terminal already is in the requested state the function runs directly, without touching the context", 2)
	r.rule("without-order", "RunWithout exits the context before the function and re-enters it afterwards only if the function returned nil", 1)
	r.rule("state-agrees", "inside and after every operation the terminal considers itself active exactly when its context is entered", 3)
	r.rule("add-under", "AddContext panics and changes nothing while under RunWith; otherwise keeps prior contexts first", 2)
	r.rule("term-arg", "context and user functions are given the terminal itself", 2)

	termT := w.typ("", "Term")
	ctxT := w.typ("", "Context")
	fld := fieldsOfType(termT, func(v *types.Var) bool { return types.Identical(v.Type(), ctxT) })
	if len(fld) != 1 {
		panic(anchorErr{"Term has no single Context field", false})
	}
	flags := fieldsOfType(termT, func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Basic)
		return ok && !v.Embedded()
	})
	with, without, addCtx := w.fn("", "(*Term).RunWith"), w.fn("", "(*Term).RunWithout"), w.fn("", "(*Term).AddContext")

	ctx := tok("the-context")
	cb := mkAtom("userfn", nil)
	type tstate struct {
		v       []*Term // flag values
		entered bool    // context entered
		depth   int
	}
	keyOf := func(s tstate) string { return fmt.Sprint(fmtTerms(s.v), s.entered) }
	readFlags := func(st *State, obj *Term) []*Term {
		var vs []*Term
		for _, i := range flags {
			vs = append(vs, st.load(addrPath(obj, mkFld(i))))
		}
		return vs
	}
	mkTerm := func(st *State, s tstate, c *Term) *Term {
		z := zeroVal(termT)
		na := append([]*Term(nil), z.args...)
		for k, i := range flags {
			na[i] = s.v[k]
		}
		na[fld[0]] = c
		o := newObj("term", termT)
		st.setMem(o, mkStruct(termT, na...))
		return mkAddr(o)
	}
	var zs []*Term
	for _, i := range flags {
		zs = append(zs, zeroVal(structOf(termT).Field(i).Type()))
	}
	s0 := tstate{v: zs}
	states := map[string]tstate{keyOf(s0): s0}
	under := map[string]bool{} // states seen inside a RunWith
	// after[k]: states the terminal can be left in by operations nested in a
	// callback that started in state k
	after := map[string]map[string]bool{keyOf(s0): {keyOf(s0): true}}
	changed := true
	addState := func(s tstate, isUnder bool) {
		k := keyOf(s)
		if _, ok := states[k]; !ok {
			states[k] = s
			after[k] = map[string]bool{k: true}
			changed = true
		}
		if isUnder && !under[k] {
			under[k] = true
			changed = true
		}
	}
	evName := func(op *ssa.Function, s tstate) string {
		if s.entered {
			return shortFn(op) + " while entered"
		}
		return shortFn(op) + " while not entered"
	}

	runOp := func(op *ssa.Function, s tstate, record bool) {
		nm := evName(op, s)
		r.analyse(nm, func(x *X) {
			chk := func(st *State, rule, c string, ok bool, pos ssa.Instruction, f string, a ...any) {
				if record {
					p := op.Pos()
					if pos != nil && pos.Pos().IsValid() {
						p = pos.Pos()
					}
					x.check(st, rule, nm+": "+c, ok, p, f, a...)
				}
			}
			st := newState()
			tm := mkTerm(st, s, ctx)
			direct := s.entered == (op == with)
			st.setG("in", mkBool(s.entered))
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				// user function
				if ci.fn == nil && ci.method == nil && ci.clos == cb {
					chk(st, "term-arg", "function", len(ci.args) == 1 && ci.args[0] == tm, ci.site, "function called with %v", ci.args)
					chk(st, "run-guarded", "once", st.gInt("cb") == tZero, ci.site, "function runs a second time")
					if direct {
						chk(st, "direct", "no context calls", st.gInt("enter") == tZero && st.gInt("exit") == tZero, ci.site, "context touched before a direct run")
					} else if op == with {
						chk(st, "run-guarded", "entered before run", st.gInt("enter") == tOne && st.g("entererr") == tNil && st.gInt("exit") == tZero, ci.site, "function runs although the context is not entered (enters %v, result %v, exits %v)", st.gInt("enter"), st.g("entererr"), st.gInt("exit"))
					} else {
						chk(st, "without-order", "exit before run", st.gInt("exit") == tOne && st.g("exiterr") == tNil && st.gInt("enter") == tZero, ci.site, "function runs before the context was exited successfully")
					}
					st.setG("cb", linK(st.gInt("cb"), 1))
					in := st.g("in") == tTrue
					ns := tstate{v: readFlags(st, tm), entered: in}
					addState(ns, op == with || under[keyOf(s)])
					var outs []Out
					for _, k := range sortedKeys(after[keyOf(ns)]) {
						as := states[k]
						set := func(c *State) *State {
							for j, i := range flags {
								c.store(addrPath(tm, mkFld(i)), as.v[j])
							}
							c.setG("in", mkBool(as.entered))
							c.setG("cbend", mkBool(as.entered))
							return c
						}
						a := set(st.fork())
						a.setG("cberr", tNil)
						a.note("function returns nil, context entered=%v", as.entered)
						b := set(st.fork())
						b.setG("cberr", tok("function error"))
						b.note("function returns an error, context entered=%v", as.entered)
						c := set(st.fork())
						c.setG("cberr", tok("panic"))
						c.note("function panics, context entered=%v", as.entered)
						outs = append(outs, Out{st: a, ret: []*Term{tNil}}, Out{st: b, ret: []*Term{tok("function error")}},
							Out{st: c, panicked: true, pv: tok("user panic")})
					}
					return outs, true
				}
				if ci.method != nil && ci.recv == ctx {
					switch ci.method.Name() {
					case "Enter":
						chk(st, "term-arg", "Enter", len(ci.args) == 1 && ci.args[0] == tm, ci.site, "Enter called with %v", ci.args)
						if op == with {
							chk(st, "enter-once", "Enter", st.gInt("enter") == tZero && st.gInt("exit") == tZero && !direct, ci.site, "context entered again (enters so far %v, exits %v)", st.gInt("enter"), st.gInt("exit"))
						} else {
							chk(st, "without-order", "re-enter", !direct && st.gInt("cb") == tOne && st.g("cberr") == tNil && st.gInt("enter") == tZero, ci.site, "context re-entered although the function has not returned nil")
						}
						st.setG("enter", linK(st.gInt("enter"), 1))
						var outs []Out
						for _, o := range errChoice(st, "enter error") {
							o.st.setG("entererr", o.ret[0])
							if o.ret[0] == tNil {
								o.st.setG("in", tTrue)
							}
							o.st.note("context Enter returns %v", o.ret[0])
							outs = append(outs, o)
						}
						p := st.fork()
						p.setG("entererr", tok("panic"))
						return append(outs, Out{st: p, panicked: true, pv: tok("user panic")}), true
					case "Exit":
						chk(st, "term-arg", "Exit", len(ci.args) == 1 && ci.args[0] == tm, ci.site, "Exit called with %v", ci.args)
						if op == with {
							chk(st, "exit-all-paths", "Exit after Enter", st.gInt("enter") == tOne && st.gInt("exit") == tZero && st.gInt("close") == tZero, ci.site, "context exited out of order (enters %v, exits %v, closes %v)", st.gInt("enter"), st.gInt("exit"), st.gInt("close"))
						} else {
							chk(st, "without-order", "exit first", !direct && st.gInt("exit") == tZero && st.gInt("cb") == tZero, ci.site, "context exited out of order")
						}
						st.setG("exit", linK(st.gInt("exit"), 1))
						var outs []Out
						for _, o := range errChoice(st, "exit error") {
							o.st.setG("exiterr", o.ret[0])
							// a context whose Exit failed is in an unknown state; the protocol treats
							// it as exited at the end of RunWith and as still entered in RunWithout
							o.st.setG("in", mkBool(op == without && o.ret[0] != tNil))
							o.st.note("context Exit returns %v", o.ret[0])
							outs = append(outs, o)
						}
						return outs, true
					case "Close":
						chk(st, "close-last", "Close after Exit", op == with && st.gInt("exit") == tOne && st.gInt("close") == tZero, ci.site, "context closed out of order (exits %v, closes %v)", st.gInt("exit"), st.gInt("close"))
						st.setG("close", linK(st.gInt("close"), 1))
						var outs []Out
						for _, o := range errChoice(st, "close error") {
							o.st.setG("closeerr", o.ret[0])
							o.st.note("context Close returns %v", o.ret[0])
							outs = append(outs, o)
						}
						return outs, true
					}
				}
				return nil, false
			}
			x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
				if v == ctx && st.g("closer") != nil {
					if st.g("closer") == tTrue {
						return 1
					}
					return 0
				}
				return -1
			}
			var outs []Out
			for _, closer := range []*Term{tTrue, tFalse} {
				c := st.fork()
				c.setG("closer", closer)
				outs = append(outs, x.exec(c, op, []*Term{tm, cb}, nil)...)
			}
			for _, o := range outs {
				st := o.st
				pan := o.panicked
				cbran := st.gInt("cb") == tOne
				isT := func(k, v string) bool { return st.g(k) == tok(v) }
				if direct {
					chk(st, "direct", "no context calls", cbran && st.gInt("enter") == tZero && st.gInt("exit") == tZero && st.gInt("close") == tZero, nil, "context touched although the terminal already is in the requested state")
				} else if op == with {
					chk(st, "enter-once", "entered", st.gInt("enter") == tOne, nil, "context never entered")
					chk(st, "exit-all-paths", "exited", st.gInt("exit") == tOne, nil, "context not exited on a path (panicking=%v, enter result %v, function ran=%v)", pan, st.g("entererr"), cbran)
					chk(st, "close-last", "closed", (st.gInt("close") == tOne) == (st.g("closer") == tTrue), nil, "closable=%v context closed %v times", st.g("closer"), st.gInt("close"))
					chk(st, "run-guarded", "run when entered", cbran == (st.g("entererr") == tNil), nil, "function ran=%v with enter result %v", cbran, st.g("entererr"))
				} else {
					chk(st, "without-order", "exited", st.gInt("exit") == tOne, nil, "context not exited")
					chk(st, "run-guarded", "run when exited", cbran == (st.g("exiterr") == tNil), nil, "function ran=%v with exit result %v", cbran, st.g("exiterr"))
					chk(st, "without-order", "re-entered iff nil", (st.gInt("enter") == tOne) == (cbran && st.g("cberr") == tNil), nil, "context re-entered=%v with function result %v", st.gInt("enter"), st.g("cberr"))
				}
				// result
				wantPanic := isT("entererr", "panic") || isT("cberr", "panic")
				chk(st, "first-error", "panic propagates", pan == wantPanic, nil, "panicking=%v, expected %v", pan, wantPanic)
				if pan {
					chk(st, "first-error", "panic value", o.pv == tok("user panic"), nil, "panic value %v", o.pv)
				} else {
					want := tNil
					order := []string{"entererr", "cberr", "exiterr", "closeerr"}
					if op == without {
						order = []string{"exiterr", "cberr", "entererr"}
					}
					for _, k := range order {
						if v := st.g(k); v != nil && v != tNil {
							want = v
							break
						}
					}
					chk(st, "first-error", "result", len(o.ret) == 1 && st.f.rw(o.ret[0]) == want, nil, "returns %v, the first error is %v", o.ret, want)
				}
				// terminal state afterwards
				in := st.g("in") == tTrue
				ns := tstate{v: readFlags(st, tm), entered: in}
				if op == with && !direct {
					chk(st, "state-agrees", "state restored", keyOf(ns) == keyOf(tstate{v: s.v}), nil, "terminal flags %v before, %v after", fmtTerms(s.v), fmtTerms(ns.v))
				}
				if !pan {
					k, nk := keyOf(s), keyOf(ns)
					addState(ns, under[k])
					if !after[k][nk] {
						after[k][nk] = true
						changed = true
					}
				}
				chk(st, "state-agrees", "context unchanged", st.load(addrPath(tm, mkFld(fld[0]))) == ctx, nil, "context replaced")
			}
		})
	}
	for n := 0; changed && n < 8; n++ {
		changed = false
		// transitive closure of nested operations
		for _, k := range sortedKeys(states) {
			runOp(with, states[k], false)
			runOp(without, states[k], false)
		}
		for _, k := range sortedKeys(after) {
			for m := range after[k] {
				for l := range after[m] {
					if !after[k][l] {
						after[k][l] = true
						changed = true
					}
				}
			}
		}
		if len(states) > 16 {
			r.obl("state-agrees", "terminal states", false, "", "terminal has %d distinct flag states: %v", len(states), sortedKeys(states))
			return
		}
	}
	for _, k := range sortedKeys(states) {
		runOp(with, states[k], true)
		runOp(without, states[k], true)
	}
	// each flag valuation is consistent with one entered-ness
	byV := map[string]map[bool]bool{}
	for _, s := range states {
		k := fmtTerms(s.v)
		if byV[k] == nil {
			byV[k] = map[bool]bool{}
		}
		byV[k][s.entered] = true
	}
	r.obl("state-agrees", "flags determine the context state", func() bool {
		for _, m := range byV {
			if len(m) != 1 {
				return false
			}
		}
		return true
	}(), "", "the same terminal flags are reached with the context entered and not entered: %v", sortedKeys(states))
	r.notes = append(r.notes, fmt.Sprintf("reachable terminal states (flags, context entered): %s", strings.Join(sortedKeys(states), " ")))

	// AddContext
	for _, k := range sortedKeys(states) {
		s := states[k]
		nm := "AddContext while under RunWith"
		if !under[k] {
			nm = "AddContext outside RunWith"
		}
		r.analyse(nm, func(x *X) {
			st := newState()
			tm := mkTerm(st, s, ctx)
			extra := tok("extra-context")
			x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
				if v == ctx || v == extra {
					return 0
				}
				return -1
			}
			outs := x.exec(st, addCtx, []*Term{tm, x.elemSlice(st, ctxT, extra)}, nil)
			for _, o := range outs {
				c := o.st.load(addrPath(tm, mkFld(fld[0])))
				if under[k] {
					x.check(o.st, "add-under", nm, o.panicked && c == ctx, addCtx.Pos(), "AddContext under RunWith: panics=%v, context %v", o.panicked, c)
				} else {
					els := ctxElems(x, o.st, c)
					x.check(o.st, "add-under", nm, !o.panicked && len(els) == 2 && els[0] == ctx && els[1] == extra, addCtx.Pos(), "resulting contexts %v", fmtTerms(els))
				}
			}
		})
	}
}

// ctxElems lists the members of a composed context value.
func ctxElems(x *X, st *State, c *Term) []*Term {
	c = st.f.rw(c)
	if c.op == OIface {
		if s := c.args[0]; s.op == OSlice {
			cc := x.sliceContent(st, s)
			if es, ok := catElems(cc); ok {
				return es
			}
			return []*Term{cc}
		}
	}
	return []*Term{c}
}

// catElems flattens fully known slice contents.
func catElems(c *Term) ([]*Term, bool) {
	switch c.op {
	case OStruct:
		return c.args, true
	case OCat:
		var out []*Term
		for _, p := range c.args {
			if p.op == OElem {
				out = append(out, p.args[0])
				continue
			}
			if p.op == OChunk {
				es, ok := catElems(p.args[0])
				if !ok || p.args[1].op != OConst || p.args[2].op != OConst {
					return nil, false
				}
				lo, n := p.args[1].k, p.args[2].k
				if lo+n > int64(len(es)) {
					return nil, false
				}
				out = append(out, es[lo:lo+n]...)
				continue
			}
			return nil, false
		}
		return out, true
	}
	return nil, false
}
