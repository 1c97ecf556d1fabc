package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	clients["C02"] = c02
	clients["C05"] = c05
}

// ctxLists finds the module's list-shaped Context implementations.
func ctxLists(w *World) []types.Type {
	ctxT := w.typ("", "Context")
	it := ctxT.Underlying().(*types.Interface)
	var out []types.Type
	for _, t := range w.implementers(it, nil) {
		if s, ok := t.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), ctxT) {
			out = append(out, t)
		}
	}
	return out
}

func closerFork(members func(v *Term) bool) func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
	return func(x *X, st *State, in *ssa.TypeAssert, v *Term) int { return -1 }
}

// listLoop analyses a method of a list-shaped context over a list of any
// length whose members behave arbitrarily: members must be visited in order.
func listLoop(r *Run, t types.Type, fn *ssa.Function, member, rule string, reverse, stopOnErr, optional bool) {
	nm := shortFn(fn)
	r.analyse(nm+" over any list", func(x *X) {
		st := newState()
		list := wrapT(mkAtom("list", t))
		n := lenOf(list)
		arr := list.args[0].args[0]
		st.assumeGe(n)
		if reverse {
			st.setG("next", linK(n, -1))
		} else {
			st.setG("next", tZero)
		}
		st.setG("first", tNil)
		st.setG("failed", tZero)
		args := []*Term{list}
		var term *Term
		if len(fn.Params) > 1 {
			term = tok("the-terminal")
			args = append(args, term)
		}
		idxOf := func(recv *Term) *Term {
			if recv.op == OApp && recv.name == "sel" && recv.args[0] == mkApp("content", nil, arr) {
				return recv.args[1]
			}
			return nil
		}
		// advance past skipped (non implementing) members
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if i := idxOf(v); i != nil && optional {
				return -1
			}
			return -1
		}
		step := int64(1)
		if reverse {
			step = -1
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if ci.method == nil || ci.method.Name() != member {
				return nil, false
			}
			i := idxOf(ci.recv)
			if i == nil {
				x.check(st, rule, nm+": member", false, ci.site.Pos(), "%s called on %v, which is not a member of the list", member, ci.recv)
				return nil, false
			}
			if optional {
				// members which do not implement the method may be skipped: order only
				ok := st.isTrue(mkGe0(linScale(linSub(i, st.g("next")), step)))
				x.check(st, rule, nm+": order", ok, ci.site.Pos(), "%s of member %v after member beyond %v", member, i, st.g("next"))
			} else {
				x.check(st, rule, nm+": order", st.eq(i, st.g("next")), ci.site.Pos(), "%s of member %v where %v is next", member, i, st.g("next"))
			}
			if stopOnErr {
				x.check(st, rule, nm+": stop at first failure", st.gInt("failed") == tZero, ci.site.Pos(), "%s of member %v after an earlier failure", member, i)
			}
			if term != nil {
				x.check(st, rule, nm+": passes the terminal", len(ci.args) == 1 && ci.args[0] == term, ci.site.Pos(), "%s given %v", member, ci.args)
			}
			st.setG("next", linK(i, step))
			a, b := st.fork(), st.fork()
			b.setG("failed", tOne)
			if b.g("first") == tNil {
				b.setG("first", tok("first error"))
				b.note("member %v fails first", i)
				return []Out{{st: a, ret: []*Term{tNil}}, {st: b, ret: []*Term{tok("first error")}}}, true
			}
			return []Out{{st: a, ret: []*Term{tNil}}, {st: b, ret: []*Term{tok("later error")}}}, true
		}
		for _, o := range x.exec(st, fn, args, nil) {
			x.check(o.st, rule, nm+": no panic", !o.panicked, fn.Pos(), "panics: %v", o.pv)
			if o.panicked {
				continue
			}
			end := n
			if reverse {
				end = mkInt(-1)
			}
			if !optional && !(stopOnErr && o.st.gInt("failed") == tOne) {
				x.check(o.st, rule, nm+": all members", o.st.eq(o.st.g("next"), end), fn.Pos(), "returns when the next member is %v of %v", o.st.g("next"), n)
			}
			x.check(o.st, rule, nm+": first error returned", o.st.f.rw(o.ret[0]) == o.st.g("first"), fn.Pos(), "returns %v, the first error is %v", o.ret[0], o.st.g("first"))
		}
	})
}

func c02(r *Run) {
	w := r.w
	r.rule("enter-order", "entering a composition enters its members in order and stops at the first failure, which it returns", 3)
	r.rule("exit-order", "exiting a composition exits every member in reverse order, even after failures, and returns the first failure", 3)
	r.rule("close-order", "closing a composition closes every closable member in reverse order, even after failures, and returns the first failure", 2)
	r.rule("compose", "composing drops nil contexts, flattens compositions and keeps the order of members", 20)
	r.rule("compose-alias", "composing never disturbs the members of the contexts it was given or of other compositions", 1)
	r.rule("builtin-order", "the terminal's own input, output, attribute and mode contexts come, in this order, before contexts added by the user", 2)
	r.rule("platform-workers", "list-shaped composites of background workers start in order and stop in reverse", 0)

	ctxT := w.typ("", "Context")
	lists := ctxLists(w)
	if len(lists) == 0 {
		panic(anchorErr{"no list-shaped Context implementation", false})
	}
	for _, t := range lists {
		listLoop(r, t, w.methodOf(t, "Enter"), "Enter", "enter-order", false, true, false)
		listLoop(r, t, w.methodOf(t, "Exit"), "Exit", "exit-order", true, false, false)
		cl := w.methodOf(t, "Close")
		if cl == nil {
			r.obl("close-order", t.String(), false, "", "composition has no Close: closable members are never closed")
			continue
		}
		listLoop(r, t, cl, "Close", "close-order", true, false, true)
		closeAll(r, t, cl)
	}

	// composition algebra over all operand shapes of up to 4 operands
	compose := w.fn("", "Contexts")
	mk := func(names ...string) []*Term {
		var out []*Term
		for _, n := range names {
			out = append(out, tok(n))
		}
		return out
	}
	type operand struct {
		kind string
		els  []*Term
	}
	shapes := func(i int) []operand {
		p := string(rune('a' + i))
		return []operand{{"nil", nil}, {p, mk(p)}, {"(" + p + "1," + p + "2)", mk(p+"1", p+"2")}}
	}
	var combos [][]operand
	var rec func(i, n int, cur []operand)
	rec = func(i, n int, cur []operand) {
		if i == n {
			combos = append(combos, append([]operand(nil), cur...))
			return
		}
		for _, s := range shapes(i) {
			rec(i+1, n, append(cur, s))
		}
	}
	for n := 0; n <= 4; n++ {
		rec(0, n, nil)
	}
	isMember := func(v *Term) bool { return v.op == OApp && v.name == "tok" }
	setup := func(x *X) {
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if isMember(v) {
				return 0
			}
			return -1
		}
	}
	call := func(x *X, st *State, els []*Term) []Out {
		return x.exec(st, compose, []*Term{x.elemSlice(st, ctxT, els...)}, nil)
	}
	r.analyse("Contexts over operand shapes", func(x *X) {
		setup(x)
		for _, c := range combos {
			st := newState()
			var ops, want []*Term
			var nm []string
			for _, o := range c {
				nm = append(nm, o.kind)
				want = append(want, o.els...)
				switch len(o.els) {
				case 0:
					ops = append(ops, tNil)
				case 1:
					ops = append(ops, o.els[0])
				default:
					outs := call(x, st, o.els)
					if len(outs) != 1 || outs[0].panicked {
						x.check(st, "compose", "inner", false, compose.Pos(), "composing two contexts has %d outcomes", len(outs))
						return
					}
					st = outs[0].st
					ops = append(ops, outs[0].ret[0])
				}
			}
			for _, o := range call(x, st, ops) {
				cn := "Contexts(" + strings.Join(nm, ", ") + ")"
				if o.panicked {
					x.check(o.st, "compose", cn, false, compose.Pos(), "panics")
					continue
				}
				got := ctxElems(x, o.st, o.ret[0])
				if len(got) == 1 && got[0] == tNil {
					got = nil
				}
				x.check(o.st, "compose", cn, fmtTerms(got) == fmtTerms(want), compose.Pos(), "composes to %v, want %v", fmtTerms(got), fmtTerms(want))
			}
		}
	})
	// sharing: two compositions extending a common one
	r.analyse("Contexts sharing a prefix", func(x *X) {
		setup(x)
		x.aliasAppend = true
		for n := 2; n <= 4; n++ {
			st := newState()
			base := mk("a", "b", "c", "d")[:n]
			one := func(st *State, els ...*Term) []Out { return call(x, st, els) }
			for _, o1 := range one(st, base...) {
				c := o1.ret[0]
				ext := [][]*Term{mk("p"), mk("p1", "p2")}
				for _, e := range ext {
					for _, o2 := range composeWith(one, o1.st, c, e) {
						d := o2.ret[0]
						want := ctxElems(x, o2.st, d)
						for _, o3 := range composeWith(one, o2.st, c, mk("q", "r")[:len(e)]) {
							got := ctxElems(x, o3.st, d)
							gotBase := ctxElems(x, o3.st, c)
							x.check(o3.st, "compose-alias", "Contexts extending one composition twice", fmtTerms(got) == fmtTerms(want) && fmtTerms(gotBase) == fmtTerms(base), compose.Pos(),
								"c := Contexts(%v); d := Contexts(c, %v) has members %v; after Contexts(c, %v) they are %v", fmtTerms(base), fmtTerms(e), fmtTerms(want), "q..", fmtTerms(got))
						}
					}
				}
			}
		}
	})
	// built-ins
	termT := w.typ("", "Term")
	fld := fieldsOfType(termT, func(v *types.Var) bool { return types.Identical(v.Type(), ctxT) })
	newTerm := w.fn("", "NewTerm")
	builtins := []string{"Input", "Output", "Attr", "Mode"}
	check := func(x *X, nm string, outs []Out, tm func(o Out) *Term, extra []*Term, pos *ssa.Function) {
		for _, o := range outs {
			if o.panicked {
				x.check(o.st, "builtin-order", nm, false, pos.Pos(), "panics")
				continue
			}
			t := tm(o)
			els := ctxElems(x, o.st, o.st.load(addrPath(t, mkFld(fld[0]))))
			var want []*Term
			for _, b := range builtins {
				i := fieldIdx(termT, b)
				want = append(want, mkIface(types.NewPointer(structOf(termT).Field(i).Type()), addrPath(t, mkFld(i))))
			}
			want = append(want, extra...)
			x.check(o.st, "builtin-order", nm, fmtTerms(els) == fmtTerms(want), pos.Pos(), "contexts %v, want %v", fmtTerms(els), fmtTerms(want))
		}
	}
	for n := 0; n <= 2; n++ {
		r.analyse(fmt.Sprintf("NewTerm with %d contexts", n), func(x *X) {
			setup(x)
			ex := mk("user1", "user2")[:n]
			st := newState()
			outs := x.exec(st, newTerm, []*Term{mkAtom("in", newTerm.Params[0].Type()), mkAtom("out", newTerm.Params[1].Type()), x.elemSlice(st, ctxT, ex...)}, nil)
			check(x, fmt.Sprintf("NewTerm with %d contexts", n), outs, func(o Out) *Term { return o.ret[0] }, ex, newTerm)
			for _, o := range outs {
				if o.panicked {
					continue
				}
				t := o.ret[0]
				fi := o.st.load(mkAddr(t.args[0], append(fieldPath(termT, "Input"), fieldPath(w.typ("", "Input"), "File")...)...))
				fo := o.st.load(mkAddr(t.args[0], append(fieldPath(termT, "Output"), fieldPath(w.typ("", "Output"), "File")...)...))
				x.check(o.st, "builtin-order", "NewTerm files", fi == mkAtom("in", newTerm.Params[0].Type()) && fo == mkAtom("out", newTerm.Params[1].Type()), newTerm.Pos(), "input file %v, output file %v", fi, fo)
			}
			// a further AddContext goes last
			add := w.fn("", "(*Term).AddContext")
			for _, o := range outs {
				if o.panicked {
					continue
				}
				t := o.ret[0]
				late := tok("late")
				st := o.st.fork()
				check(x, fmt.Sprintf("AddContext after NewTerm with %d contexts", n), x.exec(st, add, []*Term{t, x.elemSlice(st, ctxT, late)}, nil), func(Out) *Term { return t }, append(append([]*Term(nil), ex...), late), add)
			}
		})
	}
}

func composeWith(one func(st *State, els ...*Term) []Out, st *State, c *Term, e []*Term) []Out {
	if len(e) == 1 {
		return one(st.fork(), c, e[0])
	}
	var outs []Out
	for _, o := range one(st.fork(), e...) {
		outs = append(outs, one(o.st, c, o.ret[0])...)
	}
	return outs
}

// closeAll: on short lists with every closable / not closable pattern, all
// closable members are closed.
func closeAll(r *Run, t types.Type, fn *ssa.Function) {
	r.analyse(shortFn(fn)+" closes every closable member", func(x *X) {
		for n := 0; n <= 3; n++ {
			for m := 0; m < 1<<n; m++ {
				st := newState()
				var els []*Term
				for i := 0; i < n; i++ {
					els = append(els, tok(fmt.Sprintf("m%d", i)))
				}
				list := x.elemSlice(st, t.Underlying().(*types.Slice).Elem(), els...)
				idx := func(v *Term) int {
					for i, e := range els {
						if e == v {
							return i
						}
					}
					return -1
				}
				x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
					if i := idx(v); i >= 0 {
						return m >> i & 1
					}
					return -1
				}
				x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
					if ci.method == nil || ci.method.Name() != "Close" || idx(ci.recv) < 0 {
						return nil, false
					}
					st.setG("closed", mkStr(st.closedStr()+fmt.Sprint(idx(ci.recv))))
					return errChoice(st, "close error"), true
				}
				want := ""
				for i := n - 1; i >= 0; i-- {
					if m>>i&1 == 1 {
						want += fmt.Sprint(i)
					}
				}
				for _, o := range x.exec(st, fn, []*Term{list}, nil) {
					x.check(o.st, "close-order", shortFn(fn)+": every closable member", !o.panicked && o.st.closedStr() == want, fn.Pos(), "of %d members (closable mask %b) closes %q in order, want %q", n, m, o.st.closedStr(), want)
				}
			}
		}
	})
}
func (s *State) closedStr() string {
	if v := s.g("closed"); v != nil {
		return v.name
	}
	return ""
}

// c05: set/reset mode control.
func c05(r *Run) {
	w := r.w
	r.rule("set-on-enter", "entering writes exactly the accumulated set sequences to the terminal's output file", 1)
	r.rule("reset-on-exit", "exiting writes exactly the accumulated reset sequences to the terminal's output file", 1)
	r.rule("write-error", "a failed write is reported", 2)
	r.rule("pairing", "adding a mode appends its set sequence and prepends its reset sequence, leaving what was there intact", 3)
	r.rule("mode-seq", "a mode's set and reset sequences are the SM/RM (or private) control functions of the same number", 2)

	modeT := w.typ("", "Mode")
	termT := w.typ("", "Term")
	iSet, iReset := fieldIdx(modeT, "Set"), fieldIdx(modeT, "Reset")
	for _, dir := range []struct {
		name, rule string
		fld        int
	}{{"Enter", "set-on-enter", iSet}, {"Exit", "reset-on-exit", iReset}} {
		fn := w.methodOf(modeT, dir.name)
		r.analyse(shortFn(fn), func(x *X) {
			st := newState()
			tm := x.objWith(st, "term", termT, wrapT(mkAtom("term", termT)))
			md := x.objWith(st, "mode", modeT, wrapT(mkAtom("mode", modeT)))
			file := st.load(mkAddr(tm.args[0], append(fieldPath(termT, "Output"), fieldPath(w.typ("", "Output"), "File")...)...))
			want := st.load(addrPath(md, mkFld(dir.fld)))
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				if strings.HasPrefix(ci.name(), "(*os.File).Write") || ci.mname() == "Write" || ci.mname() == "WriteString" {
					recv := ci.recv
					data := ci.args[len(ci.args)-1]
					if recv == nil {
						recv = ci.args[0]
					}
					if recv.op == OIface {
						recv = recv.args[0]
					}
					x.check(st, dir.rule, shortFn(fn), st.eq(recv, file) && st.gInt("w") == tZero && (data == want || x.sliceContent(st, data) == x.sliceContent(st, want)), ci.site.Pos(),
						"writes %v to %v (earlier writes %v), want one write of %v to %v", data, recv, st.gInt("w"), want, file)
					st.setG("w", linK(st.gInt("w"), 1))
					a, b := st.fork(), st.fork()
					b.setG("werr", tOne)
					return []Out{{st: a, ret: []*Term{lenOf(data), tNil}}, {st: b, ret: []*Term{freshVal("n", types.Typ[types.Int]), tok("write error")}}}, true
				}
				return nil, false
			}
			for _, o := range x.exec(st, fn, []*Term{md, tm}, nil) {
				if o.panicked {
					x.check(o.st, dir.rule, shortFn(fn), false, fn.Pos(), "panics %v", o.pv)
					continue
				}
				nofile := o.st.isTrue(mkEqv(file, tNil))
				empty := o.st.isTrue(mkEq0(lenOf(want)))
				x.check(o.st, dir.rule, shortFn(fn)+": written", o.st.gInt("w") == tOne || nofile || empty, fn.Pos(), "returns without writing although there is an output file")
				x.check(o.st, "write-error", shortFn(fn), (o.st.decide(mkEqv(o.ret[0], tNil)) == 1) == (o.st.gInt("werr") == tZero), fn.Pos(), "returns %v when the write failed=%v", o.ret[0], o.st.gInt("werr"))
			}
		})
	}

	// pairing
	seqT := w.typ("ansi", "Seq")
	appendTo := w.methodOf(seqT, "AppendTo")
	byteT := types.Typ[types.Uint8]
	seqBytes := func(s *Term) *Term { return mkApp("bytes-of", types.Typ[types.String], s) }
	seqHook := func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn == appendTo {
			nci := *ci
			nci.fn = nil
			return x.appendAlias(st, ci.args[1], seqBytes(ci.args[0]), types.NewSlice(byteT)), true
		}
		if ci.fn != nil && ci.fn.Signature.Recv() != nil && types.Identical(ci.fn.Signature.Recv().Type(), seqT) && ci.fn.Name() == "String" {
			return ret(st, seqBytes(ci.args[0])), true
		}
		return nil, false
	}
	ansiMode := w.typ("ansi", "Mode")
	mSet, mReset := w.methodOf(ansiMode, "Set"), w.methodOf(ansiMode, "Reset")
	mkSeq := func(n string) *Term { return wrapT(mkAtom(n, seqT)) }
	type opCase struct {
		nm   string
		fn   *ssa.Function
		args func(x *X, st *State, tag string) (as []*Term, sets, resets []*Term)
	}
	cases := []opCase{
		{"AddModePair", w.methodOf(modeT, "AddModePair"), func(x *X, st *State, tag string) ([]*Term, []*Term, []*Term) {
			s, q := mkSeq("set"+tag), mkSeq("reset"+tag)
			return []*Term{s, q}, []*Term{seqBytes(s)}, []*Term{seqBytes(q)}
		}},
		{"AddModeSeq", w.methodOf(modeT, "AddModeSeq"), func(x *X, st *State, tag string) ([]*Term, []*Term, []*Term) {
			s, q := mkSeq("s1"+tag), mkSeq("s2"+tag)
			return []*Term{x.elemSlice(st, seqT, s, q)}, []*Term{seqBytes(s), seqBytes(q)}, []*Term{seqBytes(q), seqBytes(s)}
		}},
		{"AddMode", w.methodOf(modeT, "AddMode"), func(x *X, st *State, tag string) ([]*Term, []*Term, []*Term) {
			m1, m2 := mkAtom("m1"+tag, ansiMode), mkAtom("m2"+tag, ansiMode)
			f := func(k string, m *Term) *Term { return seqBytes(wrapT(mkApp("seq-"+k, seqT, m))) }
			return []*Term{x.elemSlice(st, ansiMode, m1, m2)}, []*Term{f("set", m1), f("set", m2)}, []*Term{f("reset", m2), f("reset", m1)}
		}},
	}
	for _, c := range cases {
		r.analyse(c.nm, func(x *X) {
			x.aliasAppend = true
			x.unrollSt = 4000
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				if ci.fn == mSet || ci.fn == mReset {
					k := "set"
					if ci.fn == mReset {
						k = "reset"
					}
					return ret(st, wrapT(mkApp("seq-"+k, seqT, ci.args[0]))), true
				}
				return seqHook(x, st, ci)
			}
			st := newState()
			md := x.objWith(st, "mode", modeT, wrapT(mkAtom("mode", modeT)))
			get := func(st *State, i int) *Term {
				return catNorm(st, x.sliceContent(st, st.load(addrPath(md, mkFld(i)))))
			}
			set0, reset0 := get(st, iSet), get(st, iReset)
			as1, s1, r1 := c.args(x, st, "")
			as2, s2, r2 := c.args(x, st, "'")
			for _, o := range x.exec(st, c.fn, append([]*Term{md}, as1...), nil) {
				if o.panicked {
					x.check(o.st, "pairing", c.nm, false, c.fn.Pos(), "panics")
					continue
				}
				seconds := []Out{o}
				if c.nm != "AddMode" {
					seconds = x.exec(o.st, c.fn, append([]*Term{md}, as2...), nil)
				} else {
					s2, r2 = nil, nil
				}
				for _, o := range seconds {
					if o.panicked {
						x.check(o.st, "pairing", c.nm, false, c.fn.Pos(), "panics")
						continue
					}
					str := func(ss []*Term) []*Term {
						var out []*Term
						for _, s := range ss {
							out = append(out, mkChunk(s, tZero, lenOf(s)))
						}
						return out
					}
					wantS := catNorm(o.st, mkCat(append(append([]*Term{set0}, str(s1)...), str(s2)...)))
					wantR := catNorm(o.st, mkCat(append(append(str(r2), str(r1)...), reset0)))
					gs, gr := get(o.st, iSet), get(o.st, iReset)
					x.check(o.st, "pairing", c.nm+": set appended", gs == wantS, c.fn.Pos(), "set bytes become %v, want %v", gs, wantS)
					x.check(o.st, "pairing", c.nm+": reset prepended", gr == wantR, c.fn.Pos(), "reset bytes become %v, want %v", gr, wantR)
				}
			}
		})
	}
	// the ansi modes
	modeSeqs(r)
}

// catNorm drops empty chunks under the facts.
func catNorm(st *State, c *Term) *Term {
	c = st.f.rw(c)
	if c.op != OCat {
		return c
	}
	var ps []*Term
	for _, p := range c.args {
		if p.op == OChunk && st.f.decide(mkEq0(p.args[2])) == 1 {
			continue
		}
		ps = append(ps, p)
	}
	return mkCat(ps)
}

func modeSeqs(r *Run) {
	w := r.w
	ansiMode := w.typ("ansi", "Mode")
	seqT := w.typ("ansi", "Seq")
	str := w.methodOf(seqT, "AppendTo")
	priv := w.constInt("ansi", "ModePrivate")
	for _, d := range []struct{ nm, fin string }{{"Set", "h"}, {"Reset", "l"}} {
		fn := w.methodOf(ansiMode, d.nm)
		// every declared mode constant
		sc := w.spkg[w.pkgPath("ansi")].Pkg.Scope()
		for _, cn := range sc.Names() {
			k, ok := sc.Lookup(cn).(*types.Const)
			if !ok || !types.Identical(k.Type(), ansiMode) || cn == "ModePrivate" {
				continue
			}
			v := w.constInt("ansi", cn)
			r.analyse(fmt.Sprintf("%s of %s", d.nm, cn), func(x *X) {
				st := newState()
				want := fmt.Sprintf("\x1b[%d%s", v, d.fin)
				if v&priv != 0 {
					want = fmt.Sprintf("\x1b[?%d%s", v&^priv, d.fin)
				}
				for _, o := range x.exec(st, fn, []*Term{mkInt(v)}, nil) {
					if o.panicked {
						x.check(o.st, "mode-seq", d.nm+" "+cn, false, fn.Pos(), "panics")
						continue
					}
					for _, o := range x.exec(o.st, str, []*Term{o.ret[0], tNil}, nil) {
						got := ""
						if !o.panicked {
							got = elemsStr(x.sliceContent(o.st, o.ret[0]))
						}
						x.check(o.st, "mode-seq", d.nm+" "+cn, got == want, fn.Pos(), "emits %q, want %q", got, want)
					}
				}
			})
		}
	}
}

// elemsStr renders fully known byte contents.
func elemsStr(c *Term) string {
	if c.op == OStr {
		return c.name
	}
	es, ok := catElems(c)
	if !ok {
		var sb strings.Builder
		if c.op == OCat {
			for _, p := range c.args {
				switch {
				case p.op == OElem && p.args[0].op == OConst:
					sb.WriteByte(byte(p.args[0].k))
				default:
					fmt.Fprintf(&sb, "<%v>", p)
				}
			}
			return sb.String()
		}
		return "<" + c.String() + ">"
	}
	var sb strings.Builder
	for _, e := range es {
		if e.op == OConst {
			sb.WriteByte(byte(e.k))
		} else {
			fmt.Fprintf(&sb, "<%v>", e)
		}
	}
	return sb.String()
}
