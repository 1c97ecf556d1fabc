package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	clients["C03"] = c03
	clients["C04"] = c04
}

// xop is one operation of an exploration over reachable object states.
type xop struct {
	name string
	run  func(st *State) []*State // states after the operation
}

// exploreOps runs every operation from every reachable canonical state until
// no new one appears. canon rebuilds a fresh state from one an operation left.
func exploreOps(r *Run, x *X, init []*State, ops func(st *State) []xop, canon func(st *State) (*State, string), max int) int {
	seen := map[string]bool{}
	var work []*State
	push := func(st *State) {
		c, k := canon(st)
		if seen[k] {
			return
		}
		if len(seen) >= max {
			x.fail("more than %d reachable object states; last: %s", max, k)
		}
		seen[k] = true
		work = append(work, c)
	}
	for _, s := range init {
		push(s)
	}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, o := range ops(s) {
			for _, n := range o.run(s.fork()) {
				push(n)
			}
		}
	}
	return len(seen)
}

// errnoFork models a system call that succeeds or fails.
func errnoFork(st *State, okRet *Term, eT types.Type) (ok, bad *State, okR, badR []*Term) {
	return st.fork(), st.fork(), []*Term{okRet, tZero, tZero}, []*Term{mkInt(-1), tZero, mkInt(5)}
}

const (
	tcgets, tcsets, tiocgwinsz = 0x5401, 0x5402, 0x5413
	fGetfl, fSetfl, fSetown    = 3, 4, 8
	oNonblock, oAsync          = 0x800, 0x2000
	sysFcntl, sysIoctl         = 72, 16
)

func isConst(t *Term, k int64) bool { return t != nil && t.op == OConst && t.k == k }

func c03(r *Run) {
	w := r.w
	r.rule("restore", "leaving writes back exactly the attributes found when entering", 2)
	r.rule("apply", "while entered, the attributes in force are the recorded ones with exactly the raw and echo settings applied", 8)
	r.rule("set-before-enter", "settings made while not entered touch no device and take effect on entering", 4)
	r.rule("errors", "a failed attribute call is reported, a successful one is not", 4)
	r.rule("own-file", "only the terminal's output file is touched", 1)
	r.rule("reenter", "entering again records and restores the attributes found then", 1)
	r.rule("query", "size and is-a-terminal answers come from the device: columns and rows unswapped, a failing query is no terminal", 3)

	attrT := w.typ("", "Attr")
	termT := w.typ("", "Term")
	enter, exit := w.methodOf(attrT, "Enter"), w.methodOf(attrT, "Exit")
	setRaw, setEcho := w.methodOf(attrT, "SetRaw"), w.methodOf(attrT, "SetEcho")
	size, isTerm := w.methodOf(attrT, "Size"), w.methodOf(attrT, "IsTerminal")
	for n, f := range map[string]*ssa.Function{"Enter": enter, "Exit": exit, "SetRaw": setRaw, "SetEcho": setEcho, "Size": size, "IsTerminal": isTerm} {
		if f == nil {
			panic(anchorErr{"Attr." + n + " not found", true})
		}
	}
	sc := w.spkg["syscall"].Pkg.Scope()
	tioT := sc.Lookup("Termios").Type()
	kern := func(n string) *Term { return wrapT(mkAtom(n, tioT)) }
	flagIdx := func(n string) int { return fieldIdx(tioT, n) }
	type bits struct{ clear, set int64 }
	// the raw mode table: what raw mode means, from termios(3) and attr.go's
	// documentation
	rawBits := map[string]bits{
		"Iflag": {0x0002 | 0x0100 | 0x0010 | 0x0020 | 0x0400, 0},
		"Oflag": {0x0001, 0},
		"Cflag": {0x0030 | 0x0100, 0x0030},
		"Lflag": {0x0008 | 0x0002 | 0x8000 | 0x0001, 0},
	}
	const echoBit, vmin, vtime = 0x0008, 6, 5
	u32 := types.Typ[types.Uint32]
	// want gives the attributes in force for a base and settings.
	want := func(base *Term, raw, echo bool) *Term {
		v := base
		st := newState()
		get := func(i int) *Term { return fieldOf(v, i, fieldType(tioT, i)) }
		set := func(i int, nv *Term) { v = st.setPath(v, tioT, []*Term{mkFld(i)}, nv) }
		mask := func(i int, clear, on int64) {
			bs := toBits(get(i), 32, 32, false)
			for b := 0; b < 32; b++ {
				if on>>b&1 == 1 {
					bs[b] = bit1
				} else if clear>>b&1 == 1 {
					bs[b] = bit0
				}
			}
			set(i, fromBits(bs, false))
		}
		_ = u32
		if raw {
			for _, n := range sortedKeys(rawBits) {
				mask(flagIdx(n), rawBits[n].clear, rawBits[n].set)
			}
			ci := flagIdx("Cc")
			v = st.setPath(v, tioT, []*Term{mkFld(ci), mkInt(vmin)}, mkInt(1))
			v = st.setPath(v, tioT, []*Term{mkFld(ci), mkInt(vtime)}, mkInt(0))
		}
		if echo {
			mask(flagIdx("Lflag"), 0, echoBit)
		} else {
			mask(flagIdx("Lflag"), echoBit, 0)
		}
		return v
	}
	// same compares attribute structures field by field (control characters
	// index by index); "" when equal.
	same := func(st *State, a, b *Term) string {
		s := structOf(tioT)
		for i := 0; i < s.NumFields(); i++ {
			fa, fb := fieldOf(a, i, s.Field(i).Type()), fieldOf(b, i, s.Field(i).Type())
			if arr, ok := s.Field(i).Type().Underlying().(*types.Array); ok {
				for k := int64(0); k < arr.Len(); k++ {
					ea, eb := selTerm(fa, mkInt(k), arr.Elem(), st), selTerm(fb, mkInt(k), arr.Elem(), st)
					if !st.eq(ea, eb) {
						return fmt.Sprintf("%s[%d] is %v, want %v", s.Field(i).Name(), k, ea, eb)
					}
				}
				continue
			}
			if !st.eq(fa, fb) {
				return fmt.Sprintf("%s is %v, want %v", s.Field(i).Name(), fa, fb)
			}
		}
		return ""
	}
	file := tok("output-file")
	hook := func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		switch ci.name() {
		case "(*os.File).Fd":
			return ret(st, mkApp("fd", types.Typ[types.Uintptr], ci.args[0])), true
		case "syscall.Syscall6", "syscall.Syscall":
			fdOK := ci.args[1] == mkApp("fd", types.Typ[types.Uintptr], file)
			x.check(st, "own-file", "device calls", isConst(ci.args[0], sysIoctl) && fdOK, ci.site.Pos(), "system call %v on %v", ci.args[0], ci.args[1])
			st.setG("calls", linK(st.gInt("calls"), 1))
			okS, badS, okR, badR := errnoFork(st, tZero, nil)
			badS.setG("failed", tOne)
			req, p := ci.args[2], ci.args[3]
			if st.gInt("nofail") == tOne {
				badS = nil
			}
			switch {
			case isConst(req, tcgets):
				okS.store(p, st.g("kern"))
				okS.setG("recorded", st.g("kern"))
			case isConst(req, tcsets):
				v := st.load(p)
				okS.setG("kern", v)
				okS.setG("wrote", linK(st.gInt("wrote"), 1))
				if badS != nil {
					badS.setG("badwrite", tOne)
				}
			case isConst(req, tiocgwinsz):
				okS.havoc(p, "winsize", 0)
				ws := okS.load(p)
				if ws.op != OStruct && structOf(contentType(p.args[0])) == nil {
					x.fail("window size structure %v", ws)
				}
				okS.setG("wsrow", okS.load(addrPath(p, mkFld(0))))
				okS.setG("wscol", okS.load(addrPath(p, mkFld(1))))
			default:
				x.check(st, "own-file", "device calls", false, ci.site.Pos(), "unknown device request %v", req)
			}
			outs := []Out{{st: okS, ret: okR}}
			if badS != nil {
				badS.note("the device call fails")
				outs = append(outs, Out{st: badS, ret: badR})
			}
			return outs, true
		}
		return nil, false
	}
	isNil := func(o Out) bool { return o.st.decide(mkEqv(o.ret[len(o.ret)-1], tNil)) == 1 }
	errCheck := func(x *X, nm string, o Out, fn *ssa.Function) {
		x.check(o.st, "errors", nm, o.st.decide(mkEqv(o.ret[len(o.ret)-1], tNil)) != -1 && isNil(o) == (o.st.gInt("failed") == tZero), fn.Pos(), "returns %v when a device call failed=%v", o.ret[len(o.ret)-1], o.st.gInt("failed"))
	}

	r.analyse("Attr: reachable states", func(x *X) {
		x.h.call = hook
		st0 := newState()
		at := x.objWith(st0, "attr", attrT, zeroVal(attrT))
		outF := append(fieldPath(termT, "Output"), fieldPath(w.typ("", "Output"), "File")...)
		tm := x.objWith(st0, "term", termT, wrapT(mkAtom("term", termT)))
		st0.store(mkAddr(tm.args[0], outF...), file)
		st0.assume(mkEqv(file, tNil), false)
		st0.setG("kern", kern("attributes-1"))
		st0.setG("raw", tFalse)
		st0.setG("echo", tFalse)
		st0.setG("in", tFalse)
		st0.setG("dirty", tFalse)
		st0.setG("orig", tNil)
		flip := func(t *Term) *Term {
			if t == kern("attributes-1") {
				return kern("attributes-2")
			}
			return kern("attributes-1")
		}
		keep := []string{"kern", "raw", "echo", "in", "dirty", "orig"}
		canon := func(st *State) (*State, string) {
			c := newState()
			v := st.load(at)
			o := at.args[0]
			c.setMem(o, v)
			c.setMem(tm.args[0], st0.mem1(tm.args[0]))
			c.assume(mkEqv(file, tNil), false)
			k := v.String()
			for _, g := range keep {
				c.setG(g, st.g(g))
				k += " " + g + "=" + st.g(g).String()
			}
			k += fmt.Sprint(v.id)
			for _, g := range keep {
				k += fmt.Sprint(" ", st.g(g).id)
			}
			return c, k
		}
		tv := func(st *State, g string) bool { return st.g(g) == tTrue }
		ops := func(s *State) []xop {
			var out []xop
			in := tv(s, "in")
			if !in {
				out = append(out, xop{"Enter", func(st *State) []*State {
					base := st.g("kern")
					nm := "Enter"
					if tv(st, "raw") {
						nm += " raw"
					}
					if tv(st, "echo") {
						nm += " echo"
					}
					var res []*State
					for _, o := range x.exec(st, enter, []*Term{at, tm}, nil) {
						if o.panicked {
							x.check(o.st, "apply", nm, false, enter.Pos(), "panics")
							continue
						}
						errCheck(x, nm, o, enter)
						if isNil(o) {
							d := same(o.st, o.st.g("kern"), want(base, tv(o.st, "raw"), tv(o.st, "echo")))
							x.check(o.st, "apply", nm, d == "" && o.st.gInt("wrote") == tOne, enter.Pos(), "after entering, %s (writes %v)", d, o.st.gInt("wrote"))
							o.st.setG("in", tTrue)
							o.st.setG("orig", base)
							res = append(res, o.st)
							continue
						}
						// a failed enter is followed by an exit; unless attributes were
						// recorded it must write none
						rec := o.st.g("recorded") != nil
						if rec {
							o.st.setG("in", tTrue)
							o.st.setG("orig", base)
							o.st.setG("dirty", tTrue)
							res = append(res, o.st)
							continue
						}
						x.check(o.st, "restore", "Enter that recorded nothing", o.st.gInt("wrote") == tZero && o.st.gInt("badwrite") == tZero, enter.Pos(), "attributes written although none could be recorded")
						n := o.st.fork()
						n.setG("failed", tZero)
						n.setG("calls", tZero)
						for _, o2 := range x.exec(n, exit, []*Term{at, tm}, nil) {
							x.check(o2.st, "restore", "Exit after an Enter that recorded nothing", !o2.panicked && o2.st.gInt("wrote") == tZero && o2.st.gInt("badwrite") == tZero, exit.Pos(), "attributes that were never recorded are written to the terminal")
							res = append(res, o2.st)
						}
					}
					return res
				}})
			}
			if in {
				out = append(out, xop{"Exit", func(st *State) []*State {
					base := st.g("orig")
					var res []*State
					for _, o := range x.exec(st, exit, []*Term{at, tm}, nil) {
						if o.panicked {
							x.check(o.st, "restore", "Exit", false, exit.Pos(), "panics")
							continue
						}
						errCheck(x, "Exit", o, exit)
						if !isNil(o) {
							continue
						}
						d := same(o.st, o.st.g("kern"), base)
						x.check(o.st, "restore", "Exit", d == "", exit.Pos(), "after leaving, %s", d)
						if base != kern("attributes-1") {
							x.check(o.st, "reenter", "second Enter and Exit", d == "", exit.Pos(), "after leaving again, %s", d)
						}
						// anything else may change the attributes meanwhile
						o.st.setG("kern", flip(base))
						o.st.setG("in", tFalse)
						o.st.setG("orig", tNil)
						o.st.setG("dirty", tFalse)
						res = append(res, o.st)
					}
					return res
				}})
			}
			for _, b := range []*Term{tTrue, tFalse} {
				for _, q := range []struct {
					nm, g string
					fn    *ssa.Function
				}{{"SetRaw", "raw", setRaw}, {"SetEcho", "echo", setEcho}} {
					nm := fmt.Sprintf("%s(%v)", q.nm, b == tTrue)
					out = append(out, xop{nm, func(st *State) []*State {
						var res []*State
						k0 := st.g("kern")
						noop := st.g(q.g) == b
						st.setG(q.g, b)
						for _, o := range x.exec(st, q.fn, []*Term{at, b}, nil) {
							if o.panicked {
								x.check(o.st, "apply", nm, false, q.fn.Pos(), "panics")
								continue
							}
							errCheck(x, nm, o, q.fn)
							if !in {
								x.check(o.st, "set-before-enter", nm, o.st.gInt("calls") == tZero && o.st.g("kern") == k0, q.fn.Pos(), "the device is touched although the terminal is not entered")
							} else if isNil(o) && o.st.g("dirty") == tFalse || isNil(o) && o.st.gInt("wrote") == tOne {
								d := same(o.st, o.st.g("kern"), want(o.st.g("orig"), tv(o.st, "raw"), tv(o.st, "echo")))
								x.check(o.st, "apply", nm+" while entered", d == "", q.fn.Pos(), "%s", d)
								if o.st.gInt("wrote") == tOne {
									o.st.setG("dirty", tFalse)
								}
							} else if !isNil(o) {
								o.st.setG("dirty", tTrue)
							}
							_ = noop
							res = append(res, o.st)
						}
						return res
					}})
				}
			}
			return out
		}
		n := exploreOps(r, x, []*State{st0}, ops, canon, 3000)
		r.notes = append(r.notes, fmt.Sprintf("%d reachable states of terminal attribute handling explored", n))
	})

	r.analyse("Attr.Size", func(x *X) {
		x.h.call = hook
		st := newState()
		at := sizeAttr(x, w, st, attrT, file, tm0(x, st, w, file), enter)
		for _, a := range at {
			for _, o := range x.exec(a.st, size, []*Term{a.ret[0]}, nil) {
				if o.panicked {
					x.check(o.st, "query", "Size", false, size.Pos(), "panics")
					continue
				}
				errCheck(x, "Size", o, size)
				row, col := o.st.g("wsrow"), o.st.g("wscol")
				if !isNil(o) || row == nil {
					x.check(o.st, "query", "Size failure", !isNil(o), size.Pos(), "size reported without asking the device")
					continue
				}
				px, py := fieldOf(o.ret[0], 0, types.Typ[types.Int]), fieldOf(o.ret[0], 1, types.Typ[types.Int])
				x.check(o.st, "query", "Size", o.st.eq(px, col) && o.st.eq(py, row), size.Pos(), "size (%v, %v), the device has %v columns and %v rows", px, py, col, row)
			}
			for _, o := range x.exec(a.st, isTerm, []*Term{a.ret[0]}, nil) {
				if o.panicked {
					x.check(o.st, "query", "IsTerminal", false, isTerm.Pos(), "panics")
					continue
				}
				x.check(o.st, "query", "IsTerminal", o.st.decide(o.ret[0]) == btoi(o.st.gInt("failed") == tZero), isTerm.Pos(), "answers %v when the query failed=%v", o.ret[0], o.st.gInt("failed"))
			}
		}
	})
	r.analyse("Term.IsTerminal", func(x *X) {
		fn := w.tryFn("", "(*Term).IsTerminal")
		pf := w.fn("", "IsTerminal")
		if fn == nil {
			panic(anchorErr{"(*Term).IsTerminal not found", true})
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if ci.fn == pf {
				a, b := st.fork(), st.fork()
				a.setG("yes:"+ci.args[0].String(), tTrue)
				b.setG("no", tTrue)
				return []Out{{st: a, ret: []*Term{tTrue}}, {st: b, ret: []*Term{tFalse}}}, true
			}
			return nil, false
		}
		st := newState()
		tm := x.objWith(st, "term", termT, wrapT(mkAtom("term", termT)))
		fin := st.load(mkAddr(tm.args[0], append(fieldPath(termT, "Input"), fieldPath(w.typ("", "Input"), "File")...)...))
		fout := st.load(mkAddr(tm.args[0], append(fieldPath(termT, "Output"), fieldPath(w.typ("", "Output"), "File")...)...))
		for _, o := range x.exec(st, fn, []*Term{tm}, nil) {
			yes := o.st.g("yes:"+fin.String()) != nil && o.st.g("yes:"+fout.String()) != nil
			x.check(o.st, "query", "Term.IsTerminal", !o.panicked && o.st.decide(o.ret[0]) == btoi(yes && o.st.g("no") == nil), fn.Pos(), "answers %v", o.ret)
		}
	})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func tm0(x *X, st *State, w *World, file *Term) *Term {
	termT := w.typ("", "Term")
	tm := x.objWith(st, "term", termT, wrapT(mkAtom("term", termT)))
	st.store(mkAddr(tm.args[0], append(fieldPath(termT, "Output"), fieldPath(w.typ("", "Output"), "File")...)...), file)
	st.assume(mkEqv(file, tNil), false)
	return tm
}

// sizeAttr gives attribute handling of an entered terminal: by pointer or value
// as the methods want it.
func sizeAttr(x *X, w *World, st *State, attrT types.Type, file, tm *Term, enter *ssa.Function) []Out {
	at := x.objWith(st, "attr", attrT, zeroVal(attrT))
	st.setG("nofail", tOne)
	st.setG("kern", wrapT(mkAtom("attributes-1", w.spkg["syscall"].Pkg.Scope().Lookup("Termios").Type())))
	size := w.methodOf(attrT, "Size")
	var outs []Out
	for _, o := range x.exec(st, enter, []*Term{at, tm}, nil) {
		if o.panicked {
			continue
		}
		o.st.setG("nofail", tZero)
		o.st.setG("failed", tZero)
		v := at
		if _, ok := size.Params[0].Type().Underlying().(*types.Pointer); !ok {
			v = o.st.load(at)
		}
		outs = append(outs, Out{st: o.st, ret: []*Term{v}})
	}
	return outs
}

func c04(r *Run) {
	w := r.w
	r.rule("restore", "leaving sets the input file's flags to exactly what they were on entering", 2)
	r.rule("exact-change", "switching non-blocking reads or notification changes exactly that flag of the input file", 4)
	r.rule("input-file", "only the input file's flags are touched", 1)
	r.rule("errors", "a failed flag call is reported, a successful one is not", 4)
	r.rule("flush-direct", "a flush that does not block leaves the output file's flags alone and returns the write's error", 1)
	r.rule("flush-block", "a flush that would block clears exactly the non-blocking flag, writes the rest, and restores the flags whatever the write did", 2)
	r.rule("flush-error", "the first error of flags, write, restoring is the one returned", 2)
	r.rule("flush-count", "the flushed count is the number of bytes written by all writes of the flush", 1)

	inT, outT, termT := w.typ("", "Input"), w.typ("", "Output"), w.typ("", "Term")
	must := func(t types.Type, n string) *ssa.Function {
		f := w.methodOf(t, n)
		if f == nil {
			panic(anchorErr{types.TypeString(t, nil) + "." + n + " not found", true})
		}
		return f
	}
	enter, exit := must(inT, "Enter"), must(inT, "Exit")
	notify, readAny, readMore := must(inT, "Notify"), must(inT, "ReadAny"), must(inT, "ReadMore")
	closeIn := must(inT, "Close")
	flush := must(outT, "Flush")
	up := types.Typ[types.Uintptr]
	fl0 := mkAtom("flags", up)
	setBit := func(t *Term, b int64, on bool) *Term {
		bs := toBits(t, 64, 64, false)
		for i := 0; i < 64; i++ {
			if b>>i&1 == 1 {
				bs[i] = bit0
				if on {
					bs[i] = bit1
				}
			}
		}
		return fromBits(bs, false)
	}
	hasBit := func(t *Term, b int64) *Term {
		for i, x := range toBits(t, 64, 64, false) {
			if b>>i&1 == 1 {
				return mkEq0(linK(x, -1))
			}
		}
		return tFalse
	}
	fcntlHook := func(file *Term, rule string) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			switch ci.name() {
			case "(*os.File).Fd":
				return ret(st, mkApp("fd", up, ci.args[0])), true
			case "syscall.Getpid":
				return ret(st, mkAtom("pid", types.Typ[types.Int])), true
			case "os/signal.Notify", "os/signal.Stop":
				return []Out{{st: st}}, true
			case "syscall.Syscall", "syscall.Syscall6", "syscall.RawSyscall":
				x.check(st, rule, "file flag calls", isConst(ci.args[0], sysFcntl) && ci.args[1] == mkApp("fd", up, file), ci.site.Pos(), "system call %v on %v", ci.args[0], ci.args[1])
				okS, badS, okR, badR := errnoFork(st, tZero, nil)
				badS.note("the flag call fails")
				badS.setG("failed", tOne)
				badS.setG("ferr", tOne)
				switch {
				case isConst(ci.args[2], fGetfl):
					okR[0] = st.g("fl")
				case isConst(ci.args[2], fSetfl):
					okS.setG("fl", ci.args[3])
					okS.setG("set", linK(st.gInt("set"), 1))
					badS.setG("setfail", tOne)
				case isConst(ci.args[2], fSetown):
					okS.setG("owner", ci.args[3])
				default:
					x.check(st, rule, "file flag calls", false, ci.site.Pos(), "unknown flag request %v", ci.args[2])
				}
				if st.gInt("nofail") == tOne {
					return []Out{{st: okS, ret: okR}}, true
				}
				return []Out{{st: okS, ret: okR}, {st: badS, ret: badR}}, true
			}
			return nil, false
		}
	}
	errnoT := w.spkg["syscall"].Pkg.Scope().Lookup("Errno").Type()
	again := mkIface(errnoT, mkInt(11))
	r.analyse("Input: reachable states", func(x *X) {
		file := tok("input-file")
		fh := fcntlHook(file, "input-file")
		eof := tok("EOF")
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if outs, ok := fh(x, st, ci); ok {
				return outs, true
			}
			nm := ci.name()
			switch {
			case nm == "(*os.File).Read":
				n := freshVal("n", types.Typ[types.Int])
				a := st.fork()
				a.assume(mkGe0(linK(n, -1)), true)
				a.assume(mkGe0(linSub(lenOf(ci.args[1]), n)), true)
				b, c := st.fork(), st.fork()
				e := st.fork()
				outs := []Out{{st: a, ret: []*Term{n, tNil}}, {st: b, ret: []*Term{tZero, eof}}, {st: e, ret: []*Term{tZero, tok("read error")}}}
				// would block only when the flag is set, and only so often
				if st.decide(hasBit(st.g("fl"), oNonblock)) != 0 {
					c.assume(hasBit(st.g("fl"), oNonblock), true)
					outs = append(outs, Out{st: c, ret: []*Term{tZero, again}})
				}
				return outs, true
			case ci.fn != nil && (ci.fn.Name() == "recordFrame" || ci.fn.Name() == "readBuf"):
				if ci.fn.Name() == "recordFrame" {
					return ret(st, tNil), true
				}
				b := freshVal("buf", types.NewSlice(types.Typ[types.Uint8]))
				return ret(st, b), true
			case strings.HasPrefix(nm, "(*bytes.Buffer)"):
				switch ci.mname() {
				case "Write":
					st.setG("buflen", linAdd(st.gInt("buflen"), lenOf(ci.args[1])))
					return ret(st, lenOf(ci.args[1]), tNil), true
				case "Bytes":
					b := freshVal("buf", types.NewSlice(types.Typ[types.Uint8]))
					st.assume(mkEq0(linSub(lenOf(b), st.gInt("buflen"))), true)
					return ret(st, b), true
				case "Grow":
					return []Out{{st: st}}, true
				}
			}
			return nil, false
		}
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if v.op == OApp && v.name == "tok" {
				return 0
			}
			return -1
		}
		st0 := newState()
		z := zeroVal(inT)
		in := x.objWith(st0, "input", inT, z)
		fileAddr := addrPath(in, mkFld(fieldIdx(inT, "File")))
		st0.store(fileAddr, file)
		st0.assume(mkEqv(file, tNil), false)
		tm := x.objWith(st0, "term", termT, wrapT(mkAtom("term", termT)))
		st0.setG("fl", fl0)
		st0.setG("in", tFalse)
		st0.setG("prior", tNil)
		st0.setG("nb", tFalse)
		st0.setG("as", tFalse)
		keep := []string{"fl", "in", "prior", "nb", "as"}
		ch := tok("notify-channel")
		keepT := func(v *types.Var) bool {
			switch u := v.Type().Underlying().(type) {
			case *types.Basic:
				return u.Kind() == types.Bool && v.Name() != "ateof" || u.Kind() == types.Uintptr
			case *types.Chan, *types.Pointer:
				return true
			}
			return false
		}
		canon := func(st *State) (*State, string) {
			c := newState()
			v := st.load(in)
			s := structOf(inT)
			nv := z
			for i := 0; i < s.NumFields(); i++ {
				if keepT(s.Field(i)) {
					nv = c.setPath(nv, inT, []*Term{mkFld(i)}, fieldOf(v, i, s.Field(i).Type()))
				}
			}
			c.setMem(in.args[0], nv)
			c.setMem(tm.args[0], st0.mem1(tm.args[0]))
			c.assume(mkEqv(file, tNil), false)
			k := fmt.Sprint(nv.id)
			for _, g := range keep {
				c.setG(g, st.g(g))
				k += fmt.Sprint(" ", st.g(g).id)
			}
			return c, k + " " + nv.String() + " fl=" + st.g("fl").String()
		}
		isNil := func(o Out) bool { return o.st.decide(mkEqv(o.ret[len(o.ret)-1], tNil)) == 1 }
		errCheck := func(nm string, o Out, fn *ssa.Function) {
			if o.st.gInt("failed") == tOne {
				x.check(o.st, "errors", nm, o.st.decide(mkEqv(o.ret[len(o.ret)-1], tNil)) == 0, fn.Pos(), "a failed flag call goes unreported")
			}
		}
		flEq := func(st *State, want *Term) bool { return st.eq(st.g("fl"), want) }
		ops := func(s *State) []xop {
			var out []xop
			entered := s.g("in") == tTrue
			add := func(nm string, fn *ssa.Function, args []*Term, after func(st0 *State, o Out) *State) {
				out = append(out, xop{nm, func(st *State) []*State {
					before := st.fork()
					var res []*State
					for _, o := range x.exec(st, fn, args, nil) {
						if o.panicked {
							x.check(o.st, "exact-change", nm, false, fn.Pos(), "panics %v", o.pv)
							continue
						}
						errCheck(nm, o, fn)
						if n := after(before, o); n != nil {
							res = append(res, n)
						}
					}
					return res
				}})
			}
			upd := func(before *State, o Out, nm string, fn *ssa.Function) *State {
				// flags in force: those before, with exactly the modes asked for changed
				wantNB, wantAS := o.st.g("nb"), o.st.g("as")
				want := before.g("fl")
				if wantNB != before.g("nb") {
					want = setBit(want, oNonblock, wantNB == tTrue)
				}
				if wantAS != before.g("as") {
					want = setBit(want, oAsync, wantAS == tTrue)
				}
				x.check(o.st, "exact-change", nm, flEq(o.st, want), fn.Pos(), "file flags become %v, want %v", o.st.g("fl"), want)
				return o.st
			}
			if !entered {
				add("Enter", enter, []*Term{in, tm}, func(b *State, o Out) *State {
					if !isNil(o) {
						return nil
					}
					want := b.g("fl")
					if b.g("nb") == tTrue {
						want = setBit(want, oNonblock, true)
					}
					if b.g("as") == tTrue {
						want = setBit(want, oAsync, true)
					}
					x.check(o.st, "exact-change", "Enter", flEq(o.st, want), enter.Pos(), "file flags become %v, want %v", o.st.g("fl"), want)
					o.st.setG("in", tTrue)
					o.st.setG("prior", b.g("fl"))
					return o.st
				})
				add("Notify before entering", notify, []*Term{in, ch}, func(b *State, o Out) *State {
					if o.st.gInt("failed") == tOne {
						return nil
					}
					o.st.setG("as", tTrue)
					return o.st
				})
				return out
			}
			add("Exit", exit, []*Term{in, tm}, func(b *State, o Out) *State {
				if !isNil(o) {
					return nil
				}
				x.check(o.st, "restore", "Exit", flEq(o.st, b.g("prior")), exit.Pos(), "file flags left as %v, they were %v on entering", o.st.g("fl"), b.g("prior"))
				// somebody else may change the flags before the next Enter
				o.st.setG("in", tFalse)
				o.st.setG("prior", tNil)
				if b.g("prior") == fl0 {
					o.st.setG("fl", mkAtom("flags'", up))
				} else {
					o.st.setG("fl", fl0)
					x.check(o.st, "restore", "Exit after entering again", true, exit.Pos(), "")
				}
				return o.st
			})
			add("Notify(channel)", notify, []*Term{in, ch}, func(b *State, o Out) *State {
				if o.st.gInt("failed") == tOne {
					return nil
				}
				o.st.setG("as", tTrue)
				if b.g("as") != tTrue {
					x.check(o.st, "exact-change", "Notify: owner", o.st.g("owner") != nil && o.st.eq(o.st.g("owner"), mkAtom("pid", types.Typ[types.Int])), notify.Pos(), "signal owner set to %v", o.st.g("owner"))
				}
				return upd(b, o, "Notify(channel)", notify)
			})
			add("Notify(nil)", notify, []*Term{in, tNil}, func(b *State, o Out) *State {
				if o.st.gInt("failed") == tOne {
					return nil
				}
				o.st.setG("as", tFalse)
				return upd(b, o, "Notify(nil)", notify)
			})
			add("ReadAny", readAny, []*Term{in}, func(b *State, o Out) *State {
				if o.st.gInt("failed") == tOne {
					return nil
				}
				o.st.setG("nb", tTrue)
				return upd(b, o, "ReadAny", readAny)
			})
			add("ReadMore", readMore, []*Term{in}, func(b *State, o Out) *State {
				if o.st.gInt("failed") == tOne {
					return nil
				}
				// goes back to blocking only when a read would have blocked
				st := o.st
				if st.gInt("set") != tZero {
					x.check(st, "exact-change", "ReadMore", flEq(st, setBit(b.g("fl"), oNonblock, false)), readMore.Pos(), "file flags become %v", st.g("fl"))
					st.setG("nb", tFalse)
					return st
				}
				return upd(b, o, "ReadMore", readMore)
			})
			add("Close", closeIn, []*Term{in}, func(b *State, o Out) *State {
				x.check(o.st, "exact-change", "Close", flEq(o.st, b.g("fl")), closeIn.Pos(), "file flags changed")
				return nil
			})
			return out
		}
		n := exploreOps(r, x, []*State{st0}, ops, canon, 400)
		r.notes = append(r.notes, fmt.Sprintf("%d reachable states of input flag handling explored", n))
	})

	r.analyse("Output.Flush", func(x *X) {
		file := tok("output-file")
		fh := fcntlHook(file, "flush-direct")
		src := tok("source")
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if outs, ok := fh(x, st, ci); ok {
				return outs, true
			}
			if ci.method != nil && ci.method.Name() == "WriteTo" && ci.recv == src {
				dst := ci.args[0]
				if dst.op == OIface {
					dst = dst.args[0]
				}
				x.check(st, "flush-direct", "destination", dst == file, ci.site.Pos(), "writes to %v", dst)
				k := st.gInt("w")
				st.setG("w", linK(k, 1))
				n := freshVal("n", types.Typ[types.Int64])
				st.assume(mkGe0(n), true)
				st.setG("total", linAdd(st.gInt("total"), n))
				if k == tZero {
					x.check(st, "flush-direct", "flags untouched before writing", st.gInt("set") == tZero, ci.site.Pos(), "flags changed before any write")
				} else {
					x.check(st, "flush-block", "second write blocks", k == tOne && st.g("w1") == again && st.eq(st.g("fl"), setBit(fl0, oNonblock, false)), ci.site.Pos(), "write %v after result %v with flags %v", k, st.g("w1"), st.g("fl"))
				}
				wkey := "w1"
				if k != tZero {
					wkey = "w2"
				}
				var outs []Out
				for _, e := range []*Term{tNil, again, tok("write error")} {
					c := st.fork()
					c.setG(wkey, e)
					c.note("write %s returns %v", wkey, e)
					outs = append(outs, Out{st: c, ret: []*Term{n, e}})
				}
				return outs, true
			}
			return nil, false
		}
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if v.op == OApp && v.name == "tok" {
				return 0
			}
			return -1
		}
		for _, nofile := range []bool{false, true} {
			st := newState()
			v := wrapT(mkAtom("output", outT))
			out := x.objWith(st, "output", outT, v)
			fa := addrPath(out, mkFld(fieldIdx(outT, "File")))
			if nofile {
				st.store(fa, tNil)
			} else {
				st.store(fa, file)
				st.assume(mkEqv(file, tNil), false)
			}
			st.setG("fl", fl0)
			for _, o := range x.exec(st, flush, []*Term{out, src}, nil) {
				if o.panicked {
					x.check(o.st, "flush-error", "no panic", false, flush.Pos(), "panics %v", o.pv)
					continue
				}
				s := o.st
				if nofile {
					x.check(s, "flush-direct", "no file", s.gInt("w") == tZero && o.ret[0] == tNil, flush.Pos(), "writes without a file")
					continue
				}
				x.check(s, "flush-direct", "written", s.gInt("w") != tZero, flush.Pos(), "nothing written")
				w1, w2 := s.g("w1"), s.g("w2")
				e := s.f.rw(o.ret[0])
				if w1 != again {
					x.check(s, "flush-direct", "result", e == w1 && s.gInt("w") == tOne && s.gInt("set") == tZero, flush.Pos(), "returns %v after a first write result of %v (writes %v, flag changes %v)", e, w1, s.gInt("w"), s.gInt("set"))
				} else if s.gInt("ferr") == tZero {
					x.check(s, "flush-block", "flags restored", s.gInt("w") == mkInt(2) && s.eq(s.g("fl"), fl0), flush.Pos(), "after the flush the file flags are %v, they were %v (writes %v)", s.g("fl"), fl0, s.gInt("w"))
					x.check(s, "flush-error", "write error", e == w2, flush.Pos(), "returns %v, the blocking write returned %v", e, w2)
				} else {
					x.check(s, "flush-error", "flag failure", s.decide(mkEqv(e, tNil)) == 0, flush.Pos(), "a failed flag call goes unreported")
					if w2 != nil && w2 != tNil {
						x.check(s, "flush-error", "write error first", e == w2, flush.Pos(), "returns %v, the blocking write failed first with %v", e, w2)
					}
				}
				fl := s.load(addrPath(out, mkFld(fieldIdx(outT, "Flushed"))))
				if s.gInt("ferr") == tZero {
					x.check(s, "flush-count", "Flushed", s.eq(fl, s.gInt("total")), flush.Pos(), "flushed count %v, bytes written %v", fl, s.gInt("total"))
				}
			}
		}
	})
}
