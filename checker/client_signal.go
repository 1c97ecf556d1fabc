package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C34"] = c34 }

// sgModel is what a signal is to be.
type sgModel struct {
	open, on bool     // whether it has a channel, and is notified
	pending  []string // what the channel holds
	last     string   // what was done so far
}

// c34: signals are delivered to whom they should be.
func c34(r *Run) {
	w := r.w
	r.rule("registered", "a signal is notified of exactly its own signals once opened, until it is closed", 200)
	r.rule("pending", "what arrives, or is sent, is there once it is asked for, and is the signal that came", 200)
	r.rule("input", "the channel last given to an input, and no other, is notified of input", 100)
	r.rule("room", "channels that are notified have room", 5)
	r.rule("waits", "nothing waits for ever", 200)
	r.rule("error", "opening, entering, exiting and closing fail only when changing file flags does", 200)
	r.rule("suspend", "suspending waits for the process to be continued", 2)
	r.rule("exit", "a signal as an error holds the signal, and has its exit code", 4)
	sigT, isT, inT, termT := w.typ("", "Signal"), w.typ("", "InputSignal"), w.typ("", "Input"), w.typ("", "Term")
	errT := w.typ("", "SignalError")
	osSig := w.spkg["os"].Pkg.Scope().Lookup("Signal").Type()
	sysSigT := w.spkg["syscall"].Pkg.Scope().Lookup("Signal").Type()
	errnoT := w.spkg["syscall"].Pkg.Scope().Lookup("Errno").Type()
	sigVal := func(n int64) *Term { return mkIface(sysSigT, mkInt(n)) }
	const sigint, sigterm, sigio, sigcont, sigtstp = 2, 15, 29, 18, 20
	const nsig = 64
	must := func(t types.Type, n string) *ssa.Function {
		f := w.methodOf(t, n)
		if f == nil {
			panic(anchorErr{types.TypeString(t, nil) + "." + n + " not found", true})
		}
		return f
	}
	fC := fieldIdx(sigT, "C")
	thorough := r.tier == "thorough"

	list := func(st *State, k string) []*Term {
		if v := st.g(k); v != nil && v.op == OApp {
			return v.args
		}
		return nil
	}
	setList := func(st *State, k string, l []*Term) { st.setG(k, mkApp("list", nil, l...)) }
	chKey := func(c *Term) string { return fmt.Sprint("q:", c) }
	sk := func(n int) string { return fmt.Sprint("sig", n) }
	raise := func(st *State, n int64) {
		for _, c := range list(st, sk(int(n))) {
			q := list(st, chKey(c))
			if room, ok := st.constOf(c.args[1]); ok && int64(len(q)) < room {
				setList(st, chKey(c), append(append([]*Term(nil), q...), sigVal(n)))
			}
		}
	}
	hooks := func(x *X, nm string) {
		x.precise, x.noMerge = true, true
		x.budget = 40000000
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			name := ci.name()
			switch {
			case name == "os/signal.Notify":
				c := st.f.rw(ci.args[0])
				if c == tNil {
					return []Out{{st: st, panicked: true, pv: mkStr("os/signal: Notify using nil channel")}}, true
				}
				sigs, ok := x.elems(st, ci.args[1])
				if !ok || c.op != OApp || c.name != "chan" {
					x.fail("notifies %v of %v", c, ci.args[1])
				}
				room, ok := st.constOf(c.args[1])
				x.check(st, "room", nm, ok && room > 0, ci.site.Pos(), "signals are sent to a channel that has no room, and may be lost")
				var ns []int64
				for _, s := range sigs {
					s = st.f.rw(s)
					if s.op != OIface {
						x.fail("notified of %v", s)
					}
					n, ok := st.constOf(s.args[0])
					if !ok {
						x.fail("notified of %v", s)
					}
					ns = append(ns, n)
				}
				if len(sigs) == 0 { // all there are
					for n := int64(1); n <= nsig; n++ {
						ns = append(ns, n)
					}
				}
				for _, n := range ns {
					have := false
					for _, o := range list(st, sk(int(n))) {
						have = have || o == c
					}
					if !have {
						setList(st, sk(int(n)), append(append([]*Term(nil), list(st, sk(int(n)))...), c))
					}
				}
				return ret(st), true
			case name == "os/signal.Stop":
				c := st.f.rw(ci.args[0])
				for n := 1; n <= nsig; n++ {
					var keep []*Term
					for _, o := range list(st, sk(n)) {
						if o != c {
							keep = append(keep, o)
						}
					}
					if len(list(st, sk(n))) > 0 {
						setList(st, sk(n), keep)
					}
				}
				return ret(st), true
			case name == "(*os.File).Fd":
				return ret(st, mkInt(5)), true
			case name == "syscall.Getpid":
				return ret(st, mkInt(77)), true
			case strings.HasPrefix(name, "log."):
				return []Out{{st: st}}, true
			case name == "syscall.Syscall", name == "syscall.Syscall6", name == "syscall.RawSyscall":
				if st.gInt("ioerr") == tOne {
					return ret(st, mkInt(-1), tZero, mkInt(5)), true
				}
				return ret(st, tZero, tZero, tZero), true
			case name == "syscall.Kill":
				sig := st.f.rw(ci.args[1])
				x.check(st, "suspend", nm+": stop", isConst(sig, sigtstp) && len(list(st, sk(sigcont))) == 1, ci.site.Pos(), "the process is sent %v while %v wait for it to be continued", sig, list(st, sk(sigcont)))
				if st.g("killerr") != nil {
					return ret(st, mkIface(errnoT, mkInt(1))), true
				}
				st.setG("killed", tOne)
				raise(st, sigcont)
				return ret(st, tNil), true
			}
			return nil, false
		}
		x.h.chlen = func(x *X, st *State, ch *Term) *Term {
			if ch.op == OApp && ch.name == "chan" {
				return mkInt(int64(len(list(st, chKey(ch)))))
			}
			return nil
		}
		x.h.sel = func(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) {
			var picks []selPick
			for i, c := range cases {
				ch := st.f.rw(c.ch)
				if ch.op != OApp || ch.name != "chan" {
					if ch != tNil {
						x.fail("channel %v", ch)
					}
					continue
				}
				q := list(st, chKey(ch))
				room, ok := st.constOf(ch.args[1])
				if !ok {
					x.fail("room for %v", ch.args[1])
				}
				switch {
				case c.v != nil && int64(len(q)) < room:
					n := st.fork()
					setList(n, chKey(ch), append(append([]*Term(nil), q...), st.f.rw(c.v)))
					picks = append(picks, selPick{st: n, idx: i})
				case c.v == nil && len(q) > 0:
					n := st.fork()
					setList(n, chKey(ch), q[1:])
					picks = append(picks, selPick{st: n, idx: i, v: q[0], ok: tTrue})
				}
			}
			if len(picks) > 0 {
				return picks, true
			}
			if blocking {
				x.check(st, "waits", nm, false, in.Pos(), "waits for ever")
				return nil, true
			}
			return []selPick{{st: st, idx: -1}}, true
		}
	}
	// who says which channels are to be notified of which signals, and says so
	who := func(x *X, st *State, rule, nm string, want map[int]*Term, pos *ssa.Function) bool {
		ok := true
		for n := 1; n <= nsig; n++ {
			got := list(st, sk(n))
			same := len(got) == 0
			if c := want[n]; c != nil {
				same = len(got) == 1 && got[0] == c
			}
			if !same {
				x.check(st, rule, nm, false, pos.Pos(), "signal %d goes to %v, want %v", n, got, want[n])
				ok = false
				break
			}
		}
		if ok {
			x.check(st, rule, nm, true, pos.Pos(), "")
		}
		return ok
	}
	// sigName is what a signal says it is
	sigName := func(x *X, st *State, v *Term) string {
		if v == nil {
			return "none"
		}
		v = st.f.rw(v)
		if v.op != OIface {
			return fmt.Sprint(v)
		}
		if types.Identical(v.ref.(types.Type), sysSigT) {
			return fmt.Sprint(st.f.rw(v.args[0]))
		}
		fn := w.methodOf(v.ref.(types.Type), "String")
		if fn == nil {
			return fmt.Sprint(v)
		}
		for _, o := range x.exec(st.fork(), fn, []*Term{v.args[0]}, nil) {
			if !o.panicked && o.ret[0].op == OStr {
				return o.ret[0].name
			}
		}
		return fmt.Sprint(v)
	}
	asErr := func(x *X, st *State, e *Term) string {
		e = st.f.rw(e)
		if e == tNil {
			return "nil"
		}
		if e.op != OIface || !types.Identical(e.ref.(types.Type), errT) {
			return fmt.Sprint(e)
		}
		return sigName(x, st, fieldOf(st.f.rw(e.args[0]), 0, nil))
	}

	// histories of a signal
	open, cls, ent, exi, send, ase := must(sigT, "Open"), must(sigT, "Close"), must(sigT, "Enter"), must(sigT, "Exit"), must(sigT, "Send"), must(sigT, "AsErr")
	depth := 4
	if thorough {
		depth = 5
	}
	for _, set := range [][]int64{nil, {sigint}, {sigint, sigterm}, {sigterm, sigio, sigint}} {
		set := set
		r.analyse(fmt.Sprintf("Signal of %v", set), func(x *X) {
			hooks(x, fmt.Sprintf("signal of %v", set))
			st0 := newState()
			var els []*Term
			for _, n := range set {
				els = append(els, sigVal(n))
			}
			var ns *Term = tNil
			if len(els) > 0 {
				ns = x.elemSlice(st0, osSig, els...)
			}
			// the constructor
			var sv *Term
			ctor := w.fn("", "Notify")
			for _, o := range x.exec(st0, ctor, []*Term{ns}, nil) {
				if o.panicked {
					x.check(o.st, "error", "Notify", false, ctor.Pos(), "panics with %v", o.pv)
					return
				}
				st0, sv = o.st, o.ret[0]
			}
			who(x, st0, "registered", "made", nil, ctor)
			sg := x.objWith(st0, "signal", sigT, sv)
			tm := x.objWith(st0, "term", termT, zeroVal(termT))
			var step func(st *State, m sgModel, n int)
			step = func(st *State, m sgModel, n int) {
				if n == 0 {
					return
				}
				do := func(nm string, fn *ssa.Function, args []*Term, f func(m *sgModel), wantErr string) {
					m2 := m
					m2.pending = append([]string(nil), m.pending...)
					m2.last = m.last + " " + nm
					lbl := fmt.Sprintf("%v:%s", set, m2.last)
					f(&m2)
					var outs []Out
					if fn == nil {
						s := st.fork()
						raise(s, args[0].k)
						outs = []Out{{st: s}}
					} else {
						outs = x.exec(st.fork(), fn, args, nil)
						x.check(st, "waits", lbl, len(outs) > 0, fn.Pos(), "does not return")
					}
					at := open
					if fn != nil {
						at = fn
					}
					for _, o := range outs {
						if o.panicked {
							x.check(o.st, "error", lbl, false, at.Pos(), "panics with %v", o.pv)
							continue
						}
						if fn != nil && len(o.ret) > 0 {
							got := asErr(x, o.st, o.ret[0])
							rule := "error"
							if fn == ase {
								rule = "pending"
							}
							x.check(o.st, rule, lbl, got == wantErr, at.Pos(), "gives %s, want %s", got, wantErr)
						}
						c := o.st.f.rw(o.st.load(addrPath(sg, mkFld(fC))))
						x.check(o.st, "registered", lbl+": channel", (c != tNil) == m2.open, at.Pos(), "its channel is %v, open is to be %v", c, m2.open)
						want := map[int]*Term{}
						if m2.on {
							for _, s := range set {
								want[int(s)] = c
							}
						}
						good := who(x, o.st, "registered", lbl, want, at)
						var got []string
						if c != tNil {
							for _, v := range list(o.st, chKey(c)) {
								got = append(got, sigName(x, o.st, v))
							}
						}
						same := strings.Join(got, ",") == strings.Join(m2.pending, ",")
						x.check(o.st, "pending", lbl, same, at.Pos(), "there is %v, want %v", got, m2.pending)
						if good && same && (c != tNil) == m2.open {
							step(o.st, m2, n-1)
						}
					}
				}
				opened := func(m *sgModel) {
					if !m.open {
						m.pending = nil
					}
					m.open, m.on = true, true
				}
				put := func(m *sgModel, s string) {
					if len(m.pending) == 0 {
						m.pending = append(m.pending, s)
					}
				}
				do("Open", open, []*Term{sg}, opened, "nil")
				do("Enter", ent, []*Term{sg, tm}, opened, "nil")
				do("Exit", exi, []*Term{sg, tm}, func(m *sgModel) {}, "nil")
				do("Close", cls, []*Term{sg}, func(m *sgModel) { m.open, m.on, m.pending = false, false, nil }, "nil")
				do("Send", send, []*Term{sg, mkStr("prime")}, func(m *sgModel) { m.open = true; put(m, "prime") }, "")
				for _, k := range []int64{sigint, sigterm} {
					k := k
					do(fmt.Sprint("arrives", k), nil, []*Term{mkInt(k)}, func(m *sgModel) {
						for _, s := range set {
							if m.on && s == k {
								put(m, fmt.Sprint(k))
							}
						}
					}, "")
				}
				we := "nil"
				if len(m.pending) > 0 {
					we = m.pending[0]
				}
				do("AsErr", ase, []*Term{sg}, func(m *sgModel) {
					if len(m.pending) > 0 {
						m.pending = m.pending[1:]
					}
				}, we)
			}
			step(st0, sgModel{}, depth)
		})
	}

	// histories of an input's notification
	notify, inClose := must(inT, "Notify"), must(inT, "Close")
	inEnter, inExit := must(inT, "Enter"), must(inT, "Exit")
	isEnter := must(isT, "Enter")
	isClose, isExit := must(isT, "Close"), must(isT, "Exit")
	chT := types.NewChan(types.SendRecv, osSig)
	isC := fieldPath(isT, "Signal", "C")
	depthIn := 4
	if thorough {
		depthIn = 5
	}
	for _, file := range []bool{true, false} {
		file := file
		r.analyse(fmt.Sprintf("Input.Notify, file %v", file), func(x *X) {
			hooks(x, "input")
			st0 := newState()
			tm := x.objWith(st0, "term", termT, zeroVal(termT))
			in := addrPath(tm, mkFld(fieldIdx(termT, "Input")))
			if file {
				st0.store(addrPath(in, mkFld(fieldIdx(inT, "File"))), tok("input-file"))
				st0.assume(mkEqv(tok("input-file"), tNil), false)
			}
			is := x.objWith(st0, "inputsignal", isT, zeroVal(isT))
			isSig := is // methods that it has of its signal
			if rt := isClose.Signature.Recv().Type(); types.Identical(rt, types.NewPointer(sigT)) {
				isSig = addrPath(is, fieldPath(isT, "Signal")...)
			}
			a, b := mkApp("chan", chT, mkStr("a"), tOne), mkApp("chan", chT, mkStr("b"), tOne)
			var step func(st *State, cur *Term, last string, n int)
			step = func(st *State, cur *Term, last string, n int) {
				if n == 0 {
					return
				}
				isCh := func(st *State) *Term { return st.f.rw(st.load(addrPath(is, isC...))) }
				// want gives the channel that is to be notified afterwards
				do := func(nm string, fn *ssa.Function, args []*Term, faults bool, want func(before, after *State) *Term) {
					for _, bad := range []bool{false, true} {
						if bad && (!faults || !file) {
							continue
						}
						s := st.fork()
						l := last + " " + nm
						if bad {
							s.setG("ioerr", tOne)
							l += "(failing)"
						}
						outs := x.exec(s, fn, args, nil)
						x.check(st, "waits", l, len(outs) > 0, fn.Pos(), "does not return")
						for _, o := range outs {
							if o.panicked {
								x.check(o.st, "error", l, false, fn.Pos(), "panics with %v", o.pv)
								continue
							}
							if !bad {
								x.check(o.st, "error", l, o.st.eq(o.ret[0], tNil), fn.Pos(), "fails with %v", o.ret[0])
							}
							c := want(st, o.st)
							m := map[int]*Term{}
							if c != nil && c != tNil {
								m[sigio] = c
							}
							if bad && len(list(o.st, sk(sigio))) == 0 {
								m, c = map[int]*Term{}, nil // it may do without, as it failed
							}
							good := who(x, o.st, "input", l, m, fn)
							o.st.setG("ioerr", tZero)
							if good {
								step(o.st, c, l, n-1)
							}
						}
					}
				}
				same := func(_, _ *State) *Term { return cur }
				none := func(_, _ *State) *Term { return nil }
				do("Notify(a)", notify, []*Term{in, a}, true, func(_, _ *State) *Term { return a })
				do("Notify(b)", notify, []*Term{in, b}, false, func(_, _ *State) *Term { return b })
				do("Notify(nil)", notify, []*Term{in, tNil}, true, none)
				do("Close", inClose, []*Term{in}, false, none)
				do("Enter", inEnter, []*Term{in, tm}, false, same)
				do("Exit", inExit, []*Term{in, tm}, false, same)
				do("InputSignal.Enter", isEnter, []*Term{is, tm}, false, func(_, after *State) *Term { return isCh(after) })
				do("InputSignal.Exit", isExit, []*Term{isSig, tm}, false, same)
				do("InputSignal.Close", isClose, []*Term{isSig}, false, func(before, _ *State) *Term {
					if c := isCh(before); c != tNil && c == cur {
						return nil
					}
					return cur
				})
			}
			step(st0, nil, "", depthIn)
		})
	}

	// suspending
	susp := must(termT, "Suspend")
	for _, bad := range []bool{false, true} {
		bad := bad
		r.analyse(fmt.Sprintf("Suspend, failing %v", bad), func(x *X) {
			nm := fmt.Sprintf("suspend, failing %v", bad)
			hooks(x, nm)
			st := newState()
			tm := x.objWith(st, "term", termT, zeroVal(termT))
			if bad {
				st.setG("killerr", tOne)
			}
			outs := x.exec(st, susp, []*Term{tm}, nil)
			x.check(st, "waits", nm, len(outs) > 0, susp.Pos(), "does not return")
			for _, o := range outs {
				good := !o.panicked && o.st.eq(o.ret[0], tNil) != bad && (o.st.g("killed") != nil) != bad
				x.check(o.st, "suspend", nm, good, susp.Pos(), "gives %v, stopped %v", o.ret, o.st.g("killed") != nil)
				who(x, o.st, "registered", nm, nil, susp)
			}
		})
	}

	// errors
	sigErr, code := w.fn("", "SigErr"), must(errT, "ExitCode")
	synth := w.typ("", "SignalError") // a signal that has no number
	for _, v := range []struct {
		nm   string
		sig  *Term
		code int64
	}{{"SIGINT", sigVal(sigint), -sigint}, {"SIGTERM", sigVal(sigterm), -sigterm}, {"SIGHUP", sigVal(1), -1}, {"another", mkIface(synth, wrapT(mkAtom("other", synth))), 1}} {
		v := v
		r.analyse("exit code: "+v.nm, func(x *X) {
			hooks(x, v.nm)
			for _, o := range x.exec(newState(), sigErr, []*Term{v.sig}, nil) {
				e := o.st.f.rw(o.ret[0])
				ok := !o.panicked && e.op == OIface && types.Identical(e.ref.(types.Type), errT) && fieldOf(o.st.f.rw(e.args[0]), 0, nil) == v.sig
				x.check(o.st, "exit", v.nm+": holds", ok, sigErr.Pos(), "gives %v", e)
				if !ok {
					continue
				}
				for _, o := range x.exec(o.st, code, []*Term{e.args[0]}, nil) {
					x.check(o.st, "exit", v.nm, !o.panicked && o.st.eq(o.ret[0], mkInt(v.code)), code.Pos(), "exits with %v, want %d", o.ret, v.code)
				}
			}
		})
	}
}
