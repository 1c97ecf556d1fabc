package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	clients["C06"] = c06
	clients["C07"] = c07
}

// boundsHook turns every index / slice / division obligation into a check
// keyed by function.
func boundsHook(rule string) func(x *X, st *State, f *ssa.Function, in ssa.Instruction, what string, c *Term) bool {
	return func(x *X, st *State, f *ssa.Function, in ssa.Instruction, what string, c *Term) bool {
		ok := st.isTrue(c)
		x.check(st, rule, shortFn(f)+": "+what, ok, in.Pos(), "%s may be out of bounds: cannot establish %v", what, st.f.rw(c))
		return true
	}
}

// decodeEscapeSummary models ansi.DecodeEscape as established by C06: 0 <= n
// <= len(p), an identified escape consumes at least one byte, its argument is
// a part of the consumed bytes; bytes of p may be rearranged.
func decodeEscapeSummary(w *World) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	fn := w.fn("ansi", "DecodeEscape")
	escT := w.typ("ansi", "Escape")
	lo, hi := mkInt(0xEF00), mkInt(0xEFFF)
	return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn != fn {
			return nil, false
		}
		p := toSlice(ci.args[0])
		n := lenOf(p)
		if p.args[0].op == OAddr && len(p.args[0].args) == 1 && constObjs[p.args[0].args[0]] == nil {
			st.setMem(p.args[0].args[0], fresh("decoded.content", nil))
		}
		var outs []Out
		// nothing decoded
		a := st.fork()
		an := fresh("consumed", types.Typ[types.Int])
		if a.assumeGe(an) && a.assumeGe(linSub(n, an)) {
			outs = append(outs, Out{st: a, ret: []*Term{tZero, tNil, an}})
		}
		for _, hasArg := range []bool{false, true} {
			b := st.fork()
			e := fresh("esc", escT)
			bn := fresh("consumed", types.Typ[types.Int])
			if !b.assumeGe(linK(bn, -1)) || !b.assumeGe(linSub(n, bn)) {
				continue
			}
			// C1 string controls or the private use area
			b.assumeGe(linK(e, -0x90))
			b.assumeGe(linSub(hi, e))
			_ = lo
			arg := tNil
			if hasArg {
				off, ln, cp := fresh("arg.off", types.Typ[types.Int]), fresh("arg.len", types.Typ[types.Int]), fresh("arg.cap", types.Typ[types.Int])
				b.assumeGe(off)
				b.assumeGe(ln)
				b.assumeGe(linSub(cp, ln))
				b.assumeGe(linSub(bn, linAdd(off, ln)))
				arg = mkSlice(p.args[0], linAdd(p.args[1], off), ln, cp)
			}
			outs = append(outs, Out{st: b, ret: []*Term{e, arg, bn}})
		}
		return outs, true
	}
}

func c06(r *Run) {
	w := r.w
	r.rule("no-panic", "no decoding function reaches a panic for any input", 8)
	r.rule("bounds", "every index and slice expression reached by decoding is within bounds, for any input", 20)
	r.rule("consumed", "the reported number of consumed bytes lies between zero and the input length", 5)
	r.rule("identified", "a decoded escape consumes at least one byte, is a string control or in U+EF00-EFFF, and names the final (or character set) byte of its sequence", 2)
	r.rule("argument", "the argument is part of the consumed bytes, before the terminator", 1)
	r.rule("number", "a decoded number is within the documented 32 bit range", 1)
	r.rule("grammar", "which byte sequences are complete control sequences, and what their identifier, argument and length are, agrees with the ECMA-48 grammar", 4)

	sc := w.spkg[w.pkgPath("ansi")].Pkg.Scope()
	var entries []*ssa.Function
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !strings.HasPrefix(n, "Decode") {
			continue
		}
		entries = append(entries, w.prog.FuncValue(f))
	}
	decEsc := w.fn("ansi", "DecodeEscape")
	escT := w.typ("ansi", "Escape")
	for _, fn := range entries {
		r.analyse(shortFn(fn), func(x *X) {
			x.h.bounds = boundsHook("bounds")
			st := newState()
			as := paramAtoms(fn)
			var in *Term
			for i, p := range fn.Params {
				if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint8]) {
					in = as[i]
				}
			}
			ln := lenOf(in)
			for _, o := range x.exec(st, fn, as, nil) {
				x.check(o.st, "no-panic", shortFn(fn), !o.panicked, fn.Pos(), "panics with %v", o.pv)
				if o.panicked {
					continue
				}
				res := fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					if res.At(i).Type() == types.Typ[types.Int] && res.At(i).Name() != "r" || res.Len() == 2 && i == 1 && fn.Name() == "DecodeRune" {
						v := o.ret[i]
						ok := o.st.f.prove(v) && o.st.f.prove(linSub(ln, v))
						if !ok && o.st.f.prove(ln) {
							// errors may leave the count unspecified
							ok = false
						}
						x.check(o.st, "consumed", shortFn(fn), ok, fn.Pos(), "consumed count %v of %v bytes", v, ln)
					}
				}
				if fn.Name() == "DecodeNumber" {
					v := o.ret[0]
					max := int64(1)<<32 - 1
					x.check(o.st, "number", shortFn(fn), o.st.f.prove(linK(v, max)) && o.st.f.prove(linK(linNeg(v), max)), fn.Pos(), "number %v not within +-(2^32-1)", v)
				}
				if fn == decEsc {
					e, arg, n := o.ret[0], o.ret[1], o.ret[2]
					st := o.st
					if st.isTrue(mkEq0(e)) {
						x.check(st, "argument", shortFn(fn), arg.op == ONil, fn.Pos(), "argument %v without an escape", arg)
						continue
					}
					inPUA := st.f.prove(linK(e, -0xEF00)) && st.f.prove(linK(linNeg(e), 0xEFFF))
					str := false
					for _, k := range []int64{0x90, 0x9D, 0x9E, 0x9F} {
						str = str || st.isTrue(mkEq0(linK(e, -k)))
					}
					x.check(st, "identified", shortFn(fn)+": class", inPUA || str, fn.Pos(), "escape %v is neither a string control nor in U+EF00-EFFF", e)
					x.check(st, "identified", shortFn(fn)+": consumes", st.f.prove(linK(n, -1)), fn.Pos(), "escape with %v bytes consumed", n)
					if arg.op == OSlice {
						rel := linSub(arg.args[1], in.args[1])
						inside := arg.args[0] == in.args[0] && st.f.prove(rel) && st.f.prove(arg.args[2]) && st.f.prove(linSub(n, linAdd(rel, arg.args[2])))
						x.check(st, "argument", shortFn(fn), inside, fn.Pos(), "argument %v not within the %v consumed bytes", arg, n)
					} else {
						x.check(st, "argument", shortFn(fn), arg.op == ONil, fn.Pos(), "argument %v is not part of the input", arg)
					}
				}
			}
		})
	}
	_ = escT
	grammar(r)
}

// grammar compares DecodeEscape with the ECMA-48 grammar on every input made of
// an introducer and up to k further bytes, all byte values at once (byte
// classes, not enumerated values).
func grammar(r *Run) {
	w := r.w
	fn := w.fn("ansi", "DecodeEscape")
	byteT := types.Typ[types.Uint8]
	kmax := 3
	if r.tier == "thorough" {
		kmax = 5
	}
	type spec struct {
		st   *State
		e    *Term // nil: none
		a, b int   // argument range in original bytes, -1: none
		n    int
	}
	inR := func(c *Term, lo, hi int64) []*Term {
		return []*Term{mkGe0(linK(c, -lo)), mkGe0(linK(linNeg(c), hi))}
	}
	// forkIn splits st on c in [lo,hi]
	forkIn := func(st *State, c *Term, lo, hi int64) (in, below, above *State) {
		cs := inR(c, lo, hi)
		i := st.fork()
		if i.assume(cs[0], true) && i.assume(cs[1], true) {
			in = i
		}
		b := st.fork()
		if b.assume(cs[0], false) {
			below = b
		}
		a := st.fork()
		if a.assume(cs[1], false) {
			above = a
		}
		return
	}
	// the CSI grammar over bytes bs[i:]
	var csi func(st *State, bs []*Term, i, off, ai int, inter bool) []spec
	csi = func(st *State, bs []*Term, i, off, ai int, inter bool) []spec {
		if i == len(bs) {
			return []spec{{st: st, a: -1}}
		}
		c := bs[i]
		var out []spec
		arg := func(mark bool) int {
			if mark && ai < 0 {
				return i
			}
			return ai
		}
		in, lo, hi := forkIn(st, c, 0x40, 0x7E)
		if in != nil {
			s := spec{st: in, e: linK(c, 0xEF80), a: -1, n: off + i + 1}
			if ai >= 0 {
				s.a, s.b = off+ai, off+i
			}
			out = append(out, s)
		}
		if hi != nil {
			out = append(out, csi(hi, bs, i+1, off, ai, inter)...)
		}
		if lo != nil {
			par, plo, _ := forkIn(lo, c, 0x30, 0x3F)
			if par != nil {
				out = append(out, csi(par, bs, i+1, off, arg(!inter), inter)...)
			}
			if plo != nil {
				im, ctl, _ := forkIn(plo, c, 0x20, 0x2F)
				if im != nil {
					out = append(out, csi(im, bs, i+1, off, arg(true), true)...)
				}
				if ctl != nil {
					out = append(out, csi(ctl, bs, i+1, off, ai, inter)...)
				}
			}
		}
		return out
	}
	// string controls: up to ST (ESC \ or U+009C); the generic bytes here are
	// restricted to printable ASCII
	type intro struct {
		name  string
		bytes []int64
	}
	for _, in := range []intro{{"ESC [", []int64{0x1B, '['}}, {"CSI", []int64{0xC2, 0x9B}}} {
		for k := 0; k <= kmax; k++ {
			nm := fmt.Sprintf("%s and %d bytes", in.name, k)
			r.analyse(nm, func(x *X) {
				x.unrollSt, x.noMerge = 4000, true
				st := newState()
				var bs, all []*Term
				for _, b := range in.bytes {
					all = append(all, mkInt(b))
				}
				for i := 0; i < k; i++ {
					b := mkAtom(fmt.Sprintf("b%d", i), byteT)
					bs = append(bs, b)
					all = append(all, b)
				}
				p := x.elemSlice(st, byteT, all...)
				off := len(in.bytes)
				for _, o := range x.exec(st, fn, []*Term{p}, nil) {
					if o.panicked {
						x.check(o.st, "grammar", in.name, false, fn.Pos(), "%s: panics %v", nm, o.pv)
						continue
					}
					for _, s := range csi(o.st.fork(), bs, 0, off, -1, false) {
						ok, why := matchSpec(s.st, o.ret, p, s.e, s.a, s.b, s.n)
						x.check(s.st, "grammar", in.name, ok, fn.Pos(), "%s: %s", nm, why)
					}
				}
			})
		}
	}
	// escape sequences: ESC intermediates* final over 7-bit bytes; the first
	// byte may not introduce a C1 control
	var esc func(st *State, bs []*Term, i, ai int) []spec
	esc = func(st *State, bs []*Term, i, ai int) []spec {
		if i == len(bs) {
			return []spec{{st: st, a: -1}}
		}
		c := bs[i]
		var out []spec
		in, lo, hi := forkIn(st, c, 0x30, 0x7E)
		_ = hi // DEL is assumed away
		if in != nil {
			s := spec{st: in, e: linK(c, 0xEF00), a: -1, n: 2 + i}
			if ai >= 0 {
				s.a, s.b = 1+ai, 1+i
				if i-ai == 1 {
					// character set selection: named by the intermediate
					s.e = linK(bs[ai], 0xEF00)
					s.a, s.b = 1+i, 2+i
				}
			}
			out = append(out, s)
		}
		if lo != nil { // intermediate (controls are assumed away)
			if ai < 0 {
				ai = i
			}
			out = append(out, esc(lo, bs, i+1, ai)...)
		}
		return out
	}
	for k := 0; k <= kmax; k++ {
		nm := fmt.Sprintf("ESC and %d bytes", k)
		r.analyse(nm, func(x *X) {
			x.unrollSt, x.noMerge = 4000, true
			st := newState()
			all := []*Term{mkInt(0x1B)}
			var bs []*Term
			for i := 0; i < k; i++ {
				b := mkAtom(fmt.Sprintf("b%d", i), byteT)
				st.assumeGe(linK(b, -0x20))
				st.assumeGe(linK(linNeg(b), 0x7E))
				bs = append(bs, b)
				all = append(all, b)
			}
			starts := []*State{st}
			if k > 0 {
				_, lo, hi := forkIn(st, bs[0], 0x40, 0x5F)
				starts = []*State{lo, hi}
			}
			for _, st := range starts {
				st = st.fork()
				p := x.elemSlice(st, byteT, all...)
				for _, o := range x.exec(st, fn, []*Term{p}, nil) {
					if o.panicked {
						x.check(o.st, "grammar", "ESC", false, fn.Pos(), "%s: panics %v", nm, o.pv)
						continue
					}
					for _, s := range esc(o.st.fork(), bs, 0, -1) {
						ok, why := matchSpec(s.st, o.ret, p, s.e, s.a, s.b, s.n)
						x.check(s.st, "grammar", "ESC", ok, fn.Pos(), "%s: %s", nm, why)
					}
				}
			}
		})
	}
	// control strings
	for _, c1 := range []int64{0x90, 0x9D, 0x9E, 0x9F} {
		for _, in := range []intro{{fmt.Sprintf("ESC %c", c1-0x40), []int64{0x1B, c1 - 0x40}}, {fmt.Sprintf("U+%04X", c1), []int64{0xC2, c1}}} {
			for k := 0; k <= kmax; k++ {
				for _, st8 := range [][]int64{nil, {0x1B, '\\'}, {0xC2, 0x9C}} {
					nm := fmt.Sprintf("%s, %d printable bytes, terminator % x", in.name, k, st8)
					r.analyse(nm, func(x *X) {
						x.unrollSt, x.noMerge = 4000, true
						st := newState()
						var all []*Term
						for _, b := range in.bytes {
							all = append(all, mkInt(b))
						}
						for i := 0; i < k; i++ {
							b := mkAtom(fmt.Sprintf("b%d", i), byteT)
							st.assumeGe(linK(b, -0x20))
							st.assumeGe(linK(linNeg(b), 0x7E))
							all = append(all, b)
						}
						for _, b := range st8 {
							all = append(all, mkInt(b))
						}
						p := x.elemSlice(st, byteT, all...)
						for _, o := range x.exec(st, fn, []*Term{p}, nil) {
							if o.panicked {
								x.check(o.st, "grammar", in.name, false, fn.Pos(), "%s: panics %v", nm, o.pv)
								continue
							}
							var e *Term
							a, b, n := -1, 0, 0
							if st8 != nil {
								e = mkInt(c1)
								a, b, n = len(in.bytes), len(in.bytes)+k, len(all)
							}
							ok, why := matchSpec(o.st, o.ret, p, e, a, b, n)
							x.check(o.st, "grammar", in.name, ok, fn.Pos(), "%s: %s", nm, why)
						}
					})
				}
			}
		}
	}
}

func matchSpec(st *State, ret []*Term, p, e *Term, a, b, n int) (bool, string) {
	ge, ga, gn := st.f.rw(ret[0]), st.f.rw(ret[1]), st.f.rw(ret[2])
	if e == nil {
		if !st.isTrue(mkEq0(ge)) || !st.isTrue(mkEq0(gn)) {
			return false, fmt.Sprintf("no complete sequence, but decodes %v consuming %v bytes", ge, gn)
		}
		return true, ""
	}
	if !st.eq(ge, e) || !st.eq(gn, mkInt(int64(n))) {
		return false, fmt.Sprintf("decodes %v consuming %v bytes, want %v consuming %v", ge, gn, e, n)
	}
	if a < 0 || a == b {
		if ga.op != ONil && !st.isTrue(mkEq0(lenOf(ga))) {
			return false, fmt.Sprintf("argument %v, want none", ga)
		}
		return true, ""
	}
	if ga.op != OSlice || ga.args[0] != p.args[0] || !st.eq(ga.args[1], mkInt(int64(a))) || !st.eq(ga.args[2], mkInt(int64(b-a))) {
		return false, fmt.Sprintf("argument %v, want bytes %d to %d", ga, a, b)
	}
	return true, ""
}

// ---- C07

// progressHook records a progress obligation per loop.
func progressHook(rule string) func(x *X, st *State, fn *ssa.Function, header *ssa.BasicBlock, ok bool) {
	return func(x *X, st *State, fn *ssa.Function, header *ssa.BasicBlock, ok bool) {
		pos := token.NoPos
		for _, in := range header.Instrs {
			if in.Pos().IsValid() {
				pos = in.Pos()
				break
			}
		}
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		n := 0
		for h := range infoOf(fn).loops {
			if h.Index < header.Index {
				n++
			}
		}
		x.check(st, rule, fmt.Sprintf("%s: loop %d", shortFn(fn), n+1), ok, pos, "an iteration may leave every position, length and count unchanged: the loop may never end")
	}
}

func c07(r *Run) {
	w := r.w
	r.rule("progress", "every iteration of a decoding loop advances a position bounded by the input, whatever the input", 8)
	r.rule("one-rune", "every rune or escape handed to a processor stands for at least one newly consumed byte", 2)
	r.rule("bounds", "the loops index within the input", 1)
	sum := decodeEscapeSummary(w)
	procT := w.typ("", "Processor").Underlying().(*types.Interface)
	procM := procT.Method(0).Name()
	run := func(pkg, name string, min int, setup func(x *X)) {
		fn := w.fn(pkg, name)
		r.analyse(shortFn(fn), func(x *X) {
			x.h.progress = progressHook("progress")
			x.h.call = sum
			if setup != nil {
				setup(x)
			}

			st := newState()
			as := paramAtoms(fn)
			nonNilParams(st, as)
			x.exec(st, fn, as, nil)
		})
	}
	sc := w.spkg[w.pkgPath("ansi")].Pkg.Scope()
	for _, n := range sc.Names() {
		if f, ok := sc.Lookup(n).(*types.Func); ok && strings.HasPrefix(n, "Decode") {
			fn := w.prog.FuncValue(f)
			r.analyse(shortFn(fn), func(x *X) {
				x.h.progress = progressHook("progress")

				st := newState()
				x.exec(st, fn, paramAtoms(fn), nil)
			})
		}
	}
	// consumers: count consumed bytes between deliveries
	consumers := []struct {
		pkg, fn string
		deliver func(ci *CallInfo) bool
	}{
		{"", "Process", func(ci *CallInfo) bool { return ci.method != nil && ci.method.Name() == procM }},
		{"x/platform", "(*Events).DecodeBytes", func(ci *CallInfo) bool { return ci.fn == w.fn("x/platform", "(*Events).add") }},
		{"cmd/to24bit", "processMore", func(ci *CallInfo) bool { return ci.fn == w.fn("cmd/to24bit", "process") }},
	}
	for _, c := range consumers {
		fn := w.fn(c.pkg, c.fn)
		r.analyse(shortFn(fn), func(x *X) {
			x.h.progress = progressHook("progress")
			x.h.bounds = boundsHook("bounds")
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				if ci.name() == "unicode/utf8.DecodeRune" {
					outs := decodeRuneModel(false)(x, st, ci)
					for i := range outs {
						outs[i].st.setG("avail", linAdd(outs[i].st.gInt("avail"), outs[i].ret[1]))
					}
					return outs, true
				}
				if c.deliver(ci) {
					x.check(st, "one-rune", shortFn(fn), st.f.prove(linK(st.gInt("avail"), -1)), ci.site.Pos(), "a rune or escape is delivered although nothing was decoded for it")
					st.setG("avail", tZero)
					sig := ci.site.Common().Signature()
					var rs []*Term
					for i := 0; i < sig.Results().Len(); i++ {
						rs = append(rs, freshVal("delivered", sig.Results().At(i).Type()))
					}
					return ret(st, rs...), true
				}
				if outs, ok := sum(x, st, ci); ok {
					for i := range outs {
						v := outs[i].ret[2]
						if outs[i].ret[0] == tZero {
							v = tZero
						}
						outs[i].st.setG("avail", v)
					}
					return outs, true
				}
				return nil, false
			}
			st := newState()
			as := paramAtoms(fn)
			nonNilParams(st, as)
			for _, o := range x.exec(st, fn, as, nil) {
				x.check(o.st, "progress", shortFn(fn)+": panic", !o.panicked, fn.Pos(), "panics %v", o.pv)
				if fn.Name() == "Process" && !o.panicked {
					ln := lenOf(as[1])
					x.check(o.st, "progress", shortFn(fn)+": consumed", o.st.f.prove(o.ret[0]) && o.st.f.prove(linSub(ln, o.ret[0])), fn.Pos(), "reports %v of %v bytes consumed", o.ret, ln)
				}
			}
		})
	}
	run("", "(*Cursor).ProcessANSI", 1, nil)
}
