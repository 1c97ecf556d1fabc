package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C21"] = c21 }

// splitSeq is a stream of bytes: lo..hi each, in units that are delivered whole.
type splitSeq struct {
	name  string
	units [][][2]int64 // the units, each its bytes
	input bool         // for input too: no unit starts with an ESC that may stand alone
	opaq  bool         // bytes are reordered or dropped by decoding
	whole bool         // not to be split within a unit when processing
}

func bs(parts ...any) (out [][2]int64) {
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			for i := 0; i < len(p); i++ {
				out = append(out, [2]int64{int64(p[i]), int64(p[i])})
			}
		case [2]int64:
			out = append(out, p)
		}
	}
	return
}

func splitSeqs(thorough bool) []splitSeq {
	dig, par, inter, fin := [2]int64{'0', '9'}, [2]int64{0x30, 0x3F}, [2]int64{0x20, 0x2F}, [2]int64{0x40, 0x7E}
	txt, efin := [2]int64{0x20, 0x7E}, [2]int64{0x60, 0x7E}
	ctl := [2]int64{0, 0x17}
	var out []splitSeq
	add := func(name string, input bool, units ...[][2]int64) *splitSeq {
		out = append(out, splitSeq{name: name, units: units, input: input})
		return &out[len(out)-1]
	}
	for _, c := range []string{"\x1b[", "\u009b"} {
		in := true
		add(fmt.Sprintf("%q final", c), in, bs(txt), bs(c, fin), bs(txt))
		add(fmt.Sprintf("%q parameters final", c), in, bs(c, par, par, fin), bs(txt))
		add(fmt.Sprintf("%q parameters intermediate final", c), in, bs(c, dig, inter, fin), bs(txt))
		add(fmt.Sprintf("%q twice", c), in, bs(c, dig, fin), bs(c, dig, fin), bs("a"))
		if thorough {
			add(fmt.Sprintf("%q long", c), in, bs(txt), bs(c, par, dig, par, dig, inter, fin), bs(c, fin), bs(txt))
		}
	}
	add("ESC final", false, bs(txt), bs("\x1b", efin), bs(txt))
	add("ESC intermediate final", false, bs("\x1b", inter, efin), bs(txt))
	add("ESC intermediates final", false, bs("\x1b", inter, inter, efin), bs(txt))
	add("ESC as C1", false, bs(txt), bs("\x1bD"), bs("\x1bM"), bs("\x1bE"), bs(txt))
	add("C1", true, bs(txt), bs("\u0084"), bs("\u008d"), bs(txt))
	add("cancelled ESC", false, bs("\x1b\x18"), bs("\x1b[", dig, fin), bs(txt)).opaq = true
	add("cancelled ESC intermediate", false, bs("\x1b", inter, "\x18"), bs("\x1b(0"), bs(txt)).opaq = true
	add("control within ESC", false, bs("\x1b(\n0"), bs(txt)).opaq = true
	for _, c := range []string{"\x1bP", "\x1b]", "\x1b^", "\x1b_", "\u0090", "\u009d", "\u009e", "\u009f"} {
		for i, t := range []string{"\x1b\\", "\u009c"} {
			if !thorough && i != len(c)%2 && c != "\x1b]" {
				continue
			}
			add(fmt.Sprintf("%q text %q", c, t), true, bs(txt), bs(c, [2]int64{0x20, 0x5B}, "x", t), bs(txt)).whole = true
		}
	}
	add("ESC and an invalid byte", false, bs("\x1b\xff"), bs("c"), bs(txt)).opaq = true
	add("ESC intermediate and an invalid byte", false, bs("\x1b(\xff0"), bs(txt)).opaq = true
	add("string with invalid bytes", true, bs("\x1b]0;\xffx\xc0y\x1b\\"), bs(txt)).whole = true
	add("string with UTF-8", true, bs("\x1b]0;é\u2502\ufffd\x1b\\"), bs(txt)).whole = true
	add("text", true, bs(txt), bs(txt), bs(txt))
	add("controls", true, bs(ctl), bs(txt), bs("\n"), bs("\r"))
	add("UTF-8", true, bs("é"), bs("\u2502"), bs("😀"), bs(txt))
	add("UTF-8 and sequences", true, bs("\u2807"), bs("\x1b[", dig, "m"), bs("ÿ"), bs("\u009b", dig, "C"))
	add("replacement character", true, bs("\ufffd"), bs(txt))
	add("invalid UTF-8", true, bs("\x9f"), bs(txt), bs("\xe2"), bs(txt), bs("\xff"), bs("\xc0"), bs(txt))
	return out
}

func c21(r *Run) {
	w := r.w
	r.rule("process", "what is delivered to a processor does not depend on how the output is split into writes: each control, sequence and rune is delivered once, in order, when complete", 100)
	r.rule("unchanged", "processing leaves the bytes of well-formed output in the buffer as they were written", 60)
	r.rule("decode", "what is decoded from input does not depend on how it is split into reads, nor is anything decoded twice or lost", 60)
	r.rule("drain", "at the end of input everything left is decoded", 10)
	bufT, inT := w.typ("", "Buffer"), w.typ("", "Input")
	write, process := w.methodOf(bufT, "Write"), w.methodOf(bufT, "Process")
	decode := w.methodOf(inT, "Decode")
	decEsc := w.fn("ansi", "DecodeEscape")
	byteT := types.Typ[types.Uint8]
	ibuf, ieof := fieldPath(inT, "buf"), fieldPath(inT, "ateof")
	txt := [2]int64{0x20, 0x7E}
	for _, sq := range splitSeqs(r.tier == "thorough") {
		if d := os.Getenv("SPLIT"); d != "" && d != sq.name {
			continue
		}
		r.analyse(sq.name, func(x *X) {
			x.precise, x.noMerge = true, true
			x.unrollSt = 4000
			st0 := newState()
			var all []*Term
			var starts []int // offsets where a unit starts
			for _, u := range sq.units {
				starts = append(starts, len(all))
				for _, b := range u {
					if b[0] == b[1] {
						all = append(all, mkInt(b[0]))
						continue
					}
					t := mkAtom(fmt.Sprintf("byte%d", len(all)), byteT)
					if !st0.assumeGe(linK(t, -b[0])) || !st0.assumeGe(linK(linNeg(t), b[1])) {
						x.fail("cannot bound a byte")
					}
					all = append(all, t)
				}
			}
			for i, t := range all {
				st0.setG(fmt.Sprint("arg", i), t)
			}
			inside := func(k int) bool {
				for _, s := range starts {
					if s == k {
						return false
					}
				}
				return k > 0 && k < len(all)
			}
			deliver := func(st *State, e *Term, content *Term) {
				var its []*Term
				if o := st.g("got"); o != nil {
					its = append(its, o.args...)
				}
				st.setG("got", mkApp("items", nil, append(its, mkApp("got", nil, e, content))...))
			}
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				if ci.method != nil && ci.method.Name() == "ProcessANSI" {
					deliver(st, ci.args[0], x.contents(st, ci.args[1]))
					return ret(st), true
				}
				return nil, false
			}
			// process writes and processes parts in turn
			var runP func(st *State, p *Term, parts [][]*Term, f func(st *State))
			runP = func(st *State, p *Term, parts [][]*Term, f func(st *State)) {
				if len(parts) == 0 {
					f(st)
					return
				}
				for _, o := range x.exec(st, write, []*Term{p, x.elemSlice(st, byteT, parts[0]...)}, nil) {
					for _, o := range x.exec(o.st, process, []*Term{p, tok("the-processor")}, nil) {
						if o.panicked {
							x.check(o.st, "process", sq.name, false, process.Pos(), "panics with %v", o.pv)
							continue
						}
						runP(o.st, p, parts[1:], f)
					}
				}
			}
			// decode appends parts to the input in turn and decodes all there is
			var runD func(st *State, p *Term, parts [][]*Term, eof bool, f func(st *State))
			runD = func(st *State, p *Term, parts [][]*Term, eof bool, f func(st *State)) {
				if len(parts) == 0 {
					f(st)
					return
				}
				bufAppend(x, st, addrPath(p, ibuf...), x.elemSlice(st, byteT, parts[0]...))
				st.store(addrPath(p, ieof...), mkBool(eof && len(parts) == 1))
				var loop func(st *State, n int)
				loop = func(st *State, n int) {
					if n > 40 {
						x.fail("decoding does not end")
					}
					for _, o := range x.exec(st, decode, []*Term{p}, nil) {
						if o.panicked {
							x.check(o.st, "decode", sq.name, false, decode.Pos(), "panics with %v", o.pv)
							continue
						}
						switch {
						case o.st.isTrue(o.ret[2]):
							deliver(o.st, o.ret[0], x.contents(o.st, o.ret[1]))
							loop(o.st, n+1)
						case o.st.isTrue(mkNot(o.ret[2])):
							runD(o.st, p, parts[1:], eof, f)
						default:
							x.fail("unknown whether decoded: %v", o.ret[2])
						}
					}
				}
				loop(st, 0)
			}
			same := func(st *State, a, b *Term) bool {
				var x, y []*Term
				if a != nil {
					x = a.args
				}
				if b != nil {
					y = b.args
				}
				if len(x) != len(y) {
					return false
				}
				for i := range x {
					if !st.eq(x[i].args[0], y[i].args[0]) || !sameCat(st, catNorm(st, x[i].args[1]), catNorm(st, y[i].args[1])) {
						return false
					}
				}
				return true
			}
			show := func(st *State, a *Term) string {
				var s []string
				if a != nil {
					for _, it := range a.args {
						s = append(s, fmt.Sprintf("%v %v", st.f.rw(it.args[0]), catNorm(st, it.args[1])))
					}
				}
				return strings.Join(s, "; ")
			}
			// alone gives what a unit is by itself
			alone := func(st *State, u []*Term, f func(st *State, e, a *Term)) {
				none := x.contents(st, x.elemSlice(st, byteT))
				for _, o := range x.exec(st, decEsc, []*Term{x.elemSlice(st, byteT, u...)}, nil) {
					if o.panicked {
						continue
					}
					if !o.st.isTrue(mkEq0(o.ret[0])) {
						f(o.st, o.ret[0], x.contents(o.st, o.ret[1]))
					} else if len(u) == 1 {
						if b := o.st.f.rw(u[0]); b.op == OConst && b.k >= 0x80 {
							f(o.st, mkInt(0xFFFD), none)
						} else {
							f(o.st, u[0], none)
						}
					} else {
						var p []byte
						for _, t := range u {
							p = append(p, byte(t.k))
						}
						c, _ := utf8.DecodeRune(p)
						if len(p) == 2 && p[0] == 0x1B && 0x40 <= p[1] && p[1] <= 0x5F {
							c = rune(p[1]) + 0x40 // ESC Fe stands for a C1 control
						}
						f(o.st, mkInt(int64(c)), none)
					}
				}
			}
			judge := func(rule string, fn *ssa.Function, fresh func(st *State) *Term, run func(st *State, p *Term, parts [][]*Term, f func(st *State)), skip func(k int) bool, after func(st *State, p *Term, at string)) {
				run0 := st0.fork()
				p := fresh(run0)
				run(run0, p, [][]*Term{all}, func(st *State) {
					want := st.g("got")
					st.setG("want", want)
					n := 0
					if want != nil {
						n = len(want.args)
					}
					x.check(st, rule, sq.name+": units", n == len(sq.units) || sq.opaq, fn.Pos(), "delivers %d units of %d: %s", n, len(sq.units), show(st, want))
					if last := sq.units[len(sq.units)-1]; len(last) == 1 && last[0] == txt { // nothing is held back for ever
						ok := n > 0 && st.eq(want.args[n-1].args[0], all[len(all)-1])
						x.check(st, rule, sq.name+": text after it", ok, fn.Pos(), "the text at the end is not delivered: %s", show(st, want))
					}
					if n == len(sq.units) && !sq.opaq { // each is the unit that was written
						for i, it := range want.args {
							end := len(all)
							if i+1 < len(starts) {
								end = starts[i+1]
							}
							alone(st.fork(), all[starts[i]:end], func(s *State, e, a *Term) {
								ok := s.eq(it.args[0], e) && sameCat(s, catNorm(s, it.args[1]), catNorm(s, a))
								x.check(s, rule, fmt.Sprintf("%s: unit %d", sq.name, i+1), ok, fn.Pos(), "delivers %v %v, want %v %v", s.f.rw(it.args[0]), catNorm(s, it.args[1]), s.f.rw(e), catNorm(s, a))
							})
						}
					}
					after(st, p, sq.name)
					for k := 1; k < len(all); k++ {
						if skip(k) {
							continue
						}
						s := st.fork()
						s.setG("got", mkApp("items", nil))
						q := fresh(s)
						run(s, q, [][]*Term{all[:k], all[k:]}, func(s *State) {
							got := s.g("got")
							x.check(s, rule, fmt.Sprintf("%s: split at %d", sq.name, k), same(s, got, s.g("want")), fn.Pos(), "delivers %s; when not split %s", show(s, got), show(s, s.g("want")))
							after(s, q, fmt.Sprintf("%s: split at %d", sq.name, k))
						})
					}
					if len(all) <= 8 && !sq.whole { // byte by byte
						s := st.fork()
						s.setG("got", mkApp("items", nil))
						q := fresh(s)
						var parts [][]*Term
						for k := range all {
							if k > 0 && skip(k) {
								return
							}
							parts = append(parts, all[k:k+1])
						}
						run(s, q, parts, func(s *State) {
							got := s.g("got")
							x.check(s, rule, sq.name+": byte by byte", same(s, got, s.g("want")), fn.Pos(), "delivers %s; when not split %s", show(s, got), show(s, s.g("want")))
						})
					}
				})
			}
			judge("process", process, func(st *State) *Term {
				return x.objWith(st, "buffer", bufT, zeroVal(bufT))
			}, runP, func(k int) bool { return sq.whole && inside(k) }, func(st *State, p *Term, at string) {
				if sq.opaq {
					return
				}
				buf, _ := bufFields(st, addrPath(p, fieldPath(bufT, "buf")...))
				got, want := catNorm(st, x.contents(st, buf)), catNorm(st, x.contents(st, x.elemSlice(st, byteT, all...)))
				x.check(st, "unchanged", at, sameCat(st, got, want), process.Pos(), "the buffer holds %v, written was %v", got, want)
			})
			fresh := func(st *State) *Term { return x.objWith(st, "input", inT, zeroVal(inT)) }
			esc := func(k int) bool { // an ESC that ends a read may stand alone
				b := all[k-1]
				if !sq.input && (inside(k) || sq.opaq) {
					return true
				}
				return b.op == OConst && b.k == 0x1B && !(k >= 2 && sq.whole && inside(k) && inside(k-1))
			}
			judge("decode", decode, fresh, func(st *State, p *Term, parts [][]*Term, f func(st *State)) { runD(st, p, parts, false, f) }, esc, func(st *State, p *Term, at string) {})
			// whatever prefix is left at the end of input is decoded
			for k := 1; k <= len(all); k++ {
				s := st0.fork()
				p := fresh(s)
				runD(s, p, [][]*Term{all[:k]}, true, func(st *State) {
					buf, off := bufFields(st, addrPath(p, ibuf...))
					x.check(st, "drain", fmt.Sprintf("%s: %d bytes", sq.name, k), st.eq(lenOf(st.f.rw(buf)), off), decode.Pos(), "leaves %v of %v bytes", linSub(lenOf(buf), off), lenOf(buf))
				})
			}
		})
	}
}
