package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C23"] = c23 }

// growModel gives a buffer of known contents room for n (but at most max) more bytes.
func growModel(x *X, st *State, p, n *Term, max int64) []Out {
	b, off := bufFields(st, p)
	bs, ok := x.elems(st, b)
	o, ok2 := st.constOf(off)
	k, ok3 := st.constOf(st.f.rw(n))
	if !ok || !ok2 || !ok3 {
		x.fail("growing a buffer of unknown size")
	}
	if k < 0 {
		return x.panicOut(st, "negative count")
	}
	if max > 0 && k > max {
		k = max
	}
	bs = bs[o:]
	l := int64(len(bs))
	for i := int64(0); i < k; i++ {
		bs = append(bs, mkAtom(fmt.Sprint("stale", i), byteT))
	}
	s := x.elemSlice(st, byteT, bs...)
	st.store(addrPath(p, mkFld(0)), mkSlice(s.args[0], tZero, mkInt(l), mkInt(l+k)))
	st.store(addrPath(p, mkFld(1)), tZero)
	return ret(st)
}

// c23: the filter programs.
func c23(r *Run) {
	w := r.w
	r.rule("pass", "to24bit passes on whatever is no color, exactly and in order, however it arrives", 100)
	r.rule("convert", "to24bit converts every legacy color, foreground and background, to the same 24-bit color, keeping all other attributes", 500)
	r.rule("describe", "decode passes on each rune, and shows each escape with its argument (strip: drops it), once and in order, however it arrives", 100)
	r.rule("end", "the filters end without failure at the end of input, all output flushed, and report any other failure", 8)
	in, outTok := tok("stdin"), tok("stdout")
	eof := tok("EOF")
	eofObj := globalObj(w.prog.ImportedPackage("io").Var("EOF"))
	stdinObj := globalObj(w.prog.ImportedPackage("os").Var("Stdin"))
	stdoutObj := globalObj(w.prog.ImportedPackage("os").Var("Stdout"))
	readErr, writeErr := tok("read failed"), tok("write failed")
	main24 := w.tryFn("cmd/to24bit", "main")
	batch := w.tryFn("cmd/decode", "runBatch")
	if main24 == nil || batch == nil {
		panic(anchorErr{"the filter programs were not found", false})
	}
	var stripVar *ssa.Global
	if sp := w.spkg[w.pkgPath("cmd/decode")]; sp != nil {
		stripVar = sp.Var("stripMode")
	}

	put := func(st *State, ps ...*Term) {
		var its []*Term
		if o := st.g("out"); o != nil {
			its = append(its, o.args...)
		}
		st.setG("out", mkApp("items", nil, append(its, ps...)...))
	}
	outOf := func(st *State) []*Term {
		if o := st.g("out"); o != nil {
			return o.args
		}
		return nil
	}
	flush := func(st *State) {
		b := mkApp("items", nil)
		if p := st.g("pending"); p != nil {
			b = p
		}
		put(st, b.args...)
		st.setG("pending", mkApp("items", nil))
	}
	pend := func(x *X, st *State, ps ...*Term) {
		var its []*Term
		if o := st.g("pending"); o != nil {
			its = append(its, o.args...)
		}
		st.setG("pending", mkApp("items", nil, append(its, ps...)...))
	}
	encode := func(x *X, st *State, rn *Term) []*Term {
		if k, ok := st.constOf(st.f.rw(rn)); ok {
			return byteStr(string(rune(k)))
		}
		if st.f.prove(rn) && st.f.prove(linK(linNeg(rn), 0x7F)) {
			return []*Term{rn}
		}
		x.fail("writes an unknown rune %v", rn)
		return nil
	}
	bytesOf := func(x *X, st *State, s *Term) []*Term {
		s = st.f.rw(s)
		if s.op == OStr {
			return byteStr(s.name)
		}
		es, ok := x.elems(st, s)
		if !ok {
			x.fail("writes %v", s)
		}
		return es
	}
	// hooks for a run reading chunks
	setup := func(x *X, st *State, chunks [][]*Term, endErr *Term, wfail bool) {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		st.setMem(eofObj, eof)
		st.setMem(stdinObj, in)
		st.setMem(stdoutObj, outTok)
		for _, m := range w.spkg[w.pkgPath("cmd/to24bit")].Members { // its buffers start out empty
			if g, ok := m.(*ssa.Global); ok {
				if t := g.Type().(*types.Pointer).Elem(); t.String() == "bytes.Buffer" {
					st.setMem(globalObj(g), zeroVal(t))
				}
			}
		}
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if v.op == OApp && v.name == "tok" {
				if types.IsInterface(in.AssertedType) {
					return 1
				}
				return 0
			}
			return -1
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			nm := ci.name()
			isW := strings.HasPrefix(nm, "(*bufio.Writer).")
			if ci.method != nil && ci.recv != nil {
				rv := ci.recv
				if rv.op == OIface {
					rv = rv.args[0]
				}
				isW = rv.op == OApp && rv.name == "tok" && rv.args[0].name == "bufio"
			}
			switch {
			case nm == "(*os.File).Read", ci.method != nil && ci.method.Name() == "Read":
				i, _ := st.constOf(st.gInt("reads"))
				st.setG("reads", mkInt(i+1))
				if int(i) >= len(chunks) {
					if int(i) > len(chunks) {
						x.check(st, "end", "reading on", false, ci.site.Pos(), "reads on after %v", endErr)
						return []Out{{st: st, panicked: true, pv: mkStr("stop")}}, true
					}
					return ret(st, tZero, endErr), true
				}
				p := st.f.rw(toSlice(ci.args[len(ci.args)-1]))
				n := int64(len(chunks[i]))
				if !st.f.prove(linK(p.args[2], -n)) {
					x.fail("no room to read %d bytes", n)
				}
				for j, b := range chunks[i] {
					st.store(addrPath(p.args[0], linK(p.args[1], int64(j))), b)
				}
				return ret(st, mkInt(n), tNil), true
			case nm == "bufio.NewWriter", nm == "bufio.NewWriterSize":
				return ret(st, tok("bufio")), true
			case nm == "(*bytes.Buffer).Grow":
				return growModel(x, st, ci.args[0], ci.args[1], 48), true
			case isW:
				args := ci.args
				if ci.method == nil {
					args = args[1:]
				}
				switch ci.mname() {
				case "Flush":
					if wfail {
						st.setG("failed", tOne)
						return ret(st, writeErr), true
					}
					flush(st)
					return ret(st, tNil), true
				case "WriteRune":
					es := encode(x, st, args[0])
					pend(x, st, es...)
					return ret(st, mkInt(int64(len(es))), tNil), true
				case "Write", "WriteString":
					es := bytesOf(x, st, args[0])
					pend(x, st, es...)
					return ret(st, mkInt(int64(len(es))), tNil), true
				case "WriteByte":
					pend(x, st, args[0])
					return ret(st, tNil), true
				}
			case nm == "fmt.Fprintf":
				// each escape shown is marked in the output by its identifier and argument bytes
				vs, ok := x.elems(st, ci.args[2])
				if !ok {
					x.fail("prints %v", ci.args)
				}
				m := []*Term{ci.args[1]}
				for _, v := range vs {
					v = st.f.rw(v)
					if v.op == OIface && contentTypeIsBytes(v.ref) {
						m = append(m, mkApp("bytes", nil, bytesOf(x, st, v.args[0])...))
						continue
					}
					if v.op == OIface {
						v = v.args[0]
					}
					m = append(m, v)
				}
				pend(x, st, mkApp("shown", nil, m...))
				return ret(st, tOne, tNil), true
			case nm == "log.Fatalln", nm == "log.Fatal", nm == "log.Fatalf", nm == "os.Exit":
				st.setG("fatal", tOne)
				return []Out{{st: st, panicked: true, pv: mkStr("exit")}}, true
			case strings.HasPrefix(nm, "log.Print"):
				return ret(st), true
			}
			return nil, false
		}
	}
	eq := func(st *State, got, want []*Term) bool {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if got[i] != want[i] && !st.eq(got[i], want[i]) {
				return false
			}
		}
		return true
	}
	concrete := func(st *State, out []*Term) (string, bool) {
		var sb strings.Builder
		for _, b := range out {
			k, ok := st.constOf(st.f.rw(b))
			if !ok {
				return "", false
			}
			sb.WriteByte(byte(k))
		}
		return sb.String(), true
	}
	run24 := func(x *X, st *State, nm string, f func(st *State, fatal bool)) {
		for _, o := range x.exec(st, main24, nil, nil) {
			if o.panicked {
				if o.pv != nil && o.pv.op == OStr && o.pv.name == "exit" {
					f(o.st, true)
				} else if o.pv == nil || o.pv.op != OStr || o.pv.name != "stop" {
					x.check(o.st, "pass", nm, false, main24.Pos(), "panics with %v", o.pv)
				}
				continue
			}
			f(o.st, false)
		}
	}
	thorough := r.tier == "thorough"
	atoms := func(x *X, st *State, sq splitSeq) (all, norm []*Term, starts map[int]bool) {
		starts = map[int]bool{}
		for _, u := range sq.units {
			starts[len(all)] = true
			for i, b := range u {
				t := mkInt(b[0])
				if b[0] != b[1] {
					t = mkAtom(fmt.Sprintf("byte%d", len(all)), byteT)
					lo, hi := b[0], b[1]
					if !st.assumeGe(linK(t, -lo)) || !st.assumeGe(linK(linNeg(t), hi)) {
						x.fail("cannot bound a byte")
					}
				}
				st.setG(fmt.Sprint("arg", len(all)), t)
				all = append(all, t)
				// C1 controls may come out in their 7-bit form
				if k := len(norm); i > 0 && b[0] == b[1] && b[0] >= 0x80 && b[0] <= 0x9F && isConst(norm[k-1], 0xC2) {
					norm[k-1] = mkInt(0x1B)
					norm = append(norm, mkInt(b[0]-0x40))
					continue
				}
				norm = append(norm, t)
			}
		}
		return
	}
	// the same normalisation of what comes out
	normal := func(out []*Term) []*Term {
		var norm []*Term
		for _, b := range out {
			if k := len(norm); b.op == OConst && b.k >= 0x80 && b.k <= 0x9F && k > 0 && isConst(norm[k-1], 0xC2) {
				norm[k-1] = mkInt(0x1B)
				norm = append(norm, mkInt(b.k-0x40))
				continue
			}
			norm = append(norm, b)
		}
		return norm
	}
	for _, sq := range splitSeqs(thorough) {
		if sq.opaq {
			continue
		}
		r.analyse("to24bit: "+sq.name, func(x *X) {
			st0 := newState()
			all, want, _ := atoms(x, st0, sq)
			judge := func(chunks [][]*Term, at string) {
				st := st0.fork()
				setup(x, st, chunks, eof, false)
				run24(x, st, at, func(st *State, fatal bool) {
					x.check(st, "end", "to24bit: "+sq.name, !fatal, main24.Pos(), "fails at the end of input")
					got := normal(outOf(st))
					if !eq(st, got, want) {
						// a color may have been converted: that is judged below
						if hasSGR(st, all) {
							return
						}
					}
					x.check(st, "pass", at, eq(st, got, want), main24.Pos(), "gives %s, want %s", showBytes(got), showBytes(want))
				})
			}
			judge([][]*Term{all}, sq.name)
			for k := 1; k < len(all); k++ {
				if sq.whole && !(k == len(sq.units[0])) {
					continue
				}
				judge([][]*Term{all[:k], all[k:]}, fmt.Sprintf("%s: split at %d", sq.name, k))
			}
		})
	}
	// colors
	colT := w.typ("ansi", "SGRColor")
	rgbM := w.methodOf(colT, "RGB")
	rgbOf := func(x *X, n int) [3]int {
		var c [3]int
		for _, o := range x.exec(newState(), rgbM, []*Term{mkInt(int64(n))}, nil) {
			for i := range c {
				k, ok := o.st.constOf(o.st.f.rw(o.ret[i]))
				if !ok {
					x.fail("unknown color %d", n)
				}
				c[i] = int(k)
			}
		}
		return c
	}
	type conv struct {
		arg    string
		fg, bg int // legacy color, or -1
		rest   string
	}
	var convs []conv
	for i := 0; i < 8; i++ {
		convs = append(convs, conv{fmt.Sprint(30 + i), i, -1, ""}, conv{fmt.Sprint(90 + i), 8 + i, -1, ""},
			conv{fmt.Sprint(40 + i), -1, i, ""}, conv{fmt.Sprint(100 + i), -1, 8 + i, ""})
	}
	step := 1
	for i := 0; i < 256; i += step {
		convs = append(convs, conv{fmt.Sprint("38;5;", i), i, -1, ""}, conv{fmt.Sprint("48;5;", i), -1, i, ""})
	}
	convs = append(convs, conv{"1;31", 1, -1, "1"}, conv{"31;1", 1, -1, "1"}, conv{"31;42", 1, 2, ""}, conv{"0;1;4;93;48;5;200", 11, 200, "0 1 4"},
		conv{"7;107", -1, 15, "7"}, conv{"2;3;8;38;5;16;48;5;255", 16, 255, "2 3 8"}, conv{"38;2;1;2;3;44", -2, 4, ""}, conv{"41;38;2;1;2;3", -2, 1, ""},
		conv{"48;2;9;8;7;35", 5, -2, ""}, conv{"38;2;1;2;3", -2, -1, ""}, conv{"48;2;9;8;7", -1, -2, ""}, conv{"", -1, -1, ""}, conv{"0", -1, -1, "0"},
		conv{"1;4", -1, -1, "1 4"}, conv{"22", -1, -1, "22"}, conv{"39", -1, -1, "39"}, conv{"31;44;0", -1, -1, "0"})
	r.analyse("to24bit: colors", func(x *X) {
		for _, c := range convs {
			text := byteStr("a\x1b[" + c.arg + "mb")
			splits := [][][]*Term{{text}}
			if strings.Contains(c.arg, ";") && !strings.HasPrefix(c.arg, "38;5") && !strings.HasPrefix(c.arg, "48;5") {
				for k := 1; k < len(text); k++ {
					splits = append(splits, [][]*Term{text[:k], text[k:]})
				}
			}
			for k, chunks := range splits {
				nm := fmt.Sprintf("CSI %s m", c.arg)
				if k > 0 {
					nm += fmt.Sprint(": split at ", k)
				}
				st := newState()
				setup(x, st, chunks, eof, false)
				run24(x, st, nm, func(st *State, fatal bool) {
					s, ok := concrete(st, outOf(st))
					if !ok || fatal {
						x.check(st, "convert", nm, false, main24.Pos(), "gives %s", showBytes(outOf(st)))
						return
					}
					want := map[string]bool{}
					for _, f := range strings.Fields(c.rest) {
						want[f] = true
					}
					col := func(which string, n int, lit [3]int) {
						switch {
						case n == -2:
							want[fmt.Sprintf("%s;2;%d;%d;%d", which, lit[0], lit[1], lit[2])] = true
						case n >= 0:
							v := rgbOf(x, n)
							want[fmt.Sprintf("%s;2;%d;%d;%d", which, v[0], v[1], v[2])] = true
						}
					}
					col("38", c.fg, [3]int{1, 2, 3})
					col("48", c.bg, [3]int{9, 8, 7})
					got := map[string]bool{}
					arg, ok := "", false
					if strings.HasPrefix(s, "a\x1b[") && strings.HasSuffix(s, "mb") {
						arg, ok = s[3:len(s)-2], true
					}
					fs := strings.Split(arg, ";")
					for i := 0; i < len(fs); i++ {
						if (fs[i] == "38" || fs[i] == "48") && i+4 < len(fs) && fs[i+1] == "2" {
							got[strings.Join(fs[i:i+5], ";")] = true
							i += 4
							continue
						}
						if _, err := strconv.Atoi(fs[i]); err == nil {
							got[fs[i]] = true
						}
					}
					if c.arg == "31;44;0" { // or left as it was
						ok = ok && (fmt.Sprint(got) == fmt.Sprint(want) || arg == c.arg)
					} else {
						ok = ok && fmt.Sprint(got) == fmt.Sprint(want)
					}
					x.check(st, "convert", nm, ok, main24.Pos(), "becomes %q", s)
				})
			}
		}
	})
	r.analyse("to24bit: failures", func(x *X) {
		for _, c := range []struct {
			nm    string
			end   *Term
			wfail bool
			want  bool
		}{{"a failed read", readErr, false, true}, {"a failed write", eof, true, true}, {"the end of input", eof, false, false}} {
			st := newState()
			setup(x, st, [][]*Term{byteStr("a\x1b[31mb")}, c.end, c.wfail)
			run24(x, st, c.nm, func(st *State, fatal bool) {
				x.check(st, "end", "to24bit: "+c.nm, fatal == c.want, main24.Pos(), "fails: %v", fatal)
			})
		}
	})
	// decode
	if stripVar == nil {
		r.undecided("decode", "its strip option was not found")
		return
	}
	runB := func(x *X, st *State, strip bool, nm string, f func(st *State, err *Term)) {
		o := newObj("strip", types.Typ[types.Bool])
		st.setMem(o, mkBool(strip))
		st.setMem(globalObj(stripVar), mkAddr(o))
		for _, o := range x.exec(st, batch, []*Term{in, outTok}, nil) {
			if o.panicked {
				if o.pv == nil || o.pv.op != OStr || o.pv.name != "stop" {
					x.check(o.st, "describe", nm, false, batch.Pos(), "panics with %v", o.pv)
				}
				continue
			}
			f(o.st, o.ret[0])
		}
	}
	decodeSeq := w.fn("ansi", "DecodeEscape")
	for _, sq := range splitSeqs(thorough) {
		if sq.opaq || strings.Contains(sq.name, "invalid") {
			continue
		}
		for _, strip := range []bool{false, true} {
			nm := "decode: " + sq.name
			if strip {
				nm = "decode, stripping: " + sq.name
			}
			r.analyse(nm, func(x *X) {
				st0 := newState()
				all, _, _ := atoms(x, st0, sq)
				setup(x, st0, nil, eof, false)
				// what each unit is, by itself
				var units func(st *State, i int, want []*Term, f func(st *State, want []*Term))
				units = func(st *State, i int, want []*Term, f func(st *State, want []*Term)) {
					if i == len(sq.units) {
						f(st, want)
						return
					}
					lo := 0
					for _, u := range sq.units[:i] {
						lo += len(u)
					}
					u := all[lo : lo+len(sq.units[i])]
					p := x.elemSlice(st, byteT, u...)
					for _, o := range x.exec(st, decodeSeq, []*Term{p}, nil) {
						wn := append([]*Term(nil), want...)
						switch {
						case o.st.isTrue(mkEq0(o.ret[0])): // a rune
							wn = append(wn, u...)
						case !strip:
							m := []*Term{o.st.f.rw(o.ret[0])}
							if a, ok := x.elems(o.st, o.ret[1]); ok && len(a) > 0 {
								m = append(m, mkApp("bytes", nil, a...))
							}
							wn = append(wn, mkApp("esc", nil, m...))
						}
						units(o.st, i+1, wn, f)
					}
				}
				units(st0, 0, nil, func(st1 *State, want []*Term) {
					judge := func(chunks [][]*Term, at string) {
						st := st1.fork()
						setup(x, st, chunks, eof, false)
						runB(x, st, strip, at, func(st *State, err *Term) {
							x.check(st, "end", nm, st.isTrue(mkEqv(err, tNil)), batch.Pos(), "fails at the end of input with %v", err)
							got := normal(outOf(st))
							want := normal(want)
							ok := len(got) == len(want)
							for i := 0; ok && i < len(got); i++ {
								if want[i].op == OApp && want[i].name == "esc" {
									ok = shownAs(st, got[i], want[i])
								} else {
									ok = st.eq(got[i], want[i])
								}
							}
							x.check(st, "describe", at, ok, batch.Pos(), "gives %s, want %s", showBytes(got), showBytes(want))
						})
					}
					judge([][]*Term{all}, nm)
					for k := 1; k < len(all); k++ {
						judge([][]*Term{all[:k], all[k:]}, fmt.Sprintf("%s: split at %d", nm, k))
					}
				})
			})
		}
	}
	r.analyse("decode: failures", func(x *X) {
		for _, c := range []struct {
			nm    string
			end   *Term
			wfail bool
			want  *Term
		}{{"a failed read", readErr, false, readErr}, {"a failed write", eof, true, writeErr}} {
			st := newState()
			setup(x, st, [][]*Term{byteStr("ab")}, c.end, c.wfail)
			runB(x, st, false, c.nm, func(st *State, err *Term) {
				x.check(st, "end", "decode: "+c.nm, st.eq(err, c.want), batch.Pos(), "returns %v", err)
			})
		}
	})
}

// hasSGR says that the bytes may hold an SGR sequence.
func hasSGR(st *State, all []*Term) bool {
	for _, b := range all {
		if st.decide(mkEq0(linK(b, -'m'))) == 1 {
			return true
		}
	}
	return false
}

// shownAs says that what was printed shows the escape: it, or for SGR its
// decoded attribute or error, and its argument if any.
func shownAs(st *State, got, want *Term) bool {
	if got.op != OApp || got.name != "shown" || len(got.args) < 2 {
		return false
	}
	vs := got.args[1:]
	e := want.args[0]
	if st.decide(mkEq0(linK(e, -(0xEFC0+'m'-0x40)))) == 1 {
		return true // judged as text; the attribute itself is C09
	}
	if !st.eq(vs[0], e) {
		return false
	}
	if len(want.args) == 1 {
		return len(vs) == 1
	}
	if len(vs) != 2 || vs[1].op != OApp || vs[1].name != "bytes" || len(vs[1].args) != len(want.args[1].args) {
		return false
	}
	for i, a := range want.args[1].args {
		if !st.eq(vs[1].args[i], a) {
			return false
		}
	}
	return true
}

func contentTypeIsBytes(ref any) bool {
	t, ok := ref.(types.Type)
	if !ok {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
