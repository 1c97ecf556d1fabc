package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	clients["C08"] = c08
	clients["C10"] = c10
	clients["C11"] = c11
}

var byteT = types.Typ[types.Uint8]
var intT = types.Typ[types.Int]

// symSlice is an unknown slice value of element type et.
func symSlice(name string, et types.Type) *Term {
	return wrapT(mkAtom(name, types.NewSlice(et)))
}

func elemP(v *Term) *Term { return mk(OElem, "", 0, nil, nil, nil, v) }
func byteP(bs ...byte) []*Term {
	var out []*Term
	for _, b := range bs {
		out = append(out, elemP(mkInt(int64(b))))
	}
	return out
}
func strP(s string) []*Term { return byteP([]byte(s)...) }
func chunkP(s *Term) *Term  { return mkChunk(s, tZero, lenOf(s)) }

// contents is the normalised content of a slice value.
func (x *X) contents(st *State, s *Term) *Term { return catNorm(st, x.sliceContent(st, s)) }

// sameCat compares contents piecewise under the facts.
func sameCat(st *State, a, b *Term) bool {
	a, b = catNorm(st, a), catNorm(st, b)
	if a == b {
		return true
	}
	if a.op != OCat || b.op != OCat || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		p, q := a.args[i], b.args[i]
		if p == q {
			continue
		}
		if p.op != q.op {
			return false
		}
		for j := range p.args {
			if !st.eq(p.args[j], q.args[j]) {
				return false
			}
		}
	}
	return true
}

// escClass is one class of escape identifiers and how ECMA-48 encodes it.
type escClass struct {
	name   string
	lo, hi int64
	enc    func(id int64, arg []*Term) []*Term
	args   bool // takes argument bytes
	seq    bool // may be built into a sequence
}

func escClasses() []escClass {
	cat := func(ps ...[]*Term) []*Term {
		var out []*Term
		for _, p := range ps {
			out = append(out, p...)
		}
		return out
	}
	str := func(id int64, arg []*Term) []*Term {
		if len(arg) == 0 {
			return byteP(0x1b, byte(id-0x40))
		}
		return cat(byteP(0x1b, byte(id-0x40)), arg, byteP(0x1b, '\\'))
	}
	return []escClass{
		{"C0 control", 0x01, 0x1F, func(id int64, arg []*Term) []*Term { return byteP(byte(id)) }, false, true},
		{"C1 control", 0x80, 0x9F, func(id int64, arg []*Term) []*Term { return byteP(0x1b, byte(id-0x40)) }, false, false},
		{"device control string", 0x90, 0x90, str, true, false},
		{"string control", 0x9D, 0x9F, str, true, false},
		{"character set selection", 0xEF20, 0xEF2F, func(id int64, arg []*Term) []*Term { return cat(byteP(0x1b, byte(id&0x7F)), arg) }, true, true},
		{"escape sequence", 0xEF30, 0xEF7E, func(id int64, arg []*Term) []*Term { return cat(byteP(0x1b), arg, byteP(byte(id&0x7F))) }, true, true},
		{"control sequence", 0xEFC0, 0xEFFE, func(id int64, arg []*Term) []*Term { return cat(byteP(0x1b, '['), arg, byteP(byte(id&0x7F))) }, true, true},
	}
}

// c08: encoding of escape identifiers.
func c08(r *Run) {
	w := r.w
	r.rule("encode", "an identifier encodes, after whatever was already there, as the bytes ECMA-48 gives it", 400)
	r.rule("encode-args", "argument bytes are encoded between the introducer and the final byte (after the set byte of a character set selection, and between the introducer and the terminator of a string control)", 150)
	r.rule("encode-seq", "a built sequence encodes as its identifier with its arguments does", 180)
	r.rule("size", "the size of an identifier is exactly its encoded length, that of a sequence never less", 200)
	r.rule("nothing", "what is no escape identifier encodes to nothing and has size zero", 8)
	r.rule("names", "ESC and CSI identifiers, their byte names and the is-an-escape test agree", 300)
	r.rule("not-escape", "building a sequence of a normal rune, or giving integers to what is no control sequence, panics", 4)

	esc := w.typ("ansi", "Escape")
	seqT := w.typ("ansi", "Seq")
	appendTo, appendWith := w.methodOf(esc, "AppendTo"), w.methodOf(esc, "AppendWith")
	size, with := w.methodOf(esc, "Size"), w.methodOf(esc, "With")
	withInts := w.methodOf(esc, "WithInts")
	seqAppend, seqSize := w.methodOf(seqT, "AppendTo"), w.methodOf(seqT, "Size")

	p := symSlice("p", byteT)
	chk := func(x *X, rule, construct string, fn *ssa.Function, o Out, want []*Term) {
		if o.panicked {
			x.check(o.st, rule, construct, false, fn.Pos(), "panics with %v", o.pv)
			return
		}
		got := x.contents(o.st, o.ret[0])
		wt := mkCat(append([]*Term{x.contents(o.st, p)}, want...))
		x.check(o.st, rule, construct, sameCat(o.st, got, wt), fn.Pos(), "appends %s, want %s (%v)", elemsStr(got), elemsStr(wt), got)
	}
	for _, c := range escClasses() {
		r.analyse("encoding of every "+c.name, func(x *X) {
			x.precise = true
			for id := c.lo; id <= c.hi; id++ {
				nm := fmt.Sprintf("%s U+%04X", c.name, id)
				want := c.enc(id, nil)
				for _, o := range x.exec(newState(), appendTo, []*Term{mkInt(id), p}, nil) {
					chk(x, "encode", nm, appendTo, o, want)
				}
				for _, o := range x.exec(newState(), appendWith, []*Term{mkInt(id), p, tNil}, nil) {
					chk(x, "encode", nm+" without arguments", appendWith, o, want)
				}
				for _, o := range x.exec(newState(), size, []*Term{mkInt(id)}, nil) {
					x.check(o.st, "size", nm, !o.panicked && o.st.eq(o.ret[0], mkInt(int64(len(want)))), size.Pos(), "size %v, encodes in %d bytes", o.ret, len(want))
				}
				if c.args {
					st, arg := newState(), symSlice("arg", byteT)
					st.assumeGe(linK(arg.args[2], -1))
					for _, o := range x.exec(st, appendWith, []*Term{mkInt(id), p, arg}, nil) {
						chk(x, "encode-args", nm, appendWith, o, c.enc(id, []*Term{x.contents(o.st, arg)}))
					}
				}
				if c.args && !c.seq { // an empty string is not the same as none
					empty := mkSlice(mkAddr(newObj("empty", arrT(byteT))), tZero, tZero, tZero)
					for _, o := range x.exec(newState(), appendWith, []*Term{mkInt(id), p, empty}, nil) {
						chk(x, "encode-args", nm+" with an empty string", appendWith, o, append(byteP(0x1b, byte(id-0x40)), byteP(0x1b, '\\')...))
					}
				}
				if c.seq {
					st := newState()
					a, b := mkAtom("a0", byteT), mkAtom("a1", byteT)
					args, pieces := tNil, []*Term(nil)
					if c.args {
						args, pieces = x.elemSlice(st, byteT, a, b), []*Term{elemP(a), elemP(b)}
					}
					for _, o := range x.exec(st, with, []*Term{mkInt(id), args}, nil) {
						if o.panicked {
							x.check(o.st, "encode-seq", nm, false, with.Pos(), "panics with %v", o.pv)
							continue
						}
						seq := o.ret[0]
						for _, o := range x.exec(o.st, seqAppend, []*Term{seq, p}, nil) {
							chk(x, "encode-seq", nm, seqAppend, o, c.enc(id, pieces))
						}
					}
				}
			}
		})
	}
	// sequence sizes: up to 5 bytes and 5 integers of up to 9 digits
	for nb := 0; nb <= 5; nb++ {
		for ni := 0; ni <= 5; ni++ {
			r.analyse(fmt.Sprintf("size of a sequence of %d bytes and %d integers", nb, ni), func(x *X) {
				x.precise = true
				st := newState()
				var bs, is []*Term
				for i := 0; i < nb; i++ {
					bs = append(bs, mkAtom(fmt.Sprint("b", i), byteT))
				}
				for i := 0; i < ni; i++ {
					is = append(is, mkAtom(fmt.Sprint("n", i), intT))
				}
				withI := w.methodOf(seqT, "WithInts")
				need := int64(3 + nb + 9*ni)
				if ni > 0 {
					need += int64(ni - 1)
				}
				for _, o := range x.exec(st, with, []*Term{mkInt(0xEFC0 + 'A' - 0x40), x.elemSlice(st, byteT, bs...)}, nil) {
					for _, o := range x.exec(o.st, withI, []*Term{o.ret[0], x.elemSlice(o.st, intT, is...)}, nil) {
						for _, o := range x.exec(o.st, seqSize, []*Term{o.ret[0]}, nil) {
							x.check(o.st, "size", fmt.Sprintf("sequence of %d bytes and %d integers", nb, ni), !o.panicked && o.st.f.prove(linK(o.ret[0], -need)), seqSize.Pos(), "size %v, may need %d bytes", o.ret, need)
						}
					}
				}
			})
		}
	}
	// what is no escape
	for _, g := range []struct {
		nm     string
		lo, hi int64
	}{{"zero and below", -1 << 31, 0}, {"printable ASCII", 0x20, 0x7F}, {"runes below the private use area", 0xA0, 0xEEFF}, {"runes above it", 0xF000, 0x10FFFF}, {"malformed sequences", 0xEF7F, 0xEF7F}, {"malformed control sequences", 0xEFFF, 0xEFFF}} {
		r.analyse("encoding of "+g.nm, func(x *X) {
			x.precise = true
			mkst := func() (*State, *Term) {
				st := newState()
				id := mkAtom("id", esc)
				st.assumeGe(linK(id, -g.lo))
				st.assumeGe(linSub(mkInt(g.hi), id))
				return st, id
			}
			st, id := mkst()
			for _, o := range x.exec(st, appendTo, []*Term{id, p}, nil) {
				chk(x, "nothing", g.nm, appendTo, o, nil)
			}
			st, id = mkst()
			for _, o := range x.exec(st, appendWith, []*Term{id, p, symSlice("arg", byteT)}, nil) {
				chk(x, "nothing", g.nm+" with arguments", appendWith, o, nil)
			}
			st, id = mkst()
			for _, o := range x.exec(st, size, []*Term{id}, nil) {
				x.check(o.st, "nothing", g.nm+": size", !o.panicked && o.st.eq(o.ret[0], tZero), size.Pos(), "size %v", o.ret)
			}
			if g.hi < 0x80 && g.lo >= 0 || g.lo == 0xA0 || g.lo == 0xF000 {
				for _, f := range []*ssa.Function{with, withInts} {
					st, id = mkst()
					for _, o := range x.exec(st, f, []*Term{id, tNil}, nil) {
						x.check(o.st, "not-escape", g.nm+": "+f.Name(), o.panicked, f.Pos(), "builds a sequence %v", o.ret)
					}
				}
			}
		})
	}
	r.analyse("integers given to what is no control sequence", func(x *X) {
		x.precise = true
		for _, id := range []int64{0x0A, 0xEF28, 0xEF37, 0xEF63} {
			st := newState()
			for _, o := range x.exec(st, withInts, []*Term{mkInt(id), x.elemSlice(st, intT, mkAtom("n", intT))}, nil) {
				x.check(o.st, "not-escape", fmt.Sprintf("integers to U+%04X", id), o.panicked, withInts.Pos(), "accepted")
			}
		}
	})
	// names
	fESC, fCSI := w.fn("ansi", "ESC"), w.fn("ansi", "CSI")
	mESC, mCSI, isEsc := w.methodOf(esc, "ESC"), w.methodOf(esc, "CSI"), w.methodOf(esc, "IsEscape")
	r.analyse("identifier names", func(x *X) {
		x.precise = true
		for b := int64(1); b < 0x7F; b++ {
			for _, d := range []struct {
				nm          string
				mk          *ssa.Function
				yes, no     *ssa.Function
				base        int64
				introducer2 string
			}{{"ESC", fESC, mESC, mCSI, 0xEF00, ""}, {"CSI", fCSI, mCSI, mESC, 0xEF80, "["}} {
				nm := fmt.Sprintf("%s+%q", d.nm, rune(b))
				for _, o := range x.exec(newState(), d.mk, []*Term{mkInt(b)}, nil) {
					if o.panicked {
						x.check(o.st, "names", nm, false, d.mk.Pos(), "panics")
						continue
					}
					id := o.ret[0]
					x.check(o.st, "names", nm, o.st.eq(id, mkInt(d.base+b)), d.mk.Pos(), "is U+%v, documented as U+%04X", id, d.base+b)
					for _, q := range x.exec(o.st.fork(), d.yes, []*Term{id}, nil) {
						x.check(q.st, "names", nm+": byte name", !q.panicked && q.st.eq(q.ret[0], mkInt(b)) && q.st.eq(q.ret[1], tTrue), d.yes.Pos(), "named %v", q.ret)
					}
					for _, q := range x.exec(o.st.fork(), d.no, []*Term{id}, nil) {
						x.check(q.st, "names", nm+": not of the other kind", !q.panicked && q.st.eq(q.ret[1], tFalse), d.no.Pos(), "answers %v", q.ret)
					}
					for _, q := range x.exec(o.st.fork(), isEsc, []*Term{id}, nil) {
						x.check(q.st, "names", nm+": is an escape", !q.panicked && q.st.eq(q.ret[0], tTrue), isEsc.Pos(), "answers %v", q.ret)
					}
				}
			}
		}
		for _, g := range [][2]int64{{-1 << 31, 0xEEFF}, {0xF000, 1<<31 - 1}} {
			for _, f := range []*ssa.Function{mESC, mCSI, isEsc} {
				st := newState()
				id := mkAtom("id", esc)
				st.assumeGe(linK(id, -g[0]))
				st.assumeGe(linSub(mkInt(g[1]), id))
				for _, q := range x.exec(st, f, []*Term{id}, nil) {
					x.check(q.st, "names", fmt.Sprintf("%s of what is no escape (%s)", f.Name(), fmt.Sprintf("%#x to %#x", g[0], g[1])), !q.panicked && q.st.eq(q.ret[len(q.ret)-1], tFalse), f.Pos(), "answers %v", q.ret)
				}
			}
		}
	})
}

// c10: building sequences.
func c10(r *Run) {
	w := r.w
	r.rule("order", "a sequence encodes its argument bytes in the order given, then its integers in the order given separated by ';', between introducer and final byte", 60)
	r.rule("immutable", "deriving sequences from a sequence changes neither it nor those derived before", 60)
	r.rule("copies", "a sequence keeps its arguments when the caller reuses the slice they were given in", 8)
	r.rule("point", "a point argument is encoded as row;column", 2)
	r.rule("empty", "the zero sequence encodes to nothing", 1)
	esc := w.typ("ansi", "Escape")
	seqT := w.typ("ansi", "Seq")
	seqAppend := w.methodOf(seqT, "AppendTo")
	const id = 0xEFC8 // CUP
	itoaP := func(n *Term) *Term { return chunkP(itoa(n, mkInt(10))) }
	enc := func(bs, is []*Term) []*Term {
		out := byteP(0x1b, '[')
		for _, b := range bs {
			out = append(out, elemP(b))
		}
		for i, n := range is {
			if i > 0 {
				out = append(out, byteP(';')...)
			}
			out = append(out, itoaP(n))
		}
		return append(out, byteP('H')...)
	}
	p := symSlice("p", byteT)
	encodes := func(x *X, st *State, rule, nm string, seq *Term, bs, is []*Term) {
		for _, o := range x.exec(st.fork(), seqAppend, []*Term{seq, p}, nil) {
			if o.panicked {
				x.check(o.st, rule, nm, false, seqAppend.Pos(), "panics with %v", o.pv)
				continue
			}
			got := x.contents(o.st, o.ret[0])
			wt := mkCat(append([]*Term{x.contents(o.st, p)}, enc(bs, is)...))
			x.check(o.st, rule, nm, sameCat(o.st, got, wt), seqAppend.Pos(), "encodes as %s, want %s (%v)", elemsStr(got), elemsStr(wt), got)
		}
	}
	vals := func(tag string, n int, t types.Type) []*Term {
		var out []*Term
		for i := 0; i < n; i++ {
			out = append(out, mkAtom(fmt.Sprintf("%s%d", tag, i), t))
		}
		return out
	}
	kinds := []struct {
		nm   string
		et   types.Type
		byts bool
	}{{"With", byteT, true}, {"WithInts", intT, false}}
	max1, max2 := 4, 2
	if r.tier == "thorough" {
		max1, max2 = 6, 5
	}
	for _, k := range kinds {
		first, next := w.methodOf(esc, k.nm), w.methodOf(seqT, k.nm)
		for n1 := 0; n1 <= max1; n1++ {
			r.analyse(fmt.Sprintf("%s of %d arguments and more", k.nm, n1), func(x *X) {
				x.aliasAppend, x.precise = true, true
				sel := func(vs []*Term) (bs, is []*Term) {
					if k.byts {
						return vs, nil
					}
					return nil, vs
				}
				build := func(st *State, f *ssa.Function, recv *Term, vs []*Term, then func(st *State, seq, list *Term)) {
					list := x.elemSlice(st, k.et, vs...)
					for _, o := range x.exec(st, f, []*Term{recv, list}, nil) {
						if o.panicked {
							x.check(o.st, "order", f.Name(), false, f.Pos(), "panics with %v", o.pv)
							continue
						}
						then(o.st, o.ret[0], list)
					}
				}
				v1 := vals("a", n1, k.et)
				for n2 := 0; n2 <= max2; n2++ {
					for n3 := 1; n3 <= max2; n3++ {
						v2, v3 := vals("b", n2, k.et), vals("c", n3, k.et)
						nm := fmt.Sprintf("%s: %d then %d, and %d", k.nm, n1, n2, n3)
						build(newState(), first, mkInt(id), v1, func(st *State, base, _ *Term) {
							build(st, next, base, v2, func(st *State, s2, _ *Term) {
								build(st, next, base, v3, func(st *State, s3, list *Term) {
									all2 := append(append([]*Term{}, v1...), v2...)
									all3 := append(append([]*Term{}, v1...), v3...)
									bs, is := sel(all3)
									encodes(x, st, "order", nm, s3, bs, is)
									bs, is = sel(all2)
									encodes(x, st, "immutable", nm+": the earlier one", s2, bs, is)
									bs, is = sel(v1)
									encodes(x, st, "immutable", nm+": the original", base, bs, is)
									if n2 == 0 {
										st = st.fork()
										for i := range v3 {
											st.store(addrPath(list.args[0], mkInt(int64(i))), mkAtom("reused", k.et))
										}
										bs, is = sel(all3)
										encodes(x, st, "copies", nm, s3, bs, is)
									}
								})
							})
						})
					}
				}
			})
		}
	}
	r.analyse("bytes and integers mixed", func(x *X) {
		x.aliasAppend, x.precise = true, true
		wb, wi := w.methodOf(seqT, "With"), w.methodOf(seqT, "WithInts")
		f := w.methodOf(esc, "WithInts")
		for nb := 1; nb <= 5; nb += 2 {
			for ni := 1; ni <= 5; ni += 2 {
				st := newState()
				b, i, j := vals("b", nb, byteT), vals("i", ni, intT), vals("j", 2, intT)
				for _, o := range x.exec(st, f, []*Term{mkInt(id), x.elemSlice(st, intT, i...)}, nil) {
					for _, o := range x.exec(o.st, wb, []*Term{o.ret[0], x.elemSlice(o.st, byteT, b...)}, nil) {
						for _, o := range x.exec(o.st, wi, []*Term{o.ret[0], x.elemSlice(o.st, intT, j...)}, nil) {
							encodes(x, o.st, "order", fmt.Sprintf("%d integers, %d bytes, 2 integers", ni, nb), o.ret[0], b, append(append([]*Term{}, i...), j...))
						}
					}
				}
			}
		}
	})
	ptT := w.typ("ansi", "Point")
	r.analyse("point arguments", func(x *X) {
		x.precise = true
		pt := wrapT(mkAtom("pt", ptT))
		ip := fieldOf(pt, 0, structOf(ptT).Field(0).Type())
		it := structOf(ptT).Field(0).Type()
		px, py := fieldOf(ip, fieldIdx(it, "X"), intT), fieldOf(ip, fieldIdx(it, "Y"), intT)
		f := w.methodOf(esc, "WithPoint")
		g := w.methodOf(seqT, "WithPoint")
		for _, o := range x.exec(newState(), f, []*Term{mkInt(id), pt}, nil) {
			if o.panicked {
				x.check(o.st, "point", "Escape.WithPoint", false, f.Pos(), "panics")
				continue
			}
			encodes(x, o.st, "point", "Escape.WithPoint", o.ret[0], nil, []*Term{py, px})
			for _, o := range x.exec(o.st, g, []*Term{o.ret[0], pt}, nil) {
				encodes(x, o.st, "point", "Seq.WithPoint", o.ret[0], nil, []*Term{py, px, py, px})
			}
		}
	})
	r.analyse("zero sequence", func(x *X) {
		x.precise = true
		for _, o := range x.exec(newState(), seqAppend, []*Term{zeroVal(seqT), p}, nil) {
			x.check(o.st, "empty", "zero sequence", !o.panicked && sameCat(o.st, x.contents(o.st, o.ret[0]), x.contents(o.st, p)), seqAppend.Pos(), "encodes as %v", o.ret)
		}
	})
}

// ---- C11: what the named constants stand for

// escNames: final bytes of the exported control functions (ECMA-48 8.3, DEC
// private functions as in the VT100 to VT240 manuals).
var escNames = map[string]string{
	"DECGON": "1", "DECGOFF": "2", "DECVTS": "3", "DECCAVT": "4", "DECXMT": "5", "DECSC": "7", "DECRC": "8", "DECANSI": "<", "DECKPAM": "=", "DECKPNM": ">",
	"ICH": "[@", "CUU": "[A", "CUD": "[B", "CUF": "[C", "CUB": "[D", "CNL": "[E", "CPL": "[F", "CHA": "[G", "CUP": "[H", "CHT": "[I", "ED": "[J", "EL": "[K",
	"IL": "[L", "DL": "[M", "EF": "[N", "EA": "[O", "DCH": "[P", "SEM": "[Q", "CPR": "[R", "SU": "[S", "SD": "[T", "NP": "[U", "PP": "[V", "CTC": "[W",
	"ECH": "[X", "CVT": "[Y", "CBT": "[Z", "HPA": "[`", "HPR": "[a", "REP": "[b", "DA": "[c", "VPA": "[d", "VPR": "[e", "HVP": "[f", "TBC": "[g", "SM": "[h",
	"MC": "[i", "RM": "[l", "SGR": "[m", "DSR": "[n", "DAQ": "[o",
	"DECSTR": "[p", "DECLL": "[q", "DECSTBM": "[r", "DECSTRM": "[s", "DECSLPP": "[t", "DECSHTS": "[u", "DECSVTS": "[v", "DECSHORP": "[w", "DECREQTPARM": "[x",
	"DECTST": "[y", "DECVERP": "[z", "DECTTC": "[|", "DECPRO": "[}", "DECKEYS": "[~",
}
var seqNames = map[string]string{"SMprivate": "[?h", "RMprivate": "[?l", "SoftReset": "[!p", "SGRReset": "[0m"}

// modeNums: DEC private and xterm mode numbers.
var modeNums = map[string]int64{
	"ModeMouseX10": 9, "ModeMouseVt200": 1000, "ModeMouseVt200Highlight": 1001, "ModeMouseBtnEvent": 1002, "ModeMouseAnyEvent": 1003, "ModeMouseFocusEvent": 1004,
	"ModeMouseExt": 1005, "ModeMouseSgrExt": 1006, "ModeMouseUrxvtExt": 1015, "ModeAlternateScroll": 1007, "ModeMetaReporting": 1036, "ModeAlternateScreen": 1049,
	"ModeBracketedPaste": 2004, "ShowCursor": 25,
}
var sgrCodes = map[string]int64{
	"Clear": 0, "Bold": 1, "Dim": 2, "Italic": 3, "Underscore": 4, "Slow": 5, "Fast": 6, "Negative": 7, "Concealed": 8,
	"CancelBold": 22, "CancelUnderline": 24, "CancelFast": 25, "CancelNegative": 27,
	"FGBlack": 30, "FGRed": 31, "FGGreen": 32, "FGYellow": 33, "FGBlue": 34, "FGMagenta": 35, "FGCyan": 36, "FGWhite": 37,
	"BGBlack": 40, "BGRed": 41, "BGGreen": 42, "BGYellow": 43, "BGBlue": 44, "BGMagenta": 45, "BGCyan": 46, "BGWhite": 47,
}
var colorCodes = map[string]int64{
	"Black": 0, "Red": 1, "Green": 2, "Yellow": 3, "Blue": 4, "Magenta": 5, "Cyan": 6, "White": 7,
	"BrightBlack": 8, "BrightRed": 9, "BrightGreen": 10, "BrightYellow": 11, "BrightBlue": 12, "BrightMagenta": 13, "BrightCyan": 14, "BrightWhite": 15,
}
var c1Mnemonics = strings.Fields("RES@ RESA RESB RESC IND NEL SSA ESA HTS HTJ VTS PLD PLU RI SS2 SS3 DCS PU1 PU2 STS CCH MW SPA EPA RESX RESY RESZ CSI ST OSC PM APC")

// charset controls, in a terminal that needs none of them
var charsetIDs = []int64{0x0E, 0x0F, 0x8E, 0x8F, 0xEF28, 0xEF29, 0xEF2A, 0xEF2B, 0xEF2C, 0xEF2D, 0xEF2E, 0xEF2F, 0xEF6B, 0xEF6C, 0xEF6D, 0xEF6E, 0xEF6F, 0xEF7C, 0xEF7D, 0xEF7E}

func c11(r *Run) {
	w := r.w
	r.rule("function", "a named control function is the escape or control sequence the standards give that name", 65)
	r.rule("sequence", "a named ready-made sequence encodes as documented", 4)
	r.rule("mode", "a named mode is the private or standard mode number the terminals give that name", 14)
	r.rule("sgr-code", "a named SGR code is the number ECMA-48 gives it", 25)
	r.rule("color", "a named colour is its index in the 3, 4 or 8 bit palette", 200)
	r.rule("c1-name", "C1 controls are represented by their ECMA-48 mnemonics", 32)
	r.rule("charset", "exactly the shift and character set selection functions are character set controls", 20)
	sp := w.spkg[w.pkgPath("ansi")]
	sc := sp.Pkg.Scope()
	esc := w.typ("ansi", "Escape")
	seqT := w.typ("ansi", "Seq")
	constOf := func(n string) (int64, bool) {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			return 0, false
		}
		v := constant.ToInt(k.Val())
		if i, ok := constant.Int64Val(v); ok {
			return i, true
		}
		u, ok := constant.Uint64Val(v)
		return int64(u), ok
	}
	appendTo := w.methodOf(esc, "AppendTo")
	seqAppend := w.methodOf(seqT, "AppendTo")
	posOf := func(n string) string { return posStr(w.prog, sc.Lookup(n).Pos()) }
	r.analyse("named control functions", func(x *X) {
		x.precise = true
		for _, n := range sortedKeys(escNames) {
			want := "\x1b" + escNames[n]
			o := sc.Lookup(n)
			if o == nil {
				r.obl("function", n, false, "", "%s is gone", n)
				continue
			}
			st := newState()
			var v *Term
			if k, ok := constOf(n); ok {
				v = mkInt(k)
			} else if g := sp.Var(n); g != nil {
				v = st.load(mkAddr(globalObj(g)))
			}
			if v == nil {
				x.fail("%s is neither constant nor variable", n)
			}
			fn := appendTo
			if types.Identical(o.Type(), seqT) {
				fn = seqAppend
			}
			for _, q := range x.exec(st, fn, []*Term{v, tNil}, nil) {
				got := ""
				if !q.panicked {
					got = elemsStr(x.contents(q.st, q.ret[0]))
				}
				x.check(q.st, "function", n, got == want, o.Pos(), "%s encodes as %q, want %q (%v)", n, got, want, v)
			}
		}
		for _, n := range sortedKeys(seqNames) {
			want := "\x1b" + seqNames[n]
			o := sc.Lookup(n)
			if o == nil {
				r.obl("sequence", n, false, "", "%s is gone", n)
				continue
			}
			st := newState()
			v := st.load(mkAddr(globalObj(sp.Var(n))))
			for _, q := range x.exec(st, seqAppend, []*Term{v, tNil}, nil) {
				got := ""
				if !q.panicked {
					got = elemsStr(x.contents(q.st, q.ret[0]))
				}
				x.check(q.st, "sequence", n, got == want, o.Pos(), "%s encodes as %q, want %q (%v)", n, got, want, v)
			}
		}
	})
	priv, ok := constOf("ModePrivate")
	r.obl("mode", "ModePrivate", ok && priv == -1<<63, posOf("ModePrivate"), "the private flag is %#x", priv)
	tab := func(rule, prefix string, m map[string]int64, add int64) {
		for _, n := range sortedKeys(m) {
			nm := prefix + n
			v, ok := constOf(nm)
			if !ok {
				if sc.Lookup(nm) == nil {
					r.obl(rule, nm, false, "", "%s is gone", nm)
				} else {
					r.undecided(nm, "not a constant")
				}
				continue
			}
			want := m[n] | add
			r.obl(rule, nm, v == want, posOf(nm), "%s is %d, want %d", nm, uint64(v), uint64(want))
		}
	}
	tab("mode", "", modeNums, priv)
	tab("sgr-code", "SGRCode", sgrCodes, 0)
	tab("color", "SGR", colorCodes, 0)
	cube := map[string]int64{}
	for i := int64(16); i < 232; i++ {
		cube["Cube"+strconv.FormatInt(i, 10)] = i
	}
	for i := int64(1); i <= 24; i++ {
		cube["Gray"+strconv.FormatInt(i, 10)] = 231 + i
	}
	tab("color", "SGR", cube, 0)
	// C1 mnemonics, through the representation of identifiers
	str := w.methodOf(esc, "String")
	r.analyse("C1 names", func(x *X) {
		x.precise = true
		for i, n := range c1Mnemonics {
			for _, o := range x.exec(newState(), str, []*Term{mkInt(int64(0x80 + i))}, nil) {
				got := ""
				if !o.panicked {
					got = elemsStr(catNorm(o.st, mkCat([]*Term{chunkP(strContent(o.ret[0]))})))
				}
				x.check(o.st, "c1-name", fmt.Sprintf("U+%04X", 0x80+i), got == "<"+n+">", str.Pos(), "is named %q, want %q (%v)", got, "<"+n+">", o.ret)
			}
		}
	})
	cs := w.methodOf(esc, "IsCharacterSetControl")
	r.analyse("character set controls", func(x *X) {
		x.precise = true
		in := map[int64]bool{}
		for _, id := range charsetIDs {
			in[id] = true
		}
		for _, g := range [][2]int64{{0, 0x1F}, {0x7F, 0x9F}, {0xEF20, 0xEF7E}, {0xEFC0, 0xEFFF}} {
			for id := g[0]; id <= g[1]; id++ {
				for _, o := range x.exec(newState(), cs, []*Term{mkInt(id)}, nil) {
					x.check(o.st, "charset", fmt.Sprintf("U+%04X", id), !o.panicked && o.st.eq(o.ret[0], mkBool(in[id])), cs.Pos(), "answers %v, want %v", o.ret, in[id])
				}
			}
		}
	})
}
