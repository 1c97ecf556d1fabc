package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C09"] = c09 }

// attrVal is one attribute value as ECMA-48 would say it.
type attrVal struct {
	flags  int // bit 0 clear, then bold dim italic underscore negative conceal
	fg, bg int // -1 none, 0..255 palette, 1<<24|rgb
}

func (a attrVal) bits() int64 {
	v := int64(a.flags)
	if a.fg >= 0 {
		v |= (1<<25 | int64(a.fg)) << 7
	}
	if a.bg >= 0 {
		v |= (1<<25 | int64(a.bg)) << 33
	}
	return v
}

var sgrFlagCodes = []string{"0", "1", "2", "3", "4", "7", "8"}

func colorArgs(c, classic, bright, ext int) string {
	switch {
	case c >= 1<<24:
		return fmt.Sprintf("%d;2;%d;%d;%d", ext, c&0xff, c>>8&0xff, c>>16&0xff)
	case c < 8:
		return fmt.Sprint(classic + c)
	case c < 16:
		return fmt.Sprint(bright + c - 8)
	}
	return fmt.Sprintf("%d;5;%d", ext, c)
}
func (a attrVal) enc() string {
	var ps []string
	for i, c := range sgrFlagCodes {
		if a.flags>>i&1 == 1 {
			ps = append(ps, c)
		}
	}
	if a.fg >= 0 {
		ps = append(ps, colorArgs(a.fg, 30, 90, 38))
	}
	if a.bg >= 0 {
		ps = append(ps, colorArgs(a.bg, 40, 100, 48))
	}
	if len(ps) == 0 {
		ps = []string{"0"}
	}
	return strings.Join(ps, ";")
}
func (a attrVal) String() string {
	s := fmt.Sprintf("%07b", a.flags)
	if a.fg >= 0 {
		s += fmt.Sprintf(" fg %#x", a.fg)
	}
	if a.bg >= 0 {
		s += fmt.Sprintf(" bg %#x", a.bg)
	}
	return s
}

func c09(r *Run) {
	w := r.w
	r.rule("encode", "an attribute encodes as the SGR codes of its flags, then its foreground, then its background; none at all as a clear", 600)
	r.rule("decode", "decoding the codes an attribute encodes as gives the attribute back", 600)
	r.rule("size", "the size of an attribute is exactly its encoded length", 600)
	r.rule("color-slots", "a foreground or background colour put into an attribute reads back unchanged, and only there", 6)
	r.rule("sans", "removing one colour keeps the flags and the other colour", 2)
	r.rule("merge", "merging adds flags and overrides the colours that are set, replacing everything when the merged attribute clears", 12)
	r.rule("diff", "merging the difference of two attributes into the first gives the second", 12)
	r.rule("rgb", "24 bit colours keep their components; converting to 24 bit keeps them and gives palette colours their definition", 3)
	r.rule("palette", "the 256 colour palette has the standard colours, 6x6x6 cube and grays", 256)

	attrT, colT := w.typ("ansi", "SGRAttr"), w.typ("ansi", "SGRColor")
	am := func(n string) *ssa.Function { return w.methodOf(attrT, n) }
	cm := func(n string) *ssa.Function { return w.methodOf(colT, n) }
	appendTo, size, decode := am("AppendTo"), am("Size"), w.fn("ansi", "DecodeSGR")

	// concrete attributes: all flag sets, all palette colours, RGB components
	// of every digit count, and combinations
	var vals []attrVal
	some := []int{-1, 0, 7, 8, 15, 16, 99, 255, 1<<24 | 5 | 64<<8 | 200<<16}
	for f := 0; f < 128; f++ {
		if f == 0 {
			continue
		}
		vals = append(vals, attrVal{f, -1, -1}, attrVal{f, 3, -1}, attrVal{f, -1, 1<<24 | 1})
	}
	for _, a := range some {
		for _, b := range some {
			for _, f := range []int{0, 1, 2, 65} {
				vals = append(vals, attrVal{f, a, b})
			}
		}
	}
	for c := 0; c < 256; c++ {
		vals = append(vals, attrVal{0, c, -1}, attrVal{0, -1, c})
	}
	step := 1
	if r.tier != "thorough" {
		step = 3
	}
	for c := 0; c < 256; c += step {
		vals = append(vals, attrVal{0, 1<<24 | c, -1}, attrVal{0, -1, 1<<24 | c<<8}, attrVal{0, 1<<24 | c<<16 | 255, -1})
	}
	p := symSlice("p", byteT)
	r.analyse("encoding and decoding of attributes", func(x *X) {
		x.precise = true
		seen := map[attrVal]bool{}
		for _, a := range vals {
			if seen[a] {
				continue
			}
			seen[a] = true
			nm := a.String()
			want := "\x1b[" + a.enc() + "m"
			for _, o := range x.exec(newState(), appendTo, []*Term{mkInt(a.bits()), p}, nil) {
				if o.panicked {
					x.check(o.st, "encode", nm, false, appendTo.Pos(), "panics with %v", o.pv)
					continue
				}
				got := x.contents(o.st, o.ret[0])
				wt := mkCat(append([]*Term{x.contents(o.st, p)}, strP(want)...))
				x.check(o.st, "encode", nm, sameCat(o.st, got, wt), appendTo.Pos(), "appends %q, want %q (%v)", elemsStr(got), elemsStr(wt), got)
			}
			for _, o := range x.exec(newState(), size, []*Term{mkInt(a.bits())}, nil) {
				x.check(o.st, "size", nm, !o.panicked && o.st.eq(o.ret[0], mkInt(int64(len(want)))), size.Pos(), "size %v, encodes in %d bytes", o.ret, len(want))
			}
			back := a
			if a.bits() == 0 {
				back.flags = 1
			}
			st := newState()
			var els []*Term
			for _, b := range []byte(a.enc()) {
				els = append(els, mkInt(int64(b)))
			}
			in := x.elemSlice(st, byteT, els...)
			for _, o := range x.exec(st, decode, []*Term{in}, nil) {
				x.check(o.st, "decode", nm, !o.panicked && o.st.eq(o.ret[0], mkInt(back.bits())) && o.st.eq(o.ret[1], mkInt(int64(len(els)))) && o.st.isTrue(mkEqv(o.ret[2], tNil)), decode.Pos(), "%q decodes as %v, want %#x", a.enc(), o.ret, back.bits())
			}
		}
	})

	// symbolic algebra: an attribute is 7 flag bits and two optional colours
	// of 25 bits each
	k := attrKit{attrT, colT}
	flagBits, colBits, mkAttr := k.flags, k.col, k.mk
	mkCol := func(bs []*Term) *Term { return fromBits(bs, false) }
	one := func(x *X, rule, nm string, st *State, fn *ssa.Function, args []*Term, f func(o Out)) {
		for _, o := range x.exec(st, fn, args, nil) {
			if o.panicked {
				x.check(o.st, rule, nm, false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			f(o)
		}
	}
	slots := []struct{ set, other string }{{"FG", "BG"}, {"BG", "FG"}}
	for _, s := range slots {
		r.analyse("colour slot "+s.set, func(x *X) {
			x.precise = true
			c := mkCol(colBits("c"))
			one(x, "color-slots", s.set, newState(), cm(s.set), []*Term{c}, func(o Out) {
				at := o.ret[0]
				one(x, "color-slots", s.set+" reads back", o.st.fork(), am(s.set), []*Term{at}, func(o Out) {
					x.check(o.st, "color-slots", s.set+" reads back", sameBits(o.st, o.ret[0], c, 32, -1) && o.st.eq(o.ret[1], tTrue), cm(s.set).Pos(), "%v reads back as %v", c, o.ret)
				})
				one(x, "color-slots", s.set+" does not set "+s.other, o.st.fork(), am(s.other), []*Term{at}, func(o Out) {
					x.check(o.st, "color-slots", s.set+" does not set "+s.other, o.st.eq(o.ret[1], tFalse) && o.st.eq(o.ret[0], tZero), cm(s.set).Pos(), "reads as %v", o.ret)
				})
				fl := o.st.toBits(o.st.f.rw(at), 64, 64, false)
				ok := true
				for i := 0; i < 7; i++ {
					ok = ok && fl[i] == bit0
				}
				x.check(o.st, "color-slots", s.set+" sets no flag", ok, cm(s.set).Pos(), "gives %v", at)
			})
			f, g, b := flagBits("a", -1), colBits("fg"), colBits("bg")
			want := mkAttr(f, nil, b)
			if s.set == "BG" {
				want = mkAttr(f, g, nil)
			}
			one(x, "sans", "Sans"+s.set, newState(), am("Sans"+s.set), []*Term{mkAttr(f, g, b)}, func(o Out) {
				x.check(o.st, "sans", "Sans"+s.set, sameBits(o.st, o.ret[0], want, 64, -1), am("Sans"+s.set).Pos(), "gives %v, want %v", o.ret[0], want)
			})
		})
	}
	merge, diff := am("Merge"), am("Diff")
	for m := 0; m < 32; m++ {
		clearB := m >> 4 & 1
		has := func(i int, tag string) []*Term {
			if m>>i&1 == 1 {
				return colBits(tag)
			}
			return nil
		}
		afg, abg, bfg, bbg := has(0, "afg"), has(1, "abg"), has(2, "bfg"), has(3, "bbg")
		nm := fmt.Sprintf("fg %v bg %v with fg %v bg %v clear %v", afg != nil, abg != nil, bfg != nil, bbg != nil, clearB == 1)
		r.analyse("merge and difference: "+nm, func(x *X) {
			x.precise = true
			fa, fb := flagBits("a", 0), flagBits("b", clearB)
			a, b := mkAttr(fa, afg, abg), mkAttr(fb, bfg, bbg)
			var flags, fg, bg []*Term
			if clearB == 1 {
				flags, fg, bg = fb, bfg, bbg
			} else {
				for i := range fa {
					flags = append(flags, bitOr(fa[i], fb[i]))
				}
				fg, bg = afg, abg
				if bfg != nil {
					fg = bfg
				}
				if bbg != nil {
					bg = bbg
				}
			}
			want := mkAttr(flags, fg, bg)
			one(x, "merge", nm, newState(), merge, []*Term{a, b}, func(o Out) {
				x.check(o.st, "merge", nm, sameBits(o.st, o.ret[0], want, 64, 0), merge.Pos(), "%v merged into %v gives %v, want %v", b, a, o.ret[0], want)
			})
			one(x, "diff", nm, newState(), diff, []*Term{a, b}, func(o Out) {
				d := o.ret[0]
				one(x, "diff", nm, o.st, merge, []*Term{a, d}, func(o Out) {
					x.check(o.st, "diff", nm, sameBits(o.st, o.ret[0], b, 64, 0), diff.Pos(), "the difference %v from %v to %v merges to %v", d, a, b, o.ret[0])
				})
			})
		})
	}
	// colours
	rgb, rgbOf, to24 := w.fn("ansi", "RGB"), cm("RGB"), cm("To24Bit")
	r.analyse("24 bit colours", func(x *X) {
		x.precise = true
		cr, cg, cb := mkAtom("r", byteT), mkAtom("g", byteT), mkAtom("b", byteT)
		one(x, "rgb", "RGB", newState(), rgb, []*Term{cr, cg, cb}, func(o Out) {
			c := o.ret[0]
			one(x, "rgb", "components", o.st.fork(), rgbOf, []*Term{c}, func(o Out) {
				ok := sameBits(o.st, o.ret[0], cr, 8, -1) && sameBits(o.st, o.ret[1], cg, 8, -1) && sameBits(o.st, o.ret[2], cb, 8, -1)
				x.check(o.st, "rgb", "components", ok, rgbOf.Pos(), "gives %v", o.ret)
			})
			one(x, "rgb", "To24Bit", o.st.fork(), to24, []*Term{c}, func(o Out) {
				x.check(o.st, "rgb", "To24Bit", sameBits(o.st, o.ret[0], c, 32, -1), to24.Pos(), "%v becomes %v", c, o.ret[0])
			})
			one(x, "rgb", "RGBA", o.st.fork(), cm("RGBA"), []*Term{c}, func(o Out) {
				ok := o.st.eq(o.ret[3], mkInt(0xffff))
				for i, k := range []*Term{cr, cg, cb} {
					kb := toBits(k, 8, 8, false)
					ok = ok && sameBits(o.st, o.ret[i], fromBits(append(append([]*Term{}, kb...), kb...), false), 32, -1)
				}
				x.check(o.st, "rgb", "RGBA", ok, cm("RGBA").Pos(), "gives %v", o.ret)
			})
		})
	})
	r.analyse("256 colour palette", func(x *X) {
		x.precise = true
		std := []int{0x000000, 0x800000, 0x008000, 0x808000, 0x000080, 0x800080, 0x008080, 0xC0C0C0, 0x808080, 0xFF0000, 0x00FF00, 0xFFFF00, 0x0000FF, 0xFF00FF, 0x00FFFF, 0xFFFFFF}
		lv := []int{0, 0x5F, 0x87, 0xAF, 0xD7, 0xFF}
		for i := 0; i < 256; i++ {
			var want [3]int
			switch {
			case i < 16:
				want = [3]int{std[i] >> 16, std[i] >> 8 & 0xff, std[i] & 0xff}
			case i < 232:
				want = [3]int{lv[(i-16)/36], lv[(i-16)/6%6], lv[(i-16)%6]}
			default:
				g := 8 + 10*(i-232)
				want = [3]int{g, g, g}
			}
			nm := fmt.Sprintf("colour %d", i)
			one(x, "palette", nm, newState(), to24, []*Term{mkInt(int64(i))}, func(o Out) {
				v := int64(1<<24 | want[0] | want[1]<<8 | want[2]<<16)
				x.check(o.st, "palette", nm, o.st.eq(o.ret[0], mkInt(v)), to24.Pos(), "is %v, want %#x", o.ret[0], v)
			})
		}
	})
}

// attrKit builds attributes of symbolic flags and colours.
type attrKit struct{ attrT, colT types.Type }

func (k attrKit) flags(tag string, clear int) []*Term {
	var bs []*Term
	for i := 0; i < 7; i++ {
		bs = append(bs, bitOf(mkAtom(tag+"f", k.attrT), i))
	}
	switch clear {
	case 0:
		bs[0] = bit0
	case 1:
		bs[0] = bit1
	}
	return bs
}
func (k attrKit) col(tag string) []*Term {
	var bs []*Term
	for i := 0; i < 25; i++ {
		bs = append(bs, bitOf(mkAtom(tag, k.colT), i))
	}
	return bs
}
func (k attrKit) mk(flags, fg, bg []*Term) *Term {
	bs := append([]*Term{}, flags...)
	for _, c := range [][]*Term{fg, bg} {
		if c == nil {
			for i := 0; i < 26; i++ {
				bs = append(bs, bit0)
			}
		} else {
			bs = append(append(bs, c...), bit1)
		}
	}
	return fromBits(bs, false)
}

// sameBits compares two values bit by bit, all but bit skip.
func sameBits(st *State, a, b *Term, wd int, skip int) bool {
	x, y := st.toBits(st.f.rw(a), wd, wd, false), st.toBits(st.f.rw(b), wd, wd, false)
	for i := range x {
		if i == skip {
			continue
		}
		if x[i] != y[i] && !st.bitSame(x[i], y[i]) {
			return false
		}
	}
	return true
}
