package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { clients["C24"] = c24 }

// c24: color models.
func c24(r *Run) {
	w := r.w
	r.rule("compose", "a combination of color models passes each color through all of them, in order, each once; nil models are passed over", 20)
	r.rule("alone", "making a combination changes no other combination, and no slice of the caller", 10)
	r.rule("map", "a color map gives the mapped color, or else the color itself", 4)
	r.rule("canon", "the canonical map gives, for the 24-bit definition of any palette color, a palette color of that definition", 200)
	r.rule("theme", "a theme gives its own definition of its colors, the 8-bit palette's color for others, and leaves 24-bit colors alone", 10)
	r.rule("palette", "the 3-, 4- and 8-bit palettes are the first 8, 16 and 256 colors, each having a definition", 500)
	r.rule("limit", "limiting to a palette gives a color of the palette (black if it is empty)", 4)
	r.rule("closest", "limiting gives the closest color, the first of those equally close", 5)
	r.rule("rgb", "component values are kept by 24-bit colors; wider ones are clipped and scaled", 10)
	colT := w.typ("ansi", "SGRColor")
	funcT := w.typ("ansi", "ColorModelFunc")
	iface := w.typ("ansi", "ColorModel")
	palT, mapT, themeT := w.typ("ansi", "Palette"), w.typ("ansi", "SGRColorMap"), w.typ("ansi", "ColorTheme")
	fn := w.fn("ansi", "ColorModels")
	c := mkAtom("c", colT)
	model := func(n string) *Term { return mkIface(funcT, mkAtom("model:"+n, funcT)) }
	apply := func(want string, t *Term) *Term {
		for _, n := range want {
			t = mkApp("conv:"+string(n), colT, t)
		}
		return t
	}
	call := func(x *X, st *State, rule, nm string, m *Term, want string) {
		m = st.f.rw(m)
		if m.op == ONil || m.op == OConst {
			x.check(st, rule, nm, want == "", fn.Pos(), "gives nil, want %q", want)
			return
		}
		if m.op != OIface {
			x.fail("unknown model %v", m)
		}
		if v := st.f.rw(m.args[0]); v.op == OAtom && strings.HasPrefix(v.name, "model:") {
			x.check(st, rule, nm, v.name[6:] == want, fn.Pos(), "gives model %v, want %q", v, want)
			return
		}
		f := w.methodOf(m.ref.(types.Type), "Convert")
		if f == nil {
			x.fail("no Convert method of %v", m.ref)
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if ci.mname() != "Convert" || len(ci.args) != 2 {
				return nil, false
			}
			v := st.f.rw(ci.args[0])
			if v.op != OAtom || !strings.HasPrefix(v.name, "model:") {
				return nil, false
			}
			st.setG("calls", linK(st.gInt("calls"), 1))
			return ret(st, apply(v.name[6:], ci.args[1])), true
		}
		defer func() { x.h.call = nil }()
		st.setG("calls", mkInt(0))
		for _, o := range x.exec(st, f, []*Term{m.args[0], c}, nil) {
			if o.panicked {
				x.check(o.st, rule, nm, false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			n := o.st.gInt("calls")
			x.check(o.st, rule, nm, o.st.eq(o.ret[0], apply(want, c)) && n.op == OConst && n.k == int64(len(want)), fn.Pos(), "gives %v in %v calls, want %v", o.ret[0], n, apply(want, c))
		}
	}
	// build makes a model of a description: letters are opaque models, '-'
	// is nil, brackets a combination.
	var build func(x *X, st *State, d string, f func(st *State, v *Term))
	split := func(d string) (parts []string) {
		depth, at := 0, 0
		for i, c := range d {
			switch c {
			case '[':
				depth++
			case ']':
				depth--
			}
			if depth == 0 {
				parts = append(parts, d[at:i+1])
				at = i + 1
			}
		}
		return parts
	}
	combine := func(x *X, st *State, d string, vs []*Term, f func(st *State, v *Term)) {
		sl := tNil
		if len(vs) > 0 {
			sl = x.elemSlice(st, iface, vs...)
		}
		for _, o := range x.exec(st, fn, []*Term{sl}, nil) {
			if o.panicked {
				x.check(o.st, "compose", d, false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			if len(vs) > 0 {
				els, ok := x.elems(o.st, sl)
				for i := range els {
					ok = ok && o.st.eq(els[i], vs[i])
				}
				x.check(o.st, "alone", "the caller's slice of "+d, ok && len(els) == len(vs), fn.Pos(), "combining changes the list passed in")
			}
			f(o.st, o.ret[0])
		}
	}
	build = func(x *X, st *State, d string, f func(st *State, v *Term)) {
		switch d[0] {
		case '-':
			f(st, zeroVal(iface))
		case '[':
			parts := split(d[1 : len(d)-1])
			var rec func(st *State, vs []*Term, rest []string)
			rec = func(st *State, vs []*Term, rest []string) {
				if len(rest) > 0 {
					build(x, st, rest[0], func(st *State, v *Term) { rec(st, append(append([]*Term{}, vs...), v), rest[1:]) })
					return
				}
				combine(x, st, d, vs, f)
			}
			rec(st, nil, parts)
		default:
			f(st, model(d))
		}
	}
	letters := func(d string) string {
		return strings.Map(func(r rune) rune { return map[bool]rune{true: r, false: -1}[r >= 'a'] }, d)
	}
	for _, d := range []string{"[]", "[-]", "[--]", "[a]", "[-a]", "[a-]", "[ab]", "[ba]", "[aa]", "[a-b]", "[-a-b-]", "[abc]", "[cabd]", "[[ab]c]", "[a[bc]]", "[[ab][cd]]", "[[a]b]", "[[]a]", "[a[]]", "[[ab]-[ba]]", "[-[ab]]", "[[[ab]c]d]", "[a[b[cd]]]", "[abcdefgh]", "[[abcde]fg]", "[-[]]"} {
		r.analyse("ColorModels "+d, func(x *X) {
			x.precise, x.noMerge = true, true
			build(x, newState(), d, func(st *State, v *Term) {
				call(x, st, "compose", "combination "+d, v, letters(d))
			})
		})
	}
	for _, base := range []string{"[ab]", "[abc]", "[abcd]", "[abcde]", "[[abc]d]"} {
		r.analyse("ColorModels of one "+base, func(x *X) {
			x.precise, x.noMerge, x.aliasAppend = true, true, true
			build(x, newState(), base, func(st *State, b *Term) {
				build(x, st, "[uv]", func(st *State, uv *Term) {
					combine(x, st, base+"x", []*Term{b, model("x")}, func(st *State, one *Term) {
						combine(x, st, base+"y", []*Term{b, model("y")}, func(st *State, two *Term) {
							combine(x, st, "w"+base, []*Term{model("w"), b}, func(st *State, three *Term) {
								combine(x, st, base+"[uv]", []*Term{b, uv}, func(st *State, four *Term) {
									l := letters(base)
									call(x, st.fork(), "alone", base+" itself", b, l)
									call(x, st.fork(), "alone", "first of "+base, one, l+"x")
									call(x, st.fork(), "alone", "second of "+base, two, l+"y")
									call(x, st.fork(), "alone", "third of "+base, three, "w"+l)
									call(x, st.fork(), "alone", "fourth of "+base, four, l+"uv")
									call(x, st.fork(), "alone", "joined to "+base, uv, "uv")
								})
							})
						})
					})
				})
			})
		})
	}
	conv := func(t types.Type) func(x *X, st *State, m, c *Term) []Out {
		f := w.methodOf(t, "Convert")
		return func(x *X, st *State, m, c *Term) []Out { return x.exec(st, f, []*Term{m, c}, nil) }
	}
	// maps
	r.analyse("SGRColorMap.Convert", func(x *X) {
		x.precise, x.noMerge = true, true
		f := w.methodOf(mapT, "Convert")
		for _, n := range []string{"nil", "empty", "unknown"} {
			st := newState()
			m := mkAtom("map", mapT)
			switch n {
			case "nil":
				m = tNil
			case "empty":
				st.setMem(m, mkApp("emptymap", nil))
			}
			for _, o := range conv(mapT)(x, st, m, c) {
				if o.panicked {
					x.check(o.st, "map", n, false, f.Pos(), "panics with %v", o.pv)
					continue
				}
				want, at := c, n+": a color not in it"
				if n == "unknown" {
					v, has := x.mapLookup(o.st, m, c, colT)
					switch {
					case o.st.isTrue(has):
						want, at = v, n+": a color in it"
					case !o.st.isTrue(mkNot(has)):
						x.check(o.st, "map", n, o.st.eq(o.ret[0], c) && o.st.eq(v, c), f.Pos(), "gives %v whether or not the color is in the map", o.ret[0])
						continue
					}
				}
				x.check(o.st, "map", at, o.st.eq(o.ret[0], want), f.Pos(), "gives %v, want %v", o.ret[0], want)
			}
		}
		// one entry, for any two colors
		st := newState()
		m := mkAtom("map", mapT)
		k, v := mkAtom("k", colT), mkAtom("v", colT)
		st.setMem(m, mkApp("mapstore", nil, mkApp("emptymap", nil), k, v))
		for _, o := range conv(mapT)(x, st, m, k) {
			x.check(o.st, "map", "the color in it", !o.panicked && o.st.eq(o.ret[0], v), f.Pos(), "gives %v, want %v", o.ret, v)
		}
	})
	// palettes
	rd := func(x *X, st *State, name string) []*Term {
		els, ok := x.elems(st, st.load(mkAddr(globalObj(w.global("ansi", name)))))
		if !ok {
			x.fail("cannot evaluate %s", name)
		}
		return els
	}
	var defs []int64
	for _, p := range []struct {
		n string
		k int
	}{{"Palette3", 8}, {"Palette4", 16}, {"Palette8", 256}} {
		r.analyse(p.n, func(x *X) {
			st := newState()
			els, ds := rd(x, st, p.n), rd(x, st, p.n+"Colors")
			pos := w.global("ansi", p.n).Pos()
			x.check(st, "palette", p.n+" size", len(els) == p.k && len(ds) == p.k, pos, "%s has %d colors, %d definitions", p.n, len(els), len(ds))
			for i, e := range els {
				x.check(st, "palette", fmt.Sprintf("%s %d", p.n, i), st.eq(e, mkInt(int64(i))), pos, "color %d is %v", i, e)
			}
			for i, d := range ds {
				d = st.f.rw(d)
				x.check(st, "palette", fmt.Sprintf("%s definition %d", p.n, i), d.op == OConst && d.k>>24 == 1, pos, "definition %d is %v, no 24-bit color", i, d)
				if p.k == 256 && d.op == OConst {
					defs = append(defs, d.k)
				}
			}
		})
	}
	r.analyse("SGRColorCanon", func(x *X) {
		x.precise, x.noMerge = true, true
		st := newState()
		m := st.load(mkAddr(globalObj(w.global("ansi", "SGRColorCanon"))))
		f := w.methodOf(mapT, "Convert")
		of := map[int64]bool{}
		check := func(d int64, f func(k int64) bool, what string) {
			for _, o := range conv(mapT)(x, st.fork(), m, mkInt(d)) {
				got := int64(-1)
				if !o.panicked {
					v := o.st.f.rw(o.ret[0])
					if v.op != OConst {
						x.fail("SGRColorCanon gives %v", v)
					}
					got = v.k
				}
				x.check(o.st, "canon", fmt.Sprintf("%#x", d), f(got), w.methodOf(mapT, "Convert").Pos(), "gives %d, want %s", got, what)
			}
		}
		_ = f
		for i, d := range defs {
			of[d] = true
			check(d, func(k int64) bool { return k >= 0 && int(k) < len(defs) && defs[k] == d }, fmt.Sprintf("color %d, or another so defined", i))
		}
		for _, d := range []int64{0x1000001, 0x1010101, 0x1fffffe, 3, 255} {
			if !of[d] {
				check(d, func(k int64) bool { return k == d }, "the color itself")
			}
		}
	})
	// identity and 24-bit models
	for _, n := range []string{"ColorModelID", "ColorModel24"} {
		r.analyse(n, func(x *X) {
			x.precise, x.noMerge = true, true
			cs := []int64{0x1000000, 0x1010203, 0x1ffffff}
			for i := 0; i < 256; i++ {
				cs = append(cs, int64(i))
			}
			for _, k := range cs {
				st := newState()
				m := st.load(mkAddr(globalObj(w.global("ansi", n))))
				want := k
				if n == "ColorModel24" && k < 256 && int(k) < len(defs) {
					want = defs[k]
				}
				for _, o := range conv(funcT)(x, st, m, mkInt(k)) {
					x.check(o.st, "map", fmt.Sprintf("%s of %#x", n, k), !o.panicked && o.st.eq(o.ret[0], mkInt(want)), w.global("ansi", n).Pos(), "gives %v, want %#x", o.ret, want)
				}
			}
		})
	}
	// themes
	for _, n := range []int{0, 1, 3, 16} {
		r.analyse(fmt.Sprintf("theme of %d", n), func(x *X) {
			x.precise, x.noMerge = true, true
			var els []*Term
			for i := 0; i < n; i++ {
				els = append(els, mkAtom(fmt.Sprintf("theme%d", i), colT))
			}
			f := w.methodOf(themeT, "Convert")
			one := func(k, want *Term, nm string) {
				st := newState()
				t := tNil
				if n > 0 {
					t = x.elemSlice(st, colT, els...)
				}
				for _, o := range conv(themeT)(x, st, t, k) {
					x.check(o.st, "theme", fmt.Sprintf("of %d: %s", n, nm), !o.panicked && o.st.eq(o.ret[0], want), f.Pos(), "gives %v, want %v", o.ret, want)
				}
			}
			for _, k := range []int{0, 1, 2, 3, 15, 16, 17, 128, 255} {
				want := mkInt(int64(k))
				if k < n {
					want = els[k]
				}
				one(mkInt(int64(k)), want, fmt.Sprintf("color %d", k))
			}
			for _, k := range []int64{0x1000000, 0x1000001, 0x1ff0002, 0x1ffffff} {
				one(mkInt(k), mkInt(k), fmt.Sprintf("24-bit color %#x", k))
			}
			// any 24-bit color
			bs := make([]*Term, 0, 32)
			for i := 0; i < 24; i++ {
				bs = append(bs, bitOf(c, i))
			}
			bs = append(bs, bit1)
			any := fromBits(bs, false)
			one(any, any, "any 24-bit color")
		})
	}
	// limiting
	idx := w.methodOf(palT, "Index")
	pconv := w.methodOf(palT, "Convert")
	rgb := w.fn("ansi", "RGB")
	u8 := types.Typ[types.Uint8]
	for n := 0; n <= 3; n++ {
		r.analyse(fmt.Sprintf("palette of %d", n), func(x *X) {
			x.noMerge = true
			x.unrollSt = 4000
			st := newState()
			var els []*Term
			col := func(tag string) *Term {
				var bs []*Term
				for i := 0; i < 24; i++ {
					b := bit0
					if i < 8 || n < 2 {
						b = bitOf(mkAtom(tag, colT), i)
					}
					bs = append(bs, b)
				}
				return fromBits(append(bs, bit1), false)
			}
			for i := 0; i < n; i++ {
				els = append(els, col(fmt.Sprint("p", i)))
			}
			p := tNil
			if n > 0 {
				p = x.elemSlice(st, colT, els...)
			}
			for _, o := range x.exec(st, pconv, []*Term{p, col("c")}, nil) {
				ok := !o.panicked
				if ok {
					ok = n == 0 && o.st.eq(o.ret[0], mkInt(0))
					for _, e := range els {
						ok = ok || o.st.eq(o.ret[0], e)
					}
				}
				x.check(o.st, "limit", fmt.Sprintf("palette of %d", n), ok, pconv.Pos(), "gives %v of %v", o.ret, els)
			}
		})
	}
	// any colors: every path's result is a closest one by the path's facts
	for n := 1; n <= 3; n++ {
		for chans := 1; chans <= 3; chans++ {
			if n == 3 && chans > 1 && (chans > 2 || r.tier != "thorough") {
				continue
			}
			r.analyse(fmt.Sprintf("closest of %d, %d components", n, chans), func(x *X) {
				x.precise, x.noMerge = true, true
				x.unrollSt = 100000
				st := newState()
				mk := func(tag string) (*Term, []*Term) {
					var bs, vs []*Term
					for i := 0; i < 3; i++ {
						v := mkInt(int64(7 * i))
						if i < chans {
							v = mkAtom(fmt.Sprintf("%s.%c", tag, "rgb"[i]), u8)
							st.setG("arg"+tag+fmt.Sprint(i), v)
						}
						bs = append(bs, toBits(v, 8, 8, false)...)
						vs = append(vs, fromBits(toBits(v, 8, 8, false), false))
					}
					return fromBits(append(bs, bit1), false), vs
				}
				c, cv := mk("c")
				var els, dist []*Term
				for i := 0; i < n; i++ {
					e, ev := mk(fmt.Sprint("p", i))
					els = append(els, e)
					d := mkInt(0)
					for j := range ev {
						df := linSub(ev[j], cv[j])
						d = linAdd(d, linMul(df, df))
					}
					dist = append(dist, d)
				}
				p := x.elemSlice(st, colT, els...)
				at := fmt.Sprintf("of %d colors, %d components", n, chans)
				for _, o := range x.exec(st, idx, []*Term{p, c}, nil) {
					if o.panicked {
						x.check(o.st, "closest", at, false, idx.Pos(), "panics with %v", o.pv)
						continue
					}
					v := o.st.f.rw(o.ret[0])
					if v.op != OConst || v.k < 0 || v.k >= int64(n) {
						x.check(o.st, "closest", at, false, idx.Pos(), "gives the index %v", v)
						continue
					}
					feasible := true
					for _, d := range dist { // squares are not negative
						feasible = feasible && o.st.assumeGe(d)
					}
					if !feasible {
						continue
					}
					for i, d := range dist {
						ge := linSub(d, dist[v.k])
						if i < int(v.k) {
							ge = linK(ge, -1)
						}
						ok := i == int(v.k) || o.st.f.prove(ge)
						if !ok {
							for _, f := range o.st.f.allFacts() {
								if s := f.String(); strings.Contains(s, "wrap") || strings.Contains(s, "conv") || strings.Contains(s, "float") {
									x.fail("distances are computed in a way not understood: %s", s)
								}
							}
						}
						x.check(o.st, "closest", at, ok, idx.Pos(), "gives color %d, but color %d may be closer: the path does not show %v >= 0", v.k, i, ge)
					}
				}
			})
		}
	}
	// components
	r.analyse("RGB", func(x *X) {
		x.precise, x.noMerge = true, true
		toRGB, toRGBA, clip := w.methodOf(colT, "RGB"), w.methodOf(colT, "RGBA"), w.fn("ansi", "RGBA")
		u32 := types.Typ[types.Uint32]
		st := newState()
		var ch []*Term
		for i := 0; i < 3; i++ {
			ch = append(ch, mkAtom(fmt.Sprint("ch", i), u8))
			st.setG(fmt.Sprint("arg", i), ch[i])
		}
		for _, o := range x.exec(st, rgb, ch, nil) {
			for _, q := range x.exec(o.st.fork(), toRGB, []*Term{o.ret[0]}, nil) {
				for i := range ch {
					x.check(q.st, "rgb", fmt.Sprintf("component %d of RGB", i), !q.panicked && q.st.eq(q.ret[i], ch[i]), rgb.Pos(), "gives %v, want %v", q.ret, ch)
				}
			}
			for _, q := range x.exec(o.st.fork(), toRGBA, []*Term{o.ret[0]}, nil) {
				for i := range ch {
					x.check(q.st, "rgb", fmt.Sprintf("component %d of SGRColor.RGBA", i), !q.panicked && q.st.eq(q.ret[i], linScale(ch[i], 257)), rgb.Pos(), "gives %v, want 257 times %v", q.ret, ch)
				}
				x.check(q.st, "rgb", "alpha of SGRColor.RGBA", !q.panicked && q.st.eq(q.ret[3], mkInt(0xffff)), rgb.Pos(), "gives %v", q.ret)
			}
		}
		for i := 0; i < 3; i++ {
			for _, over := range []bool{false, true} {
				st := newState()
				args := []*Term{mkInt(0), mkInt(0), mkInt(0), mkInt(0xffff)}
				v := mkAtom("v", u32)
				args[i] = v
				st.setG("arg", v)
				want := fromBits(toBits(v, 32, 32, false)[8:16], false)
				if over {
					st.assumeGe(linK(v, -0x10000))
					want = mkInt(255)
				} else {
					st.assumeGe(linK(linNeg(v), 0xffff))
				}
				for _, o := range x.exec(st, clip, args, nil) {
					for _, q := range x.exec(o.st, toRGB, []*Term{o.ret[0]}, nil) {
						for j := 0; j < 3; j++ {
							ww := mkInt(0)
							if j == i {
								ww = want
							}
							x.check(q.st, "rgb", fmt.Sprintf("component %d of RGBA of component %d, clipped %v", j, i, over), !q.panicked && q.st.eq(q.ret[j], ww), clip.Pos(), "gives %v, want %v", q.ret[j], ww)
						}
					}
				}
			}
		}
	})
}
