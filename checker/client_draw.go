package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C18"] = c18 }

// styleKit makes opaque styles and records how they are called.
type styleKit struct {
	w     *World
	k     *gridKit
	funcT types.Type // StyleFunc
	iface types.Type // Style
}

func newStyleKit(w *World, k *gridKit) *styleKit {
	return &styleKit{w, k, w.typ("", "StyleFunc"), w.typ("", "Style")}
}

// style is an opaque style, named n.
func (s *styleKit) style(n string) *Term { return mkIface(s.funcT, mkAtom("style:"+n, s.funcT)) }

// hook answers calls of opaque styles: f gives their result.
func (s *styleKit) hook(f func(st *State, n string, args []*Term) (r, a *Term)) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.mname() != "Style" || ci.fn == nil || len(ci.args) != 6 {
			return nil, false
		}
		v := st.f.rw(ci.args[0])
		if v.op != OAtom || !strings.HasPrefix(v.name, "style:") {
			return nil, false
		}
		r, a := f(st, v.name[6:], ci.args[1:])
		return ret(st, r, a), true
	}
}

// styleFn is what a named style does, as a term.
func (s *styleKit) styleFn(n string, args []*Term) (r, a *Term) {
	as := append([]*Term{}, args...)
	return mkApp("stylerune:"+n, s.k.runeT, as...), mkApp("styleattr:"+n, s.k.attrT, as...)
}

// c18: drawing and styles.
func c18(r *Run) {
	w := r.w
	r.rule("copy", "drawing without a style copies exactly the common part of two grids, and changes nothing else", 100)
	r.rule("styled", "drawing with a style puts what the style makes of each common cell, asked once with the cell's own place and contents, unless it makes a zero rune of it", 100)
	r.rule("bitmap", "drawing a bitmap puts each braille rune in its cell, as styled with the prior contents, unless it becomes a zero rune", 20)
	r.rule("compose", "a combination of styles passes each cell through all of them, in order, each once", 20)
	r.rule("alone", "making a combination changes no other combination, and no slice of the caller", 4)
	r.rule("style", "each style does what it documents", 30)

	k := newGridKit(w)
	s := newStyleKit(w, k)
	c18draw(r, k, s)
	c18compose(r, k, s)
	c18styles(r, k)
}

func c18draw(r *Run, k *gridKit, s *styleKit) {
	w := r.w
	draw, drawBm := w.fn("", "DrawGrid"), w.fn("", "DrawBitmap")
	type area struct {
		W, H int
		b    ibox
	}
	var dsts, srcs []area
	everySub(3, 3, func(b ibox) { dsts = append(dsts, area{3, 3, b}) })
	everySub(2, 3, func(b ibox) { srcs = append(srcs, area{2, 3, b}) })
	srcs = append(srcs, area{4, 4, full(4, 4)}, area{4, 1, full(4, 1)}, area{0, 0, ibox{}}, area{5, 5, ibox{2, 2, 5, 5}})
	dsts = append(dsts, area{0, 0, ibox{}}, area{1, 5, full(1, 5)})
	if r.tier == "thorough" {
		everySub(3, 4, func(b ibox) { srcs = append(srcs, area{3, 4, b}) })
	}
	mk := func(x *X, st *State, a area, cs []cell) *Term {
		if a.W == 0 {
			return zeroVal(k.gridT)
		}
		return k.grid(x, st, cs, a.W, a.b)
	}
	check := func(x *X, st *State, rule, nm string, g *Term, want []cell, pos *ssa.Function) {
		if len(want) == 0 {
			return
		}
		got, ok := k.cells(x, st, g)
		if !ok {
			x.fail("cells not known")
		}
		i, same := k.sameCells(st, got, want, false)
		why := ""
		if !same {
			why = fmt.Sprintf("cell %d becomes %v %v, want %v %v", i, got[i].r, got[i].a, want[i].r, want[i].a)
		}
		x.check(st, rule, nm, same, pos.Pos(), "%s", why)
	}
	for _, da := range dsts {
		r.analyse(fmt.Sprintf("DrawGrid onto %v of %dx%d", da.b, da.W, da.H), func(x *X) {
			x.precise, x.noMerge = true, true
			for _, sa := range srcs {
				for mode := 0; mode < 5; mode++ { // no style, no-op style, and a style with several results
					st := newState()
					dc, sc := k.symCells("d", da.W*da.H), k.symCells("s", sa.W*sa.H)
					dst, src := mk(x, st, da, dc), mk(x, st, sa, sc)
					want := append([]cell(nil), dc...)
					ow, oh := min(da.b.dx(), sa.b.dx()), min(da.b.dy(), sa.b.dy())
					ss, rule := tNil, "copy"
					calls := map[string]int{}
					drawn := func(i int) bool { return mode == 2 || mode == 3 && i%2 == 0 }
					if mode == 1 {
						ss = x.elemSlice(st, s.iface, st.load(mkAddr(globalObj(w.global("", "NoopStyle")))))
					} else if mode > 1 {
						rule = "styled"
						ss = x.elemSlice(st, s.iface, s.style("a"))
					}
					for j := 0; j < oh; j++ {
						for i := 0; i < ow; i++ {
							d := (da.b[1]-1+j)*da.W + da.b[0] - 1 + i
							c := sc[(sa.b[1]-1+j)*sa.W+sa.b[0]-1+i]
							if mode > 1 {
								at := k.g.Pt(mkInt(int64(da.b[0]+i)), mkInt(int64(da.b[1]+j)))
								args := []*Term{at, dc[d].r, c.r, dc[d].a, c.a}
								calls[fmt.Sprint(args)] = j*ow + i
								if !drawn(j*ow + i) {
									continue
								}
								c.r, c.a = mkInt(int64('A'+j*ow+i)), mkAtom(fmt.Sprintf("styled%d", j*ow+i), k.attrT)
							}
							want[d] = c
						}
					}
					nm := fmt.Sprintf("%v of %dx%d onto %v of %dx%d", sa.b, sa.W, sa.H, da.b, da.W, da.H)
					asked := map[int]int{}
					x.h.call = s.hook(func(st *State, n string, args []*Term) (*Term, *Term) {
						i, ok := calls[fmt.Sprint(args)]
						x.check(st, rule, nm+": asked", ok, draw.Pos(), "the style is asked about %v", args)
						asked[i]++
						if !ok || !drawn(i) {
							return tZero, mkAtom("nothing", k.attrT)
						}
						return mkInt(int64('A' + i)), mkAtom(fmt.Sprintf("styled%d", i), k.attrT)
					})
					for _, o := range x.exec(st, draw, []*Term{dst, src, ss}, nil) {
						if o.panicked {
							x.check(o.st, rule, nm, false, draw.Pos(), "panics with %v", o.pv)
							continue
						}
						check(x, o.st, rule, nm, dst, want, draw)
						check(x, o.st, rule, nm+": source", src, sc, draw)
						once := len(asked) == len(calls)
						for _, n := range asked {
							once = once && n == 1
						}
						x.check(o.st, rule, nm+": once", once, draw.Pos(), "the style is asked %d times for %d cells", len(asked), len(calls))
					}
					x.h.call = nil
				}
			}
		})
	}

	// bitmaps
	brune := func(W, H int, b ibox, px, py int, bits func(x, y int) bool) int64 {
		dots := [4][2]int64{{1, 8}, {2, 0x10}, {4, 0x20}, {0x40, 0x80}}
		c := int64(0x2800)
		if px < b[0] || py < b[1] || px >= b[2] || py >= b[3] {
			return c
		}
		for j := 0; j < 4; j++ {
			for i := 0; i < 2; i++ {
				if px+i < b[2] && py+j < b[3] && bits(px+i, py+j) {
					c |= dots[j][i]
				}
			}
		}
		return c
	}
	type bm struct {
		W, H int
		b    ibox
	}
	bms := []bm{{0, 0, ibox{}}, {2, 4, ibox{0, 0, 2, 4}}, {3, 5, ibox{0, 0, 3, 5}}, {1, 9, ibox{0, 0, 1, 9}}, {6, 6, ibox{1, 1, 6, 6}}, {6, 4, ibox{3, 1, 5, 4}}, {9, 1, ibox{0, 0, 9, 1}}}
	for _, da := range []area{{2, 2, full(2, 2)}, {3, 3, ibox{2, 1, 4, 3}}, {4, 4, full(4, 4)}, {1, 1, full(1, 1)}, {0, 0, ibox{}}} {
		r.analyse(fmt.Sprintf("DrawBitmap onto %v of %dx%d", da.b, da.W, da.H), func(x *X) {
			x.precise, x.noMerge = true, true
			for _, ba := range bms {
				for mode := 0; mode < 3; mode++ {
					st := newState()
					dc := k.symCells("d", da.W*da.H)
					dst := mk(x, st, da, dc)
					bit := func(x, y int) bool { return (x*5+y*3)%7 < 3 }
					var bits []*Term
					for y := 0; y < ba.H; y++ {
						for x := 0; x < ba.W; x++ {
							bits = append(bits, mkBool(bit(x, y)))
						}
					}
					src := withF(k.bmT, zeroVal(k.bmT), k.bBit, x.elemSlice(st, types.Typ[types.Bool], bits...), k.bStride, mkInt(int64(ba.W)), k.bRect, k.g.iRect(ba.b.box()))
					ss := tNil
					if mode > 0 {
						ss = x.elemSlice(st, s.iface, s.style("a"))
					}
					want := append([]cell(nil), dc...)
					type ans struct{ r, a *Term }
					answers := map[string]ans{}
					keyOf := func(args []*Term) string { return fmt.Sprint(args[1:]) } // the point is the bitmap's
					ow, oh := min(da.b.dx(), (ba.b.dx()+1)/2), min(da.b.dy(), (ba.b.dy()+3)/4)
					for j := 0; j < oh; j++ {
						for i := 0; i < ow; i++ {
							d := (da.b[1]-1+j)*da.W + da.b[0] - 1 + i
							ru := mkInt(brune(ba.W, ba.H, ba.b, ba.b[0]+2*i, ba.b[1]+4*j, bit))
							if mode == 0 {
								want[d].r = ru
								continue
							}
							res := ans{mkInt(int64('A' + j*ow + i)), mkAtom(fmt.Sprintf("styled%d", j*ow+i), k.attrT)}
							if mode == 2 && (i+j)%2 == 0 {
								res.r = tZero
							} else {
								want[d] = cell{res.r, res.a}
							}
							answers[keyOf([]*Term{nil, dc[d].r, ru, dc[d].a, dc[d].a})] = res
						}
					}
					nm := fmt.Sprintf("%v of a %dx%d bitmap onto %v of %dx%d", ba.b, ba.W, ba.H, da.b, da.W, da.H)
					x.h.call = s.hook(func(st *State, n string, args []*Term) (*Term, *Term) {
						res, ok := answers[keyOf(args)]
						x.check(st, "bitmap", nm+": asked", ok, drawBm.Pos(), "the style is asked about %v", args)
						if !ok {
							return tZero, tZero
						}
						return res.r, res.a
					})
					for _, o := range x.exec(st, drawBm, []*Term{dst, src, ss}, nil) {
						if o.panicked {
							x.check(o.st, "bitmap", nm, false, drawBm.Pos(), "panics with %v", o.pv)
							continue
						}
						check(x, o.st, "bitmap", nm, dst, want, drawBm)
						x.check(o.st, "bitmap", nm+": common part", true, drawBm.Pos(), "")
					}
					x.h.call = nil
				}
			}
		})
	}
}

// c18compose: combinations of styles.
func c18compose(r *Run, k *gridKit, s *styleKit) {
	w := r.w
	fn := w.fn("", "Styles")
	noop := func(st *State) *Term { return st.load(mkAddr(globalObj(w.global("", "NoopStyle")))) }
	args := []*Term{k.g.Pt(mkAtom("p.x", intT), mkAtom("p.y", intT)), mkAtom("pr", k.runeT), mkAtom("r", k.runeT), mkAtom("pa", k.attrT), mkAtom("a", k.attrT)}

	// call passes a cell through a style, and compares with the named styles.
	call := func(x *X, st *State, rule, nm string, style *Term, want string, pos *ssa.Function) {
		wr, wa := args[2], args[4]
		for _, n := range want {
			wr, wa = s.styleFn(string(n), []*Term{args[0], args[1], wr, args[3], wa})
		}
		style = st.f.rw(style)
		if style.op != OIface {
			x.check(st, rule, nm, style.op != ONil && false, pos.Pos(), "gives %v", style)
			return
		}
		m := w.methodOf(style.ref.(types.Type), "Style")
		if m == nil {
			x.fail("no Style method of %v", style.ref)
		}
		n := 0
		x.h.call = s.hook(func(st *State, name string, as []*Term) (*Term, *Term) {
			n++
			return s.styleFn(name, as)
		})
		defer func() { x.h.call = nil }()
		if v := st.f.rw(style.args[0]); v.op == OAtom && strings.HasPrefix(v.name, "style:") {
			gr, ga := s.styleFn(v.name[6:], args)
			x.check(st, rule, nm, st.eq(gr, wr) && st.eq(ga, wa), pos.Pos(), "gives style %v, want %q", v, want)
			return
		}
		for _, o := range x.exec(st, m, append([]*Term{style.args[0]}, args...), nil) {
			if o.panicked {
				x.check(o.st, rule, nm, false, pos.Pos(), "panics with %v", o.pv)
				continue
			}
			x.check(o.st, rule, nm, o.st.eq(o.ret[0], wr) && o.st.eq(o.ret[1], wa) && n == len(want), pos.Pos(), "gives %v, %v in %d calls", o.ret[0], o.ret[1], n)
		}
	}
	// build makes a style of a description: letters are opaque styles, '-'
	// the no-op style, brackets a combination.
	var build func(x *X, st *State, d string, f func(st *State, v *Term))
	split := func(d string) (parts []string) {
		depth, at := 0, 0
		for i, c := range d {
			switch c {
			case '[':
				depth++
			case ']':
				depth--
			}
			if depth == 0 {
				parts = append(parts, d[at:i+1])
				at = i + 1
			}
		}
		return parts
	}
	build = func(x *X, st *State, d string, f func(st *State, v *Term)) {
		switch d[0] {
		case '-':
			f(st, noop(st))
		case '[':
			parts := split(d[1 : len(d)-1])
			var rec func(st *State, vs []*Term, rest []string)
			rec = func(st *State, vs []*Term, rest []string) {
				if len(rest) > 0 {
					build(x, st, rest[0], func(st *State, v *Term) { rec(st, append(append([]*Term{}, vs...), v), rest[1:]) })
					return
				}
				sl := tNil
				if len(vs) > 0 {
					sl = x.elemSlice(st, s.iface, vs...)
				}
				for _, o := range x.exec(st, fn, []*Term{sl}, nil) {
					if o.panicked {
						x.check(o.st, "compose", d, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					els, ok := x.elems(o.st, sl)
					for i := range els {
						ok = ok && o.st.eq(els[i], vs[i])
					}
					x.check(o.st, "alone", "the caller's slice", ok && len(els) == len(vs), fn.Pos(), "combining %s changes the list passed in", d)
					f(o.st, o.ret[0])
				}
			}
			rec(st, nil, parts)
		default:
			f(st, s.style(d))
		}
	}
	letters := func(d string) string {
		return strings.Map(func(r rune) rune { return map[bool]rune{true: r, false: -1}[r >= 'a'] }, d)
	}
	for _, d := range []string{"[]", "[-]", "[--]", "[a]", "[-a]", "[a-]", "[ab]", "[ba]", "[aa]", "[a-b]", "[-a-b-]", "[abc]", "[cabd]", "[[ab]c]", "[a[bc]]", "[[ab][cd]]", "[[a]b]", "[[]a]", "[[ab]-[ba]]", "[[[ab]c]d]", "[a[b[cd]]]", "[abcdefgh]", "[[abcde]fg]", "[-[]]"} {
		r.analyse("Styles "+d, func(x *X) {
			x.precise, x.noMerge = true, true
			build(x, newState(), d, func(st *State, v *Term) {
				call(x, st, "compose", "combination "+d, v, letters(d), fn)
			})
		})
	}
	// two combinations made of one other
	for _, base := range []string{"[ab]", "[abc]", "[abcd]", "[abcde]"} {
		r.analyse("Styles of one "+base, func(x *X) {
			x.precise, x.noMerge, x.aliasAppend = true, true, true
			build(x, newState(), base, func(st *State, b *Term) {
				mk := func(st *State, vs []*Term, f func(st *State, v *Term)) {
					for _, o := range x.exec(st, fn, []*Term{x.elemSlice(st, s.iface, vs...)}, nil) {
						if !o.panicked {
							f(o.st, o.ret[0])
						}
					}
				}
				mk(st, []*Term{b, s.style("x")}, func(st *State, one *Term) {
					mk(st, []*Term{b, s.style("y")}, func(st *State, two *Term) {
						mk(st, []*Term{s.style("w"), b}, func(st *State, three *Term) {
							l := letters(base)
							call(x, st.fork(), "alone", base+" itself", b, l, fn)
							call(x, st.fork(), "alone", "first of "+base, one, l+"x", fn)
							call(x, st.fork(), "alone", "second of "+base, two, l+"y", fn)
							call(x, st.fork(), "alone", "third of "+base, three, "w"+l, fn)
						})
					})
				})
			})
		})
	}
}

// c18styles: the styles of the package.
func c18styles(r *Run, k *gridKit) {
	w := r.w
	ak := attrKit{k.attrT, w.typ("ansi", "SGRColor")}
	pt := k.g.Pt(mkAtom("p.x", intT), mkAtom("p.y", intT))
	pr, ru := mkAtom("pr", k.runeT), mkAtom("r", k.runeT)
	bg, fg, fl := w.constInt("ansi", "SGRAttrBGMask"), w.constInt("ansi", "SGRAttrFGMask"), w.constInt("ansi", "SGRAttrMask")
	_ = ak
	run := func(nm string, style func(st *State) (*Term, *ssa.Function), prep func(st *State) bool, a, pa *Term, f func(x *X, st *State, r, a *Term) (bool, string)) {
		r.analyse("style "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			st := newState()
			for i, t := range []*Term{pr, ru, a, pa} {
				st.setG(fmt.Sprint("arg", i), t)
			}
			if prep != nil && !prep(st) {
				return
			}
			recv, fn := style(st)
			for _, o := range x.exec(st, fn, []*Term{recv, pt, pr, ru, pa, a}, nil) {
				if o.panicked {
					x.check(o.st, "style", nm, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				ok, why := f(x, o.st, o.ret[0], o.ret[1])
				x.check(o.st, "style", nm, ok, fn.Pos(), "%s: gives %v, %v", why, o.ret[0], o.ret[1])
			}
		})
	}
	a, pa := mkAtom("a", k.attrT), mkAtom("pa", k.attrT)
	is := func(x, y *Term, v bool) func(st *State) bool {
		return func(st *State) bool { return st.assume(mkEqv(x, y), v) }
	}
	named := func(tn string, v *Term) func(st *State) (*Term, *ssa.Function) {
		t := w.typ("", tn)
		return func(st *State) (*Term, *ssa.Function) {
			return v, w.methodOf(t, "Style")
		}
	}
	global := func(n string) func(st *State) (*Term, *ssa.Function) {
		return func(st *State) (*Term, *ssa.Function) {
			v := st.f.rw(st.load(mkAddr(globalObj(w.global("", n)))))
			if v.op == OIface {
				return v.args[0], w.methodOf(v.ref.(types.Type), "Style")
			}
			return v, w.methodOf(structTypeOf(w, n), "Style")
		}
	}
	both := func(er, ea *Term) func(x *X, st *State, r, a *Term) (bool, string) {
		return func(x *X, st *State, r, a *Term) (bool, string) {
			return st.eq(r, er) && st.eq(a, ea), fmt.Sprintf("want %v, %v", er, ea)
		}
	}
	fixed := mkAtom("self", k.runeT)
	fixedA := mkAtom("selfattr", k.attrT)
	run("NoopStyle", global("NoopStyle"), nil, a, pa, both(ru, a))
	run("ZeroRuneStyle on its rune", named("ZeroRuneStyle", fixed), is(ru, fixed, true), a, pa, both(tZero, tZero))
	run("ZeroRuneStyle on another rune", named("ZeroRuneStyle", fixed), is(ru, fixed, false), a, pa, both(ru, a))
	run("TransparentBrailleRunes on the empty rune", global("TransparentBrailleRunes"), is(ru, mkInt(0x2800), true), a, pa, both(tZero, tZero))
	run("TransparentBrailleRunes on another rune", global("TransparentBrailleRunes"), is(ru, mkInt(0x2800), false), a, pa, both(ru, a))
	run("FillRuneStyle on zero", named("FillRuneStyle", fixed), is(ru, tZero, true), a, pa, both(fixed, a))
	run("FillRuneStyle on a rune", named("FillRuneStyle", fixed), is(ru, tZero, false), a, pa, both(ru, a))
	for _, z := range []bool{true, false} {
		for _, az := range []bool{true, false} {
			er := ru
			if z && !az {
				er = fixed
			}
			run(fmt.Sprintf("DefaultRuneStyle zero rune %v attr %v", z, az), named("DefaultRuneStyle", fixed), func(st *State) bool { return is(ru, tZero, z)(st) && is(a, tZero, az)(st) }, a, pa, both(er, a))
		}
	}
	run("AttrStyle on zero", named("AttrStyle", fixedA), is(ru, tZero, true), a, pa, both(ru, a))
	run("AttrStyle on a rune", named("AttrStyle", fixedA), is(ru, tZero, false), a, pa, both(ru, fixedA))
	run("TransparentRunes on zero", global("TransparentRunes"), is(ru, tZero, true), a, pa, both(pr, a))
	run("TransparentRunes on a rune", global("TransparentRunes"), is(ru, tZero, false), a, pa, both(ru, a))

	// transparent attributes: each part is kept unless zero, and then the prior one's
	type part struct {
		nm   string
		mask int64
	}
	parts := []part{{"background", bg}, {"foreground", fg | fl}}
	for _, g := range []struct {
		nm string
		on [2]bool
	}{{"TransparentAttrBG", [2]bool{true, false}}, {"TransparentAttrFG", [2]bool{false, true}}, {"TransparentAttrBGFG", [2]bool{true, true}}} {
		for zero := 0; zero < 4; zero++ {
			// one concrete representative bit makes a part non-zero
			for _, vals := range [][2]int64{{bg & -bg, fg & -fg}, {bg, fg | fl}, {bg & -bg << 3, fl & -fl}, {bg &^ (bg >> 1), (fg | fl) &^ ((fg | fl) >> 1)}} {
				var av, want int64
				for _, pv := range [][2]int64{{0, 0}, {bg & -bg, 0}, {0, fl & -fl}, {bg, fg | fl}, {bg & -bg << 3, fg & -fg << 5}} {
					av, want = 0, 0
					pav := pv[0] | pv[1]
					for i, p := range parts {
						if zero>>uint(i)&1 == 0 {
							av |= vals[i] & p.mask
							want |= vals[i] & p.mask
						} else if g.on[i] {
							want |= pav & p.mask
						}
					}
					nm := fmt.Sprintf("%s of %#x over %#x", g.nm, uint64(av), uint64(pav))
					run(nm, global(g.nm), nil, mkInt(av), mkInt(pav), both(ru, mkInt(want)))
				}
			}
		}
	}
}

// structTypeOf is the type of a package level variable.
func structTypeOf(w *World, n string) types.Type {
	return w.global("", n).Type().(*types.Pointer).Elem()
}
