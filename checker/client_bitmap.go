package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C19"] = c19 }

// bitmap makes a bitmap of known bits.
func (k *gridKit) bitmap(x *X, st *State, W, H int, b ibox, bits []*Term) *Term {
	return withF(k.bmT, zeroVal(k.bmT), k.bBit, x.elemSlice(st, types.Typ[types.Bool], bits...), k.bStride, mkInt(int64(W)), k.bRect, k.g.iRect(b.box()))
}

// brailleRune is the rune of the 2 by 4 dots at a point.
func brailleRune(b ibox, px, py int, bit func(x, y int) bool) int64 {
	dots := [4][2]int64{{1, 8}, {2, 0x10}, {4, 0x20}, {0x40, 0x80}}
	c := int64(0x2800)
	if !b.in(px, py) {
		return c
	}
	for j := 0; j < 4; j++ {
		for i := 0; i < 2; i++ {
			if b.in(px+i, py+j) && bit(px+i, py+j) {
				c |= dots[j][i]
			}
		}
	}
	return c
}

// c19: bitmaps.
func c19(r *Run) {
	w := r.w
	r.rule("bit", "exactly the points within bounds have a bit, each its own; elsewhere bits are unset and setting changes nothing", 20)
	r.rule("rune", "the rune at a point has exactly the dots of the bits that are set and within bounds", 100)
	r.rule("sub", "a sub-bitmap covers the part asked for that is within the bitmap, and shares its bits; it is the zero bitmap when it starts outside", 6)
	r.rule("load", "loading and resizing give a bitmap of the data or of unset bits, and do not write to what the caller holds", 10)
	r.rule("parse", "parsing sets exactly the bits written as the given runes, and refuses uneven lines and other patterns", 10)
	r.rule("write", "writing a bitmap prints each of its runes, in its row and column, as styled", 10)

	k := newGridKit(w)
	s := newStyleKit(w, k)
	boolT := types.Typ[types.Bool]
	bm := func(n string) *ssa.Function { return w.methodOf(k.bmT, n) }
	recv := func(x *X, st *State, fn *ssa.Function, v *Term) *Term {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			return x.objWith(st, "bitmap", k.bmT, v)
		}
		return v
	}
	names := func(n int) (ts []*Term) {
		for i := 0; i < n; i++ {
			ts = append(ts, mkAtom(fmt.Sprintf("bit%d", i), boolT))
		}
		return ts
	}
	type shape struct {
		W, H int
		b    ibox
	}
	shapes := []shape{{1, 1, ibox{0, 0, 1, 1}}, {2, 4, ibox{0, 0, 2, 4}}, {3, 5, ibox{0, 0, 3, 5}}, {4, 6, ibox{1, 1, 3, 4}}, {5, 3, ibox{2, 0, 5, 3}}, {3, 2, ibox{0, 1, 3, 2}}, {0, 0, ibox{}}}
	if r.tier == "thorough" {
		shapes = append(shapes, shape{4, 9, ibox{1, 2, 4, 9}}, shape{7, 1, ibox{0, 0, 7, 1}}, shape{1, 7, ibox{0, 3, 1, 7}}, shape{6, 6, ibox{2, 1, 5, 6}})
	}
	for _, sh := range shapes {
		W, H, b := sh.W, sh.H, sh.b
		nm := fmt.Sprintf("%v of %dx%d", b, W, H)
		px, py := mkAtom("p.x", intT), mkAtom("p.y", intT)
		r.analyse("Bitmap.Get and Set of "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			// every point around, by coordinates
			for y := -1; y <= H+1; y++ {
				for xx := -1; xx <= W+1; xx++ {
					st := newState()
					bits := names(W * H)
					v := k.bitmap(x, st, W, H, b, bits)
					at := k.g.iPt(mkInt(int64(xx)), mkInt(int64(y)))
					fn := bm("Get")
					for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, v), at}, nil) {
						ok := !o.panicked
						if ok && b.in(xx, y) {
							ok = o.st.eq(o.ret[0], bits[y*W+xx])
						} else if ok {
							ok = o.st.eq(o.ret[0], mkBool(false))
						}
						x.check(o.st, "bit", fmt.Sprintf("Get of (%d,%d) in %s", xx, y, nm), ok, fn.Pos(), "gives %v (panic %v)", o.ret, o.pv)
					}
					st = newState()
					v = k.bitmap(x, st, W, H, b, bits)
					fn = bm("Set")
					nb := mkAtom("new", boolT)
					for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, v), at, nb}, nil) {
						got, ok := x.elems(o.st, fieldOf(v, k.bBit, nil))
						ok = ok && !o.panicked
						for i := range got {
							want := bits[i]
							if b.in(xx, y) && i == y*W+xx {
								want = nb
							}
							ok = ok && o.st.eq(got[i], want)
						}
						x.check(o.st, "bit", fmt.Sprintf("Set of (%d,%d) in %s", xx, y, nm), ok, fn.Pos(), "gives %v (panic %v)", got, o.pv)
					}
				}
			}
			// and any point
			fn := bm("Get")
			st := newState()
			st.setG("arg0", px)
			st.setG("arg1", py)
			var set []*Term
			for i := 0; i < W*H; i++ {
				set = append(set, mkBool(true))
			}
			v := k.bitmap(x, st, W, H, b, set)
			for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, v), k.g.iPt(px, py)}, nil) {
				if o.panicked {
					x.check(o.st, "bit", "Get of any point in "+nm, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				for _, in := range b.box().contains(px, py) {
					q := o.st.fork()
					if !q.assumeGe(linNeg(linK(in, 1))) || q.f.prove(mkInt(-1)) {
						continue // within on this side
					}
					x.check(q, "bit", "Get of any point outside of "+nm, q.eq(o.ret[0], mkBool(false)), fn.Pos(), "gives %v outside", o.ret[0])
				}
			}
		})
		r.analyse("Bitmap.Rune of "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			fn := bm("Rune")
			for py := -1; py <= H; py++ {
				for px := -1; px <= W; px++ {
					for pat := -2; pat < 8; pat++ {
						if pat >= 0 && !b.in(px+pat%2, py+pat/2) && (px+pat%2 < 0 || py+pat/2 < 0 || px+pat%2 >= W || py+pat/2 >= H) {
							continue
						}
						bit := func(xx, yy int) bool {
							switch pat {
							case -2:
								return true
							case -1:
								return (xx*3+yy*5)%4 < 2
							}
							return xx == px+pat%2 && yy == py+pat/2
						}
						var bits []*Term
						for y := 0; y < H; y++ {
							for xx := 0; xx < W; xx++ {
								bits = append(bits, mkBool(bit(xx, y)))
							}
						}
						st := newState()
						v := k.bitmap(x, st, W, H, b, bits)
						want := brailleRune(b, px, py, bit)
						for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, v), k.g.iPt(mkInt(int64(px)), mkInt(int64(py)))}, nil) {
							x.check(o.st, "rune", fmt.Sprintf("at (%d,%d) in %s", px, py, nm), !o.panicked && o.st.eq(o.ret[0], mkInt(want)), fn.Pos(), "bits %v give %v, not %#x (panic %v)", bits, o.ret, want, o.pv)
						}
					}
				}
			}
			fn = bm("RuneSize")
			st := newState()
			v := k.bitmap(x, st, W, H, b, names(W*H))
			for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, v)}, nil) {
				if o.panicked {
					x.check(o.st, "rune", "RuneSize of "+nm, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				gx, gy := k.g.xy(o.ret[0])
				x.check(o.st, "rune", "RuneSize of "+nm, o.st.eq(gx, mkInt(int64((b.dx()+1)/2))) && o.st.eq(gy, mkInt(int64((b.dy()+3)/4))), fn.Pos(), "is %v", o.ret[0])
			}
		})
	}
	c19sub(r, k)
	c19load(r, k)
	c19parse(r, k)
	c19write(r, k, s)
}

func c19sub(r *Run, k *gridKit) {
	w := r.w
	bx := func(n string) box {
		return box{mkAtom(n+".x0", intT), mkAtom(n+".y0", intT), mkAtom(n+".x1", intT), mkAtom(n+".y1", intT)}
	}
	a, b := bx("bitmap"), bx("asked")
	px, py := mkAtom("p.x", intT), mkAtom("p.y", intT)
	bm := withF(k.bmT, zeroVal(k.bmT), k.bRect, k.g.iRect(a), k.bStride, mkAtom("stride", intT), k.bBit, symSlice("bits", types.Typ[types.Bool]))
	for _, m := range []struct {
		nm   string
		arg  *Term
		want box
	}{
		{"SubRect", k.g.iRect(b), b},
		{"SubAt", k.g.iPt(px, py), box{px, py, a[2], a[3]}},
		{"SubSize", k.g.iPt(px, py), box{a[0], a[1], linAdd(a[0], px), linAdd(a[1], py)}},
	} {
		fn := w.methodOf(k.bmT, m.nm)
		r.analyse("Bitmap."+m.nm, func(x *X) {
			x.precise, x.noMerge = true, true
			st := newState()
			for i, t := range append(append(append([]*Term{px, py, mkAtom("stride", intT)}, a[:]...), b[:]...), m.want[:]...) {
				st.setG(fmt.Sprint("arg", i), t)
			}
			for _, o := range x.exec(st, fn, []*Term{bm, m.arg}, nil) {
				nm := "Bitmap." + m.nm
				if o.panicked {
					x.check(o.st, "sub", nm, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				// A zero-area receiver or a start outside gives the zero bitmap
				s := o.st.fork()
				if assumeAll(s, a.contains(m.want[0], m.want[1])) && !s.f.prove(mkInt(-1)) {
					got := k.g.box(fieldOf(o.ret[0], k.bRect, k.g.irect), true)
					ok := s.eq(fieldOf(o.ret[0], k.bBit, nil), fieldOf(bm, k.bBit, nil)) && s.eq(fieldOf(o.ret[0], k.bStride, intT), mkAtom("stride", intT))
					x.check(s, "sub", nm+": storage", ok, fn.Pos(), "does not share the bits")
					ok, _ = implies(s, nil, linSub(got[0], m.want[0]), linSub(m.want[0], got[0]), linSub(got[1], m.want[1]), linSub(m.want[1], got[1]))
					x.check(s, "sub", nm+": start", ok, fn.Pos(), "starts at (%v,%v)", got[0], got[1])
					for i := 2; i < 4; i++ {
						ok1, _ := implies(s, cond{le(m.want[i], a[i])}, linSub(got[i], m.want[i]), linSub(m.want[i], got[i]))
						ok2, _ := implies(s, cond{le(a[i], m.want[i])}, linSub(got[i], a[i]), linSub(a[i], got[i]))
						x.check(s, "sub", nm+": end", ok1 && ok2, fn.Pos(), "ends at %v", got[i])
					}
				}
				for _, out := range []cond{{lt(m.want[0], a[0])}, {le(a[2], m.want[0])}, {lt(m.want[1], a[1])}, {le(a[3], m.want[1])}} {
					s := o.st.fork()
					if !assumeAll(s, out) || s.f.prove(mkInt(-1)) {
						continue
					}
					x.check(s, "sub", nm+": outside", sameStruct(s, o.ret[0], zeroVal(k.bmT)), fn.Pos(), "starting outside gives %v", o.ret[0])
				}
			}
		})
	}
}

func c19load(r *Run, k *gridKit) {
	w := r.w
	boolT := types.Typ[types.Bool]
	judge := func(x *X, o Out, bp *Term, nm string, W, H int, want []*Term, fn *ssa.Function) {
		if o.panicked {
			x.check(o.st, "load", nm, false, fn.Pos(), "panics with %v", o.pv)
			return
		}
		v := o.st.load(bp)
		got, ok := x.elems(o.st, fieldOf(v, k.bBit, nil))
		if !ok {
			x.fail("bits of %v not known", v)
		}
		ok = len(got) == len(want) && o.st.eq(fieldOf(v, k.bStride, intT), mkInt(int64(W)))
		b := k.g.box(fieldOf(v, k.bRect, k.g.irect), true)
		for i, c := range []int{0, 0, W, H} {
			ok = ok && o.st.eq(b[i], mkInt(int64(c)))
		}
		for i := range want {
			ok = ok && i < len(got) && o.st.eq(got[i], want[i])
		}
		x.check(o.st, "load", nm, ok, fn.Pos(), "gives %v with bits %v", v, got)
	}
	old := []*Term{mkBool(true), mkBool(true), mkBool(true), mkBool(true)}
	for _, c := range []struct{ stride, n int }{{1, 1}, {2, 4}, {3, 6}, {3, 7}, {4, 2}, {2, 0}, {5, 1}, {1, 5}, {3, 3}} {
		r.analyse(fmt.Sprintf("Bitmap.Load of %d bits by %d", c.n, c.stride), func(x *X) {
			x.precise, x.noMerge = true, true
			fn := w.methodOf(k.bmT, "Load")
			st := newState()
			bp := x.objWith(st, "bitmap", k.bmT, k.bitmap(x, st, 2, 2, ibox{0, 0, 2, 2}, old))
			var data []*Term
			for i := 0; i < c.n; i++ {
				data = append(data, mkAtom(fmt.Sprintf("data%d", i), boolT))
			}
			h := (c.n + c.stride - 1) / c.stride
			want := append([]*Term(nil), data...)
			for len(want) < h*c.stride {
				want = append(want, mkBool(false))
			}
			// the caller has more behind what it passes
			rest := []*Term{mkAtom("rest0", boolT), mkAtom("rest1", boolT), mkAtom("rest2", boolT)}
			whole := x.elemSlice(st, boolT, append(append([]*Term(nil), data...), rest...)...)
			arg := mkSlice(whole.args[0], whole.args[1], mkInt(int64(c.n)), whole.args[3])
			x.aliasAppend = true
			for _, o := range x.exec(st, fn, []*Term{bp, mkInt(int64(c.stride)), arg}, nil) {
				if !o.panicked {
					got, ok := x.elems(o.st, mkSlice(whole.args[0], linK(whole.args[1], int64(c.n)), mkInt(3), mkInt(3)))
					for i := range rest {
						ok = ok && o.st.eq(got[i], rest[i])
					}
					x.check(o.st, "load", "caller's spare capacity", ok, fn.Pos(), "the elements behind the data become %v", got)
				}
				judge(x, o, bp, fmt.Sprintf("Load of %d bits by %d", c.n, c.stride), c.stride, h, want, fn)
			}
		})
	}
	for _, c := range [][2]int{{0, 0}, {1, 1}, {3, 2}, {2, 5}, {0, 3}} {
		r.analyse(fmt.Sprintf("Bitmap.Resize to %v", c), func(x *X) {
			x.precise, x.noMerge = true, true
			fn := w.methodOf(k.bmT, "Resize")
			st := newState()
			bp := x.objWith(st, "bitmap", k.bmT, k.bitmap(x, st, 2, 2, ibox{0, 0, 2, 2}, old))
			var want []*Term
			for i := 0; i < c[0]*c[1]; i++ {
				want = append(want, mkBool(false))
			}
			for _, o := range x.exec(st, fn, []*Term{bp, k.g.iPt(mkInt(int64(c[0])), mkInt(int64(c[1])))}, nil) {
				judge(x, o, bp, fmt.Sprintf("Resize to %v", c), c[0], c[1], want, fn)
			}
		})
	}
}

func c19parse(r *Run, k *gridKit) {
	fn := r.w.fn("", "ParseBitmap")
	for _, c := range []struct {
		set   string
		lines []string
	}{
		{"x", nil}, {"x", []string{"x"}}, {"x", []string{".x.", "x.x"}}, {"1", []string{"0110", "1001", "1111"}},
		{"##", []string{"##..", "..##"}}, {"##", []string{"#..##.", ".##.##"}}, {"ab", []string{"abba", "aabb", "baab"}},
		{"é", []string{"éeé", "eée"}}, {"é∎", []string{"é∎∎é", "ééé∎"}}, {" ", []string{" . "}},
		{"", []string{"x"}}, {"abc", []string{"abcabc"}}, {"ééé", []string{"ééé"}},
		{"##", []string{"###"}}, {"x", []string{"xx", "x"}}, {"x", []string{"xx", "xx", "xxx"}}, {"##", []string{"####", "##"}},
	} {
		nm := fmt.Sprintf("%q in %q", c.set, c.lines)
		r.analyse("ParseBitmap "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			st := newState()
			arg := tNil
			var ls []*Term
			for _, l := range c.lines {
				ls = append(ls, mkStr(l))
			}
			if len(ls) > 0 {
				arg = x.elemSlice(st, types.Typ[types.String], ls...)
			}
			pat := []rune(c.set)
			good := len(pat) == 1 || len(pat) == 2
			stride := 0
			var want []*Term
			for i, l := range c.lines {
				rs := []rune(l)
				if !good || len(rs)%len(pat) != 0 || i > 0 && len(rs)/len(pat) != stride {
					good = false
					break
				}
				stride = len(rs) / len(pat)
				for len(rs) > 0 {
					want = append(want, mkBool(string(rs[:len(pat)]) == c.set))
					rs = rs[len(pat):]
				}
			}
			for _, o := range x.exec(st, fn, []*Term{mkStr(c.set), arg}, nil) {
				if o.panicked {
					x.check(o.st, "parse", nm, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				if !good {
					x.check(o.st, "parse", nm, o.st.isTrue(mkNot(mkEqv(o.ret[2], tNil))), fn.Pos(), "is accepted")
					continue
				}
				got, ok := x.elems(o.st, o.ret[1])
				ok = ok && len(got) == len(want) && o.st.eq(o.ret[0], mkInt(int64(stride))) && o.st.isTrue(mkEqv(o.ret[2], tNil))
				for i := range want {
					ok = ok && o.st.eq(got[i], want[i])
				}
				x.check(o.st, "parse", nm, ok, fn.Pos(), "gives %v", o.ret)
			}
		})
	}
}

func c19write(r *Run, k *gridKit, s *styleKit) {
	w := r.w
	fn := w.fn("", "WriteBitmap")
	vk := newVtKit(w)
	wr := tok("the-writer")
	red, blue := w.constInt("ansi", "SGRAttrFGMask")&^(w.constInt("ansi", "SGRAttrFGMask")>>3), w.constInt("ansi", "SGRAttrBold")
	attrs := []int64{0, red, red, 0, blue, red | blue, 0, 0}
	ua := mkAtom("term.attr", k.attrT)
	y0 := mkAtom("start.y", intT)
	for _, sh := range []struct {
		W, H int
		b    ibox
	}{{2, 4, ibox{0, 0, 2, 4}}, {4, 8, ibox{0, 0, 4, 8}}, {3, 5, ibox{0, 0, 3, 5}}, {6, 10, ibox{1, 2, 6, 10}}, {1, 9, ibox{0, 0, 1, 9}}, {0, 0, ibox{}}} {
		for mode := 0; mode < 4; mode++ {
			for _, direct := range []bool{true, false} {
				nm := fmt.Sprintf("%v of %dx%d, style %d, direct %v", sh.b, sh.W, sh.H, mode, direct)
				r.analyse("WriteBitmap "+nm, func(x *X) {
					x.precise, x.noMerge = true, true
					st := newState()
					bit := func(x, y int) bool { return (x*5+y*3)%7 < 3 }
					var bits []*Term
					for y := 0; y < sh.H; y++ {
						for x := 0; x < sh.W; x++ {
							bits = append(bits, mkBool(bit(x, y)))
						}
					}
					v := k.bitmap(x, st, sh.W, sh.H, sh.b, bits)
					ss := tNil
					if mode > 0 {
						ss = x.elemSlice(st, s.iface, s.style("a"))
					}
					ow, oh := (sh.b.dx()+1)/2, (sh.b.dy()+3)/4
					type ans struct{ r, a int64 }
					answers := map[string]ans{}
					want := []ans{}
					for j := 0; j < oh; j++ {
						for i := 0; i < ow; i++ {
							ru := brailleRune(sh.b, sh.b[0]+2*i, sh.b[1]+4*j, bit)
							a := ans{ru, 0}
							if mode > 0 {
								a = ans{int64('A' + j*ow + i), attrs[(j*ow+i*(mode+1)+mode)%len(attrs)]}
								if (i+j*2)%3 == mode%3 {
									a = ans{0, red}
								}
								at := k.g.Pt(mkInt(int64(sh.b[0]+2*i+1)), mkInt(int64(sh.b[1]+4*j+1)))
								answers[fmt.Sprint([]*Term{at, mkInt(ru)})] = a
								if a.r == 0 {
									a = ans{' ', 0}
								}
							}
							want = append(want, a)
						}
					}
					sh := s.hook(func(st *State, n string, args []*Term) (*Term, *Term) {
						a, ok := answers[fmt.Sprint([]*Term{args[0], args[2]})]
						x.check(st, "write", nm+": asked", ok, fn.Pos(), "the style is asked about %v", args)
						return mkInt(a.r), mkInt(a.a)
					})
					x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
						if v == wr {
							if direct {
								return 1
							}
							return 0
						}
						return -1
					}
					x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
						if outs, ok := sh(x, st, ci); ok {
							return outs, ok
						}
						if ci.fn != nil && ci.mname() == "WriteTo" && ci.fn.Signature.Recv() != nil {
							x.check(st, "write", nm+": writer", st.eq(ci.args[1], wr), fn.Pos(), "written to %v", ci.args[1])
							n := st.g("nout")
							if n == nil {
								n = tZero
							}
							return ret(st, n, tNil), true
						}
						return vk.record(x, st, ci)
					}
					for _, o := range x.exec(st, fn, []*Term{wr, v, ss}, nil) {
						if o.panicked {
							x.check(o.st, "write", nm, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						n := o.st.g("nout")
						if n == nil {
							n = tZero
						}
						x.check(o.st, "write", nm+": report", o.st.eq(o.ret[0], n) && o.st.isTrue(mkEqv(o.ret[1], tNil)), fn.Pos(), "reports %v of %v bytes, %v", o.ret[0], n, o.ret[1])
						vk.play(x, o.st, vterm{x: tOne, y: y0, attr: ua, vis: mkBool(true)}, itemsOf(o.st), func(st *State, v vterm) {
							if v.err != "" {
								x.check(st, "write", nm, false, fn.Pos(), "writes wrong output: %s", v.err)
								return
							}
							ok := len(v.printed) == len(want)
							why := fmt.Sprintf("prints %d runes, not %d", len(v.printed), len(want))
							styled := false
							for i := 0; ok && i < len(want); i++ {
								p, q := v.printed[i], want[i]
								ok = st.eq(p.x, mkInt(int64(i%ow+1))) && st.eq(p.y, linK(y0, int64(i/ow))) && st.eq(p.r, mkInt(q.r))
								styled = styled || q.a != 0
								ok = ok && (st.eq(st.f.rw(p.attr), mkInt(q.a)) || sameBits(st, p.attr, mkInt(q.a), 64, 0) || !styled && p.attr == ua)
								why = fmt.Sprintf("rune %d is %v %v at (%v,%v), want %q %#x", i, p.r, p.attr, p.x, p.y, rune(q.r), uint64(q.a))
							}
							x.check(st, "write", nm, ok, fn.Pos(), "%s", why)
						})
					}
				})
			}
		}
	}
}
