package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C17"] = c17 }

// everyRect calls f with every ordered rectangle around a w by h area.
func everyRect(w, h int, f func(b ibox)) {
	for y0 := 0; y0 <= h+1; y0++ {
		for x0 := 0; x0 <= w+1; x0++ {
			for y1 := y0; y1 <= h+2; y1++ {
				for x1 := x0; x1 <= w+2; x1++ {
					f(ibox{x0, y0, x1, y1})
				}
			}
		}
	}
}

// everySub calls f with every non-empty rectangle within a w by h grid.
func everySub(w, h int, f func(b ibox)) {
	everyRect(w, h, func(b ibox) {
		if b[0] >= 1 && b[1] >= 1 && b[2] <= w+1 && b[3] <= h+1 && b.dx() > 0 && b.dy() > 0 {
			f(b)
		}
	})
}

func (b ibox) in(x, y int) bool { return x >= b[0] && x < b[2] && y >= b[1] && y < b[3] }

// c17: grids and sub-grids.
func c17(r *Run) {
	w := r.w
	r.rule("sub", "a sub-grid covers the part asked for that is within the grid, and shares its storage; it is the zero grid when it starts outside", 12)
	r.rule("cursor", "a sub-screen's cursor is the screen's, moved inside of its bounds", 6)
	r.rule("offset", "exactly the points within a grid's bounds have an offset, each a different one within its storage, the same one in the full grid", 6)
	r.rule("full", "the full grid of any sub-grid covers all of its storage, and only other sizes are sub-grids", 20)
	r.rule("clear", "clearing a grid zeroes exactly the cells within its bounds", 20)
	r.rule("resize", "resizing gives the size asked for, kept within the storage for a sub-grid, and reports whether the size changed", 30)
	r.rule("equal", "grids are equal when they have the same size and the same cells within bounds, zero runes counting as the given one", 20)

	k := newGridKit(w)
	c17sub(r, k)

	gm := func(n string) *ssa.Function { return w.methodOf(k.gridT, n) }
	dims := [][2]int{{1, 1}, {3, 2}, {2, 4}}
	if r.tier == "thorough" {
		dims = append(dims, [2]int{4, 4}, [2]int{1, 5}, [2]int{6, 3})
	}
	recv := func(x *X, st *State, fn *ssa.Function, v *Term) *Term {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			return x.objWith(st, "grid", k.gridT, v)
		}
		return v
	}
	for _, d := range dims {
		W, H := d[0], d[1]
		r.analyse(fmt.Sprintf("Grid.CellOffset on %dx%d", W, H), func(x *X) {
			x.precise, x.noMerge = true, true
			fn := gm("CellOffset")
			everySub(W, H, func(b ibox) {
				st := newState()
				g := k.grid(x, st, k.symCells("g", W*H), W, b)
				px, py := mkAtom("p.x", intT), mkAtom("p.y", intT)
				st.setG("arg0", px)
				st.setG("arg1", py)
				nm := fmt.Sprintf("CellOffset in %v of %dx%d", b, W, H)
				for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, g), k.g.Pt(px, py)}, nil) {
					if o.panicked {
						x.check(o.st, "offset", nm, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					yes, no := o.st.eq(o.ret[1], mkBool(true)), o.st.eq(o.ret[1], mkBool(false))
					if !yes && !no {
						x.fail("%s: %v not known", nm, o.ret[1])
					}
					if no {
						s := o.st.fork()
						x.check(o.st, "offset", nm+": refused", !assumeAll(s, b.box().contains(px, py)) || s.f.prove(mkInt(-1)), fn.Pos(), "a point within has no offset")
						continue
					}
					ok, _ := implies(o.st, nil, b.box().contains(px, py)...)
					x.check(o.st, "offset", nm+": within", ok, fn.Pos(), "a point outside has an offset")
					want := linAdd(linScale(linK(py, -1), int64(W)), linK(px, -1))
					ok, bad := implies(o.st, nil, linSub(o.ret[0], want), linSub(want, o.ret[0]))
					x.check(o.st, "offset", nm, ok, fn.Pos(), "is %v, not %v (%v)", o.ret[0], want, bad)
				}
			})
		})
		r.analyse(fmt.Sprintf("Grid.Full, IsSub and Clear on %dx%d", W, H), func(x *X) {
			x.precise, x.noMerge = true, true
			everySub(W, H, func(b ibox) {
				cs := k.symCells("g", W*H)
				nm := fmt.Sprintf("%v of %dx%d", b, W, H)
				st := newState()
				g := k.grid(x, st, cs, W, b)
				fn := gm("Full")
				for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, g)}, nil) {
					rc, ok := ibox{}, false
					if !o.panicked {
						rc, ok = k.rect(o.st, o.ret[0])
						for _, f := range []int{k.iS, k.iA, k.iU} {
							ft := structOf(k.gridT).Field(f).Type()
							ok = ok && o.st.eq(fieldOf(o.ret[0], f, ft), fieldOf(g, f, ft))
						}
					}
					x.check(o.st, "full", "Full of "+nm, ok && rc == full(W, H), fn.Pos(), "covers %v", rc)
				}
				st = newState()
				g = k.grid(x, st, cs, W, b)
				fn = gm("IsSub")
				for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, g)}, nil) {
					x.check(o.st, "full", "IsSub of "+nm, !o.panicked && o.st.eq(o.ret[0], mkBool(b != full(W, H))), fn.Pos(), "returns %v", o.ret)
				}
				st = newState()
				g = k.grid(x, st, cs, W, b)
				fn = gm("Clear")
				for _, o := range x.exec(st, fn, []*Term{recv(x, st, fn, g)}, nil) {
					if o.panicked {
						x.check(o.st, "clear", nm, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					got, ok := k.cells(x, o.st, g)
					if !ok {
						x.fail("cells not known")
					}
					var want []cell
					for i, c := range cs {
						if b.in(i%W+1, i/W+1) {
							c = cell{tZero, tZero}
						}
						want = append(want, c)
					}
					i, same := k.sameCells(o.st, got, want, false)
					x.check(o.st, "clear", nm, same, fn.Pos(), "cell (%d,%d) is wrong", i%W+1, i/W+1)
				}
			})
		})
		for _, b := range []ibox{full(W, H), {1, 1, 2, 2}, {min(2, W), min(2, H), W + 1, H + 1}, {1, min(2, H), 1 + W, 1 + H}} {
			r.analyse(fmt.Sprintf("Grid.Resize of %v of %dx%d", b, W, H), func(x *X) {
				x.precise, x.noMerge = true, true
				fn := gm("Resize")
				sub := b != full(W, H)
				for sx := 0; sx <= W+2; sx++ {
					for sy := 0; sy <= H+2; sy++ {
						st := newState()
						cs := k.symCells("g", W*H)
						g0 := k.grid(x, st, cs, W, b)
						g := x.objWith(st, "grid", k.gridT, g0)
						nm := fmt.Sprintf("%v of %dx%d to (%d,%d)", b, W, H, sx, sy)
						for _, o := range x.exec(st, fn, []*Term{g, k.g.iPt(mkInt(int64(sx)), mkInt(int64(sy)))}, nil) {
							if o.panicked {
								x.check(o.st, "resize", nm, false, fn.Pos(), "panics with %v", o.pv)
								continue
							}
							v := o.st.load(g)
							rc, ok := k.rect(o.st, v)
							ok = ok && rc[0] == b[0] && rc[1] == b[1]
							change := sx != b.dx() || sy != b.dy()
							x.check(o.st, "resize", nm+": report", o.st.eq(o.ret[0], mkBool(change)), fn.Pos(), "returns %v", o.ret[0])
							got, ok2 := k.cells(x, o.st, v)
							if !sub {
								n := sx * sy
								x.check(o.st, "resize", nm, ok && ok2 && rc.dx() == sx && rc.dy() == sy && len(got) == n && o.st.eq(fieldOf(v, k.iS, intT), mkInt(int64(sx))), fn.Pos(), "gives %v of %d cells", rc, len(got))
								continue
							}
							wx, wy := min(sx, W+1-b[0]), min(sy, H+1-b[1])
							_, same := k.sameCells(o.st, got, cs, false)
							for _, f := range []int{k.iS, k.iA, k.iU} {
								ft := structOf(k.gridT).Field(f).Type()
								same = same && o.st.eq(fieldOf(v, f, ft), fieldOf(g0, f, ft))
							}
							x.check(o.st, "resize", nm, ok && rc.dx() == wx && rc.dy() == wy, fn.Pos(), "gives %v, not of size (%d,%d)", rc, wx, wy)
							x.check(o.st, "resize", nm+": storage", same, fn.Pos(), "changes the underlying storage")
						}
					}
				}
			})
		}
	}
	sizes := [][2]int{{3, 3}, {2, 2}, {3, 2}, {0, 0}, {1, 4}}
	if r.tier == "thorough" {
		sizes = append(sizes, [2]int{2, 3}, [2]int{5, 5}, [2]int{4, 0}, [2]int{0, 4})
	}
	for _, s1 := range sizes {
		for _, s2 := range sizes {
			r.analyse(fmt.Sprintf("Grid.Resize to %v, to %v, and on", s1, s2), func(x *X) {
				x.precise, x.noMerge = true, true
				fn := gm("Resize")
				for _, s3 := range sizes {
					st := newState()
					g := x.objWith(st, "grid", k.gridT, zeroVal(k.gridT))
					outs := []Out{{st: st}}
					prior := [2]int{}
					for _, sz := range [][2]int{s1, s2, s3} {
						nm := fmt.Sprintf("%v, then %v, then %v", s1, s2, s3)
						var next []Out
						for _, o := range outs {
							for _, q := range x.exec(o.st, fn, []*Term{g, k.g.iPt(mkInt(int64(sz[0])), mkInt(int64(sz[1])))}, nil) {
								if q.panicked {
									x.check(q.st, "resize", nm, false, fn.Pos(), "panics with %v", q.pv)
									continue
								}
								v := q.st.load(g)
								got, ok := k.cells(x, q.st, v)
								rc, ok2 := k.rect(q.st, v)
								x.check(q.st, "resize", nm+": shape", ok && ok2 && rc.dx() == sz[0] && rc.dy() == sz[1] && len(got) == sz[0]*sz[1] && (len(got) == 0 || q.st.eq(fieldOf(v, k.iS, intT), mkInt(int64(sz[0])))), fn.Pos(), "gives %v over %v and %v", rc, fieldOf(v, k.iU, nil), fieldOf(v, k.iA, nil))
								x.check(q.st, "resize", nm+": report", q.st.eq(q.ret[0], mkBool(sz != prior)), fn.Pos(), "returns %v", q.ret[0])
								next = append(next, Out{st: q.st})
							}
						}
						outs, prior = next, sz
					}
				}
			})
		}
	}
	c17equal(r, k)
}

// c17sub: sub-grids and sub-screens of any size.
func c17sub(r *Run, k *gridKit) {
	w := r.w
	bx := func(n string) box {
		return box{mkAtom(n+".x0", intT), mkAtom(n+".y0", intT), mkAtom(n+".x1", intT), mkAtom(n+".y1", intT)}
	}
	a, b := bx("grid"), bx("asked")
	px, py := mkAtom("p.x", intT), mkAtom("p.y", intT)
	cx, cy, attr, vis := mkAtom("cur.x", intT), mkAtom("cur.y", intT), mkAtom("cur.attr", k.attrT), mkAtom("cur.vis", types.Typ[types.Bool])
	grid := func(x *X) *Term {
		return withF(k.gridT, zeroVal(k.gridT), k.iR, k.g.Rect(a), k.iS, mkAtom("stride", intT), k.iA, symSlice("attrs", k.attrT), k.iU, symSlice("runes", k.runeT))
	}
	for _, m := range []struct {
		nm   string
		args []*Term
		want box
	}{
		{"SubRect", []*Term{k.g.Rect(b)}, b},
		{"SubAt", []*Term{k.g.Pt(px, py)}, box{px, py, a[2], a[3]}},
		{"SubSize", []*Term{k.g.iPt(px, py)}, box{a[0], a[1], linAdd(a[0], px), linAdd(a[1], py)}},
	} {
		for _, onScreen := range []bool{false, true} {
			nm := "Grid." + m.nm
			fn := w.methodOf(k.gridT, m.nm)
			if onScreen {
				nm = "Screen." + m.nm
				fn = w.methodOf(k.screenT, m.nm)
			}
			r.analyse(nm, func(x *X) {
				x.precise, x.noMerge = true, true
				st := newState()
				for i, t := range append(append(append([]*Term{px, py, cx, cy, mkAtom("stride", intT)}, a[:]...), b[:]...), m.want[:]...) {
					st.setG(fmt.Sprint("arg", i), t)
				}
				g := grid(x)
				recv := g
				if onScreen {
					cur := withF(k.curT, zeroVal(k.curT), k.cPoint, k.g.Pt(cx, cy), k.cAttr, attr, k.cVis, vis)
					recv = withF(k.screenT, zeroVal(k.screenT), k.sCur, cur, k.sGrid, g)
				}
				for _, o := range x.exec(st, fn, append([]*Term{recv}, m.args...), nil) {
					if o.panicked {
						x.check(o.st, "sub", nm, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					res := o.ret[0]
					if onScreen {
						res = fieldOf(res, k.sGrid, k.gridT)
					}
					inside := a.contains(m.want[0], m.want[1])
					// starting inside
					s := o.st.fork()
					if assumeAll(s, inside) && !s.f.prove(mkInt(-1)) {
						got := k.g.box(fieldOf(res, k.iR, k.g.rect), false)
						ok := true
						for _, f := range []int{k.iS, k.iA, k.iU} {
							ft := structOf(k.gridT).Field(f).Type()
							ok = ok && s.eq(fieldOf(res, f, ft), fieldOf(g, f, ft))
						}
						x.check(s, "sub", nm+": storage", ok, fn.Pos(), "does not share the storage")
						ok, _ = implies(s, nil, linSub(got[0], m.want[0]), linSub(m.want[0], got[0]), linSub(got[1], m.want[1]), linSub(m.want[1], got[1]))
						x.check(s, "sub", nm+": start", ok, fn.Pos(), "starts at (%v,%v)", got[0], got[1])
						for i := 2; i < 4; i++ {
							ok1, _ := implies(s, cond{le(m.want[i], a[i])}, linSub(got[i], m.want[i]), linSub(m.want[i], got[i]))
							ok2, _ := implies(s, cond{le(a[i], m.want[i])}, linSub(got[i], a[i]), linSub(a[i], got[i]))
							x.check(s, "sub", nm+": end", ok1 && ok2, fn.Pos(), "ends at %v", got[i])
						}
						if onScreen {
							cur := fieldOf(o.ret[0], k.sCur, k.curT)
							gx, gy := k.g.xy(fieldOf(cur, k.cPoint, k.g.pt))
							ne := got.nonEmpty()
							for _, d := range []struct{ c, p, lo, hi *Term }{{gx, cx, got[0], got[2]}, {gy, cy, got[1], got[3]}} {
								one, _ := implies(s, append(cond{le(d.lo, d.p), lt(d.p, d.hi)}, ne...), linSub(d.c, d.p), linSub(d.p, d.c))
								two, _ := implies(s, append(cond{lt(d.p, d.lo)}, ne...), linSub(d.c, d.lo), linSub(d.lo, d.c))
								three, _ := implies(s, append(cond{le(d.hi, d.p)}, ne...), linSub(d.c, linK(d.hi, -1)), linSub(linK(d.hi, -1), d.c))
								x.check(s, "cursor", nm+": point", one && two && three, fn.Pos(), "moves the cursor from %v to %v", d.p, d.c)
							}
							ok := s.eq(fieldOf(cur, k.cAttr, k.attrT), attr) && s.eq(fieldOf(cur, k.cVis, types.Typ[types.Bool]), vis)
							x.check(s, "cursor", nm+": attribute and visibility", ok, fn.Pos(), "become %v", cur)
						}
					}
					// starting outside
					for _, out := range []cond{{lt(m.want[0], a[0])}, {le(a[2], m.want[0])}, {lt(m.want[1], a[1])}, {le(a[3], m.want[1])}} {
						s := o.st.fork()
						if !assumeAll(s, out) || s.f.prove(mkInt(-1)) {
							continue
						}
						x.check(s, "sub", nm+": outside", sameStruct(s, res, zeroVal(k.gridT)), fn.Pos(), "starting outside gives %v", res)
					}
				}
			})
		}
	}
}

// c17equal: equality of grids.
func c17equal(r *Run, k *gridKit) {
	fn := r.w.methodOf(k.gridT, "Eq")
	zr := mkAtom("zero", k.runeT)
	neq := func(st *State, a, b *Term) bool { return st.assume(mkNot(mkEqv(a, b)), true) }
	type shape struct {
		W, H int
		b    ibox
	}
	shapes := []shape{{2, 1, full(2, 1)}, {2, 2, full(2, 2)}, {3, 2, ibox{2, 1, 4, 2}}, {2, 3, ibox{1, 2, 3, 4}}, {1, 2, full(1, 2)}, {4, 1, full(4, 1)}, {1, 4, full(1, 4)}}
	for _, s1 := range shapes {
		for _, s2 := range shapes {
			r.analyse(fmt.Sprintf("Grid.Eq of %v and %v", s1, s2), func(x *X) {
				x.precise, x.noMerge = true, true
				size := s1.b.dx() == s2.b.dx() && s1.b.dy() == s2.b.dy()
				n := s1.b.dx() * s1.b.dy()
				at := func(s shape, i int) int {
					return (s.b[1]-1+i/s.b.dx())*s.W + s.b[0] - 1 + i%s.b.dx()
				}
				for diff := -1; diff < n; diff++ {
					for kind := 0; kind < 5; kind++ {
						st := newState()
						c1, c2 := k.symCells("g", s1.W*s1.H), k.symCells("h", s2.W*s2.H)
						want := size
						if size {
							for i := 0; i < n; i++ {
								c2[at(s2, i)] = c1[at(s1, i)]
							}
						}
						if diff >= 0 && size {
							i, j := at(s1, diff), at(s2, diff)
							ok := true
							switch kind {
							case 0:
								c2[j].r = mkAtom("other", k.runeT)
								ok = neq(st, c1[i].r, c2[j].r) && neq(st, c1[i].r, tZero) && neq(st, c2[j].r, tZero)
								want = false
							case 1:
								c2[j].a = mkAtom("other", k.attrT)
								ok = neq(st, c1[i].a, c2[j].a)
								want = false
							case 2:
								c1[i].r, c2[j].r = tZero, zr
							case 3:
								c1[i].r, c2[j].r = zr, tZero
							case 4:
								c2[j].r = tZero
								ok = neq(st, c1[i].r, zr) && neq(st, c1[i].r, tZero)
								want = false
							}
							if !ok {
								continue
							}
						} else if kind > 0 {
							continue
						}
						g, h := k.grid(x, st, c1, s1.W, s1.b), k.grid(x, st, c2, s2.W, s2.b)
						nm := fmt.Sprintf("%v of %dx%d and %v of %dx%d", s1.b, s1.W, s1.H, s2.b, s2.W, s2.H)
						if diff >= 0 && size {
							nm += fmt.Sprintf(", %s", []string{"one rune differs", "one attribute differs", "one zero rune", "other zero rune", "zero rune and another one"}[kind])
						}
						for _, o := range x.exec(st, fn, []*Term{g, h, zr}, nil) {
							x.check(o.st, "equal", nm, !o.panicked && o.st.eq(o.ret[0], mkBool(want)), fn.Pos(), "returns %v (panic %v)", o.ret, o.pv)
						}
					}
				}
			})
		}
	}
}
