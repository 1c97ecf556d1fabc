package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C16"] = c16 }

// gridKit builds and reads grids of known size and symbolic cells.
type gridKit struct {
	w                    *World
	g                    *geom
	gridT, attrT, runeT  types.Type
	iR, iS, iA, iU       int // Rect, Stride, Attr, Rune
	screenT, curT        types.Type
	sCur, sGrid          int
	cPoint, cAttr, cVis  int
	bmT                  types.Type
	bBit, bStride, bRect int
}

func newGridKit(w *World) *gridKit {
	k := &gridKit{w: w, g: newGeom(w), gridT: w.typ("", "Grid"), attrT: w.typ("ansi", "SGRAttr"), runeT: types.Typ[types.Int32], screenT: w.typ("", "Screen"), curT: w.typ("", "Cursor"), bmT: w.typ("", "Bitmap")}
	k.iR, k.iS, k.iA, k.iU = fieldIdx(k.gridT, "Rect"), fieldIdx(k.gridT, "Stride"), fieldIdx(k.gridT, "Attr"), fieldIdx(k.gridT, "Rune")
	k.sCur, k.sGrid = fieldIdx(k.screenT, "Cursor"), fieldIdx(k.screenT, "Grid")
	k.cPoint, k.cAttr, k.cVis = fieldIdx(k.curT, "Point"), fieldIdx(k.curT, "Attr"), fieldIdx(k.curT, "Visible")
	k.bBit, k.bStride, k.bRect = fieldIdx(k.bmT, "Bit"), fieldIdx(k.bmT, "Stride"), fieldIdx(k.bmT, "Rect")
	return k
}

// cell is what one cell holds.
type cell struct{ r, a *Term }

// ibox is a rectangle of known coordinates.
type ibox [4]int

func (b ibox) dx() int { return b[2] - b[0] }
func (b ibox) dy() int { return b[3] - b[1] }
func (b ibox) box() box {
	return box{mkInt(int64(b[0])), mkInt(int64(b[1])), mkInt(int64(b[2])), mkInt(int64(b[3]))}
}
func full(w, h int) ibox { return ibox{1, 1, 1 + w, 1 + h} }

// withF sets fields of a struct value.
func withF(t types.Type, z *Term, kv ...any) *Term {
	na := append([]*Term(nil), z.args...)
	for i := 0; i < len(kv); i += 2 {
		na[kv[i].(int)] = kv[i+1].(*Term)
	}
	return mkStruct(t, na...)
}

// symCells names the cells of a grid.
func (k *gridKit) symCells(tag string, n int) []cell {
	var cs []cell
	for i := 0; i < n; i++ {
		cs = append(cs, cell{mkAtom(fmt.Sprintf("%s.r%d", tag, i), k.runeT), mkAtom(fmt.Sprintf("%s.a%d", tag, i), k.attrT)})
	}
	return cs
}

// grid makes a grid value over fresh storage.
func (k *gridKit) grid(x *X, st *State, cells []cell, stride int, r ibox) *Term {
	var rs, as []*Term
	for _, c := range cells {
		rs, as = append(rs, c.r), append(as, c.a)
	}
	return withF(k.gridT, zeroVal(k.gridT), k.iR, k.g.Rect(r.box()), k.iS, mkInt(int64(stride)),
		k.iA, x.elemSlice(st, k.attrT, as...), k.iU, x.elemSlice(st, k.runeT, rs...))
}

func (k *gridKit) screen(grid *Term, px, py int, attr *Term, vis *Term) *Term {
	cur := withF(k.curT, zeroVal(k.curT), k.cPoint, k.g.Pt(mkInt(int64(px)), mkInt(int64(py))), k.cAttr, attr, k.cVis, vis)
	return withF(k.screenT, zeroVal(k.screenT), k.sCur, cur, k.sGrid, grid)
}

// elems reads a slice of known length.
func (x *X) elems(st *State, s *Term) ([]*Term, bool) {
	s = st.f.rw(s)
	if s.op == ONil {
		return nil, true
	}
	if s.op != OSlice {
		return nil, false
	}
	n, ok := st.constOf(s.args[2])
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, st.load(addrPath(s.args[0], linK(s.args[1], i))))
	}
	return out, true
}

// cells reads a grid's cells.
func (k *gridKit) cells(x *X, st *State, g *Term) ([]cell, bool) {
	rs, ok1 := x.elems(st, fieldOf(g, k.iU, types.NewSlice(k.runeT)))
	as, ok2 := x.elems(st, fieldOf(g, k.iA, types.NewSlice(k.attrT)))
	if !ok1 || !ok2 || len(rs) != len(as) {
		return nil, false
	}
	var cs []cell
	for i := range rs {
		cs = append(cs, cell{rs[i], as[i]})
	}
	return cs, true
}

func (k *gridKit) rect(st *State, g *Term) (ibox, bool) {
	b := k.g.box(fieldOf(g, k.iR, k.g.rect), false)
	var r ibox
	for i, t := range b {
		c, ok := st.constOf(t)
		if !ok {
			return r, false
		}
		r[i] = int(c)
	}
	return r, true
}

func (k *gridKit) sameCells(st *State, a, b []cell, attr64 bool) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if !st.eq(a[i].r, b[i].r) {
			return i, false
		}
		if !st.eq(a[i].a, b[i].a) && !(attr64 && sameBits(st, a[i].a, b[i].a, 64, 0)) {
			return i, false
		}
	}
	return 0, true
}

// c16: the screen emulation.
func c16(r *Run) {
	w := r.w
	r.rule("text", "a graphic rune is put, with the current attribute, in exactly the cursor's cell, and the cursor moves to the next cell", 10)
	r.rule("erase", "erasing clears exactly the cells of the region, before, from or around the cursor, cursor's cell included", 30)
	r.rule("motion", "cursor motion moves by as much as asked, kept within the screen, and changes no cell", 60)
	r.rule("scroll", "a line feed moves down a row, or on the last row scrolls all rows up by one", 3)
	r.rule("attr", "graphic rendition merges into the attribute of the cursor and changes no cell", 6)
	r.rule("other", "cursor visibility is followed; what is malformed or not supported changes nothing", 20)
	r.rule("inside", "the cursor stays within the screen, and the screen keeps its shape", 60)
	r.rule("state", "moving, clearing and resizing a screen give the state documented", 10)

	k := newGridKit(w)
	ak := attrKit{k.attrT, w.typ("ansi", "SGRColor")}
	proc := w.methodOf(k.screenT, "ProcessANSI")
	decSGR, merge := w.fn("ansi", "DecodeSGR"), w.methodOf(k.attrT, "Merge")
	a0 := ak.mk(ak.flags("a", 0), ak.col("afg"), ak.col("abg"))
	vis := mkAtom("visible", types.Typ[types.Bool])
	csi := func(b byte) int64 { return 0xEF80 + int64(b) }

	type op struct {
		rule, nm string
		e        int64
		a        string
		f        func(W, H, px, py int, cs []cell) (x, y int, out []cell, vis *Term)
	}
	var ops []op
	keep := func(rule, nm string, e int64, a string) {
		ops = append(ops, op{rule, nm, e, a, func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) { return px, py, cs, vis }})
	}
	move := func(e int64, a string, f func(W, H, px, py int) (int, int)) {
		ops = append(ops, op{"motion", fmt.Sprintf("CSI %s %c", a, rune(e-0xEF80)), e, a, func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) {
			x, y := f(W, H, px, py)
			x, y = min(max(x, 1), W), min(max(y, 1), H)
			return x, y, cs, vis
		}})
	}
	for _, c := range []int64{'x', ' ', 0x2801} {
		ops = append(ops, op{"text", fmt.Sprintf("rune U+%04X", c), c, "", func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) {
			out := append([]cell(nil), cs...)
			out[(py-1)*W+px-1] = cell{mkInt(c), a0}
			if px++; px > W {
				px, py = 1, py+1
				if py > H {
					return -1, -1, out, vis // anywhere on the screen
				}
			}
			return px, py, out, vis
		}})
	}
	ops = append(ops, op{"motion", "carriage return", 0x0D, "", func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) { return 1, py, cs, vis }})
	ops = append(ops, op{"scroll", "line feed", 0x0A, "", func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) {
		if py < H {
			return px, py + 1, cs, vis
		}
		out := append([]cell(nil), cs[W:]...)
		for i := 0; i < W; i++ {
			out = append(out, cell{tZero, tZero})
		}
		return px, py, out, vis
	}})
	for i, b := range []byte{'A', 'B', 'C', 'D'} {
		for _, a := range []struct {
			a string
			n int
		}{{"", 1}, {"1", 1}, {"2", 2}, {"77", 77}} {
			move(csi(b), a.a, func(W, H, px, py int) (int, int) {
				switch i {
				case 0:
					return px, py - a.n
				case 1:
					return px, py + a.n
				case 2:
					return px + a.n, py
				}
				return px - a.n, py
			})
		}
		keep("other", fmt.Sprintf("CSI x %c", b), csi(b), "x")
	}
	move(csi('H'), "", func(W, H, px, py int) (int, int) { return 1, 1 })
	move(csi('H'), "2;1", func(W, H, px, py int) (int, int) { return 1, 2 })
	move(csi('H'), "2;3", func(W, H, px, py int) (int, int) { return 3, 2 })
	move(csi('H'), "1;99", func(W, H, px, py int) (int, int) { return 99, 1 })
	move(csi('H'), "99;1", func(W, H, px, py int) (int, int) { return 1, 99 })
	keep("other", "CSI ;x H", csi('H'), ";x")
	for _, e := range []struct {
		b      byte
		nm     string
		region func(W, H, px, py, i int, a byte) bool
	}{
		{'J', "ED", func(W, H, px, py, i int, a byte) bool {
			at := (py-1)*W + px - 1
			return a == '0' && i >= at || a == '1' && i <= at || a == '2'
		}},
		{'K', "EL", func(W, H, px, py, i int, a byte) bool {
			row, col := i/W+1, i%W+1
			return row == py && (a == '0' && col >= px || a == '1' && col <= px || a == '2')
		}},
	} {
		for _, a := range []string{"", "0", "1", "2"} {
			v := byte('0')
			if a != "" {
				v = a[0]
			}
			ops = append(ops, op{"erase", e.nm + " " + a, csi(e.b), a, func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) {
				out := append([]cell(nil), cs...)
				for i := range out {
					if e.region(W, H, px, py, i, v) {
						out[i] = cell{tZero, tZero}
					}
				}
				return px, py, out, vis
			}})
		}
		for _, a := range []string{"7", "x", "12"} {
			keep("other", e.nm+" "+a, csi(e.b), a)
		}
	}
	for _, s := range []string{"31", "1;44", "0"} {
		keep("attr", "SGR "+s, csi('m'), s)
	}
	for _, b := range []byte{'h', 'l'} {
		for _, a := range []string{"?25", "?7;25"} {
			ops = append(ops, op{"other", fmt.Sprintf("CSI %s %c", a, b), csi(b), a, func(W, H, px, py int, cs []cell) (int, int, []cell, *Term) {
				return px, py, cs, mkBool(b == 'h')
			}})
		}
		keep("other", fmt.Sprintf("CSI ?7 %c", b), csi(b), "?7")
	}
	for _, c := range []int64{0x00, 0x07, 0x7F, 0x9B, csi('@'), csi('L'), csi('c'), csi('n'), 0xEF37} {
		keep("other", fmt.Sprintf("U+%04X", c), c, "")
	}

	dims := [][2]int{{1, 1}, {3, 2}, {2, 3}}
	if r.tier == "thorough" {
		dims = append(dims, [2]int{1, 3}, [2]int{4, 1}, [2]int{4, 4}, [2]int{7, 2})
	}
	for _, d := range dims {
		W, H := d[0], d[1]
		for _, o := range ops {
			r.analyse(fmt.Sprintf("Screen.ProcessANSI %s on %dx%d", o.nm, W, H), func(x *X) {
				x.precise, x.noMerge = true, true
				for at := -1; at < W*H; at++ {
					px, py := 0, 0
					if at >= 0 {
						px, py = at%W+1, at/W+1
					}
					nm := fmt.Sprintf("%s at (%d,%d) of %dx%d", o.nm, px, py, W, H)
					st := newState()
					cs := k.symCells("g", W*H)
					sc := x.objWith(st, "screen", k.screenT, k.screen(k.grid(x, st, cs, W, full(W, H)), px, py, a0, vis))
					arg := tNil
					if o.a != "" {
						var els []*Term
						for _, b := range []byte(o.a) {
							els = append(els, mkInt(int64(b)))
						}
						arg = x.elemSlice(st, byteT, els...)
					}
					if at < 0 {
						px, py = 1, 1
					}
					wx, wy, want, wvis := o.f(W, H, px, py, cs)
					judge := func(st *State, wattr *Term) {
						for _, q := range x.exec(st, proc, []*Term{sc, mkInt(o.e), arg}, nil) {
							if q.panicked {
								x.check(q.st, o.rule, nm, false, proc.Pos(), "panics with %v", q.pv)
								continue
							}
							v := q.st.load(sc)
							grid, cur := fieldOf(v, k.sGrid, k.gridT), fieldOf(v, k.sCur, k.curT)
							got, ok := k.cells(x, q.st, grid)
							if !ok {
								x.fail("cells of %v not known", grid)
							}
							i, same := k.sameCells(q.st, got, want, true)
							why := "differs in size"
							if !same && i >= 0 {
								why = fmt.Sprintf("cell (%d,%d) becomes %v %v, want %v %v", i%W+1, i/W+1, got[i].r, got[i].a, want[i].r, want[i].a)
							}
							x.check(q.st, o.rule, nm+": cells", same, proc.Pos(), "%s", why)
							cx, cy := k.g.xy(fieldOf(cur, k.cPoint, k.g.pt))
							if wx > 0 {
								x.check(q.st, o.rule, nm+": cursor", q.st.eq(cx, mkInt(int64(wx))) && q.st.eq(cy, mkInt(int64(wy))), proc.Pos(), "the cursor goes to (%v,%v), want (%d,%d)", cx, cy, wx, wy)
							}
							at, vv := fieldOf(cur, k.cAttr, k.attrT), fieldOf(cur, k.cVis, types.Typ[types.Bool])
							x.check(q.st, o.rule, nm+": attribute", sameBits(q.st, at, wattr, 64, 0), proc.Pos(), "the attribute becomes %v, want %v", at, wattr)
							x.check(q.st, o.rule, nm+": visibility", q.st.eq(vv, wvis), proc.Pos(), "visible becomes %v, want %v", vv, wvis)
							rc, ok := k.rect(q.st, grid)
							in := ok && rc == full(W, H) && q.st.eq(fieldOf(grid, k.iS, intT), mkInt(int64(W)))
							in = in && q.st.f.prove(linK(cx, -1)) && q.st.f.prove(linSub(mkInt(int64(W)), cx)) && q.st.f.prove(linK(cy, -1)) && q.st.f.prove(linSub(mkInt(int64(H)), cy))
							x.check(q.st, "inside", nm, in, proc.Pos(), "the cursor is at (%v,%v) of %v", cx, cy, rc)
						}
					}
					if o.rule != "attr" {
						judge(st, a0)
						continue
					}
					for _, p := range x.exec(st, decSGR, []*Term{arg}, nil) {
						for _, q := range x.exec(p.st, merge, []*Term{a0, p.ret[0]}, nil) {
							judge(q.st, q.ret[0])
						}
					}
				}
			})
		}
	}
	c16state(r, k, a0, vis)
}

// c16state: To, Clear and Resize.
func c16state(r *Run, k *gridKit, a0, vis *Term) {
	w := r.w
	sm := func(n string) *ssa.Function { return w.methodOf(k.screenT, n) }
	mx, my, px, py := mkAtom("max.x", intT), mkAtom("max.y", intT), mkAtom("p.x", intT), mkAtom("p.y", intT)
	r.analyse("Screen.To", func(x *X) {
		x.precise, x.noMerge = true, true
		fn := sm("To")
		st := newState()
		assumeAll(st, cond{linK(mx, -2), linK(my, -2)})
		for i, t := range []*Term{mx, my, px, py} {
			st.setG(fmt.Sprint("arg", i), t)
		}
		grid := withF(k.gridT, zeroVal(k.gridT), k.iR, k.g.Rect(box{mkInt(1), mkInt(1), mx, my}), k.iS, linK(mx, -1))
		sc := x.objWith(st, "screen", k.screenT, k.screen(grid, 1, 1, a0, vis))
		for _, o := range x.exec(st, fn, []*Term{sc, k.g.Pt(px, py)}, nil) {
			if o.panicked {
				x.check(o.st, "state", "To", false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			cur := fieldOf(o.st.load(sc), k.sCur, k.curT)
			cx, cy := k.g.xy(fieldOf(cur, k.cPoint, k.g.pt))
			for _, d := range []struct {
				nm       string
				c, p, mx *Term
			}{{"column", cx, px, mx}, {"row", cy, py, my}} {
				ok, bad := implies(o.st, cond{linK(d.p, -1), lt(d.p, d.mx)}, linSub(d.c, d.p), linSub(d.p, d.c))
				x.check(o.st, "state", "To: "+d.nm+" inside", ok, fn.Pos(), "goes to %v, not %v (%v)", d.c, d.p, bad)
				ok, _ = implies(o.st, cond{le(d.p, tZero)}, linK(d.c, -1), linSub(mkInt(1), d.c))
				x.check(o.st, "state", "To: "+d.nm+" before the screen", ok, fn.Pos(), "goes to %v", d.c)
				ok, _ = implies(o.st, cond{le(d.mx, d.p)}, linSub(d.c, linK(d.mx, -1)), linSub(linK(d.mx, -1), d.c))
				x.check(o.st, "state", "To: "+d.nm+" past the screen", ok, fn.Pos(), "goes to %v", d.c)
			}
		}
	})
	for _, d := range [][2]int{{1, 1}, {3, 2}} {
		W, H := d[0], d[1]
		r.analyse(fmt.Sprintf("Screen.Clear of %dx%d", W, H), func(x *X) {
			x.precise = true
			fn := sm("Clear")
			st := newState()
			sc := x.objWith(st, "screen", k.screenT, k.screen(k.grid(x, st, k.symCells("g", W*H), W, full(W, H)), W, H, a0, vis))
			for _, o := range x.exec(st, fn, []*Term{sc}, nil) {
				if o.panicked {
					x.check(o.st, "state", "Clear", false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				v := o.st.load(sc)
				cs, ok := k.cells(x, o.st, fieldOf(v, k.sGrid, k.gridT))
				ok = ok && len(cs) == W*H
				for _, c := range cs {
					ok = ok && o.st.eq(c.r, tZero) && o.st.eq(c.a, tZero)
				}
				x.check(o.st, "state", "Clear: cells", ok, fn.Pos(), "leaves %v", cs)
				x.check(o.st, "state", "Clear: cursor", sameStruct(o.st, fieldOf(v, k.sCur, k.curT), zeroVal(k.curT)), fn.Pos(), "leaves %v", fieldOf(v, k.sCur, k.curT))
			}
		})
	}
	for _, from := range [][2]int{{0, 0}, {3, 2}, {0, 2}} {
		for _, to := range [][2]int{{0, 0}, {3, 2}, {2, 2}, {2, 3}, {3, 1}, {4, 4}, {0, 3}, {5, 1}} {
			r.analyse(fmt.Sprintf("Screen.Resize from %v to %v", from, to), func(x *X) {
				x.precise, x.noMerge = true, true
				fn := sm("Resize")
				for at := 0; at < max(1, from[0]*from[1]); at++ {
					st := newState()
					cx, cy := 0, 0
					if from[0]*from[1] > 0 {
						cx, cy = at%from[0]+1, at/from[0]+1
					}
					cs := k.symCells("g", from[0]*from[1])
					gr := k.grid(x, st, cs, from[0], full(from[0], from[1]))
					if from == [2]int{} {
						gr = zeroVal(k.gridT)
					}
					sc := x.objWith(st, "screen", k.screenT, k.screen(gr, cx, cy, a0, vis))
					nm := fmt.Sprintf("Resize of %v to %v, cursor at (%d,%d)", from, to, cx, cy)
					for _, o := range x.exec(st, fn, []*Term{sc, k.g.iPt(mkInt(int64(to[0])), mkInt(int64(to[1])))}, nil) {
						if o.panicked {
							x.check(o.st, "state", nm, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						v := o.st.load(sc)
						grid := fieldOf(v, k.sGrid, k.gridT)
						got, ok := k.cells(x, o.st, grid)
						rc, ok2 := k.rect(o.st, grid)
						ok = ok && ok2 && len(got) == to[0]*to[1] && rc.dx() == to[0] && rc.dy() == to[1] && (from == to && from[0] == 0 || rc[0] == 1 && rc[1] == 1)
						ok = ok && (to[0]*to[1] == 0 || o.st.eq(fieldOf(grid, k.iS, intT), mkInt(int64(to[0]))))
						x.check(o.st, "state", nm+": shape", ok, fn.Pos(), "gives %v of %d cells, stride %v", rc, len(got), fieldOf(grid, k.iS, intT))
						x.check(o.st, "state", nm+": report", o.st.eq(o.ret[0], mkBool(from != to)), fn.Pos(), "returns %v", o.ret[0])
						wx, wy := cx, cy
						if cx > to[0] || cy > to[1] {
							wx, wy = 0, 0
						}
						gx, gy := k.g.xy(fieldOf(fieldOf(v, k.sCur, k.curT), k.cPoint, k.g.pt))
						x.check(o.st, "state", nm+": cursor", o.st.eq(gx, mkInt(int64(wx))) && o.st.eq(gy, mkInt(int64(wy))), fn.Pos(), "the cursor becomes (%v,%v)", gx, gy)
						if from == to {
							_, same := k.sameCells(o.st, got, cs, false)
							x.check(o.st, "state", nm+": cells", same, fn.Pos(), "changes cells")
						}
					}
				}
			})
		}
	}
}
