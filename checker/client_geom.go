package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	clients["C12"] = c12
	clients["C13"] = c13
}

// geom builds points and rectangles of linear terms.
type geom struct{ pt, rect, ipt, irect types.Type }

func newGeom(w *World) *geom {
	g := &geom{pt: w.typ("ansi", "Point"), rect: w.typ("ansi", "Rectangle")}
	g.ipt = structOf(g.pt).Field(0).Type()
	ms := w.methodOf(g.rect, "ToImage")
	g.irect = ms.Signature.Results().At(0).Type()
	return g
}
func (g *geom) iPt(x, y *Term) *Term { return mkStruct(g.ipt, x, y) }
func (g *geom) Pt(x, y *Term) *Term  { return mkStruct(g.pt, g.iPt(x, y)) }
func (g *geom) Rect(r box) *Term {
	return mkStruct(g.rect, g.Pt(r[0], r[1]), g.Pt(r[2], r[3]))
}
func (g *geom) iRect(r box) *Term {
	return mkStruct(g.irect, g.iPt(r[0], r[1]), g.iPt(r[2], r[3]))
}

// xy takes a point (of either kind) apart.
func (g *geom) xy(v *Term) (*Term, *Term) {
	if v.typ != nil && types.Identical(v.typ, g.ipt) {
		return fieldOf(v, 0, intT), fieldOf(v, 1, intT)
	}
	p := fieldOf(v, 0, g.ipt)
	return fieldOf(p, 0, intT), fieldOf(p, 1, intT)
}

// box is min x, min y, max x, max y.
type box [4]*Term

func (g *geom) box(v *Term, img bool) box {
	pt := g.pt
	if img {
		pt = g.ipt
	}
	a, b := fieldOf(v, 0, pt), fieldOf(v, 1, pt)
	if img {
		return box{fieldOf(a, 0, intT), fieldOf(a, 1, intT), fieldOf(b, 0, intT), fieldOf(b, 1, intT)}
	}
	ax, ay := g.xy(a)
	bx, by := g.xy(b)
	return box{ax, ay, bx, by}
}

// cond is a conjunction of linear terms each at least zero.
type cond []*Term

func le(a, b *Term) *Term { return linSub(b, a) }
func lt(a, b *Term) *Term { return linK(linSub(b, a), -1) }

// contains gives the conditions of a point being in a box.
func (b box) contains(x, y *Term) cond {
	return cond{le(b[0], x), lt(x, b[2]), le(b[1], y), lt(y, b[3])}
}
func (b box) nonEmpty() cond { return cond{lt(b[0], b[2]), lt(b[1], b[3])} }

// empties gives two conditions that together cover every empty box.
func (b box) empties() []cond { return []cond{{le(b[2], b[0])}, {le(b[3], b[1])}} }

func assumeAll(st *State, cs ...cond) bool {
	for _, c := range cs {
		for _, t := range c {
			if !st.assumeGe(t) {
				return false
			}
		}
	}
	return true
}

// implies reports that under the further conditions every goal holds.
func implies(st *State, hyp cond, goals ...*Term) (bool, *Term) {
	s := st.fork()
	if !assumeAll(s, hyp) {
		return true, nil
	}
	for _, g := range goals {
		if s.f.prove(g) {
			continue
		}
		// a contradiction in the hypotheses proves anything
		if s.f.prove(mkInt(-1)) {
			return true, nil
		}
		return false, g
	}
	return true, nil
}

func c12(r *Run) {
	w := r.w
	r.rule("construct", "points and rectangles are built as given, ordered, one-based, and refused when out of range", 12)
	r.rule("convert", "converting between zero and one based coordinates moves by exactly one each way, and refuses what is out of range", 10)
	r.rule("arith", "translation, difference and size are component-wise", 10)
	r.rule("empty", "emptiness, equality, containment and overlap are those of the sets of points", 40)
	r.rule("intersect", "an intersection is exactly the common points", 2)
	r.rule("union", "a union is the smallest rectangle holding both", 5)
	r.rule("canon", "the canonical rectangle has the same corners, in order", 4)
	r.rule("inset", "an inset moves every side in, or leaves nothing near the center", 4)
	g := newGeom(w)
	pm := func(n string) *ssa.Function { return w.methodOf(g.pt, n) }
	rm := func(n string) *ssa.Function { return w.methodOf(g.rect, n) }
	bx := func(n string) box {
		return box{mkAtom(n+".x0", intT), mkAtom(n+".y0", intT), mkAtom(n+".x1", intT), mkAtom(n+".y1", intT)}
	}
	px, py, qx, qy, k := mkAtom("p.x", intT), mkAtom("p.y", intT), mkAtom("q.x", intT), mkAtom("q.y", intT), mkAtom("k", intT)
	p, q, iq, ip := g.Pt(px, py), g.Pt(qx, qy), g.iPt(qx, qy), g.iPt(px, py)
	a, b := bx("r"), bx("s")

	// run executes a function under a case and hands over every outcome
	run := func(name string, fn *ssa.Function, args []*Term, c cond, f func(x *X, o Out)) {
		r.analyse(name, func(x *X) {
			x.precise, x.noMerge = true, true
			st := newState()
			if !assumeAll(st, c) {
				return
			}
			for i, t := range args {
				st.setG(fmt.Sprintf("arg%d", i), t) // keep the facts on them
			}
			for _, o := range x.exec(st, fn, args, nil) {
				f(x, o)
			}
		})
	}
	// mustPanic and mustNot give the panic behaviour of a case
	panics := func(rule, name string, fn *ssa.Function, args []*Term, c cond) {
		run(name, fn, args, c, func(x *X, o Out) {
			x.check(o.st, rule, name, o.panicked, fn.Pos(), "returns %v", o.ret)
		})
	}
	// gives checks results component-wise
	gives := func(rule, name string, fn *ssa.Function, args []*Term, c cond, get func(v *Term) []*Term, want ...*Term) {
		run(name, fn, args, c, func(x *X, o Out) {
			if o.panicked {
				x.check(o.st, rule, name, false, fn.Pos(), "panics with %v", o.pv)
				return
			}
			got := get(o.ret[0])
			ok := len(got) == len(want)
			for i := range want {
				if want[i] == tTrue || want[i] == tFalse {
					d := o.st.decide(got[i])
					ok = ok && d >= 0 && (d == 1) == (want[i] == tTrue)
				} else {
					ok = ok && o.st.eq(got[i], want[i])
				}
			}
			x.check(o.st, rule, name, ok, fn.Pos(), "gives %v, want %v", got, want)
		})
	}
	asPt := func(v *Term) []*Term { x, y := g.xy(v); return []*Term{x, y} }
	asI := func(v *Term) []*Term { return []*Term{fieldOf(v, 0, intT), fieldOf(v, 1, intT)} }
	asR := func(v *Term) []*Term { b := g.box(v, false); return b[:] }
	asIR := func(v *Term) []*Term { b := g.box(v, true); return b[:] }
	as1 := func(v *Term) []*Term { return []*Term{v} }

	one, zero := mkInt(1), mkInt(0)
	pt, rect, pfi, rfi := w.fn("ansi", "Pt"), w.fn("ansi", "Rect"), w.fn("ansi", "PtFromImage"), w.fn("ansi", "RectFromImage")
	inc := func(ts ...*Term) []*Term {
		var o []*Term
		for _, t := range ts {
			o = append(o, linK(t, 1))
		}
		return o
	}
	dec := func(ts ...*Term) []*Term {
		var o []*Term
		for _, t := range ts {
			o = append(o, linK(t, -1))
		}
		return o
	}
	atLeast := func(k *Term, ts ...*Term) cond {
		var c cond
		for _, t := range ts {
			c = append(c, le(k, t))
		}
		return c
	}
	gives("construct", "point", pt, []*Term{px, py}, atLeast(one, px, py), asPt, px, py)
	panics("construct", "point with x below 1", pt, []*Term{px, py}, cond{lt(px, one)})
	panics("construct", "point with y below 1", pt, []*Term{px, py}, cond{lt(py, one)})
	for i := range a {
		panics("construct", fmt.Sprintf("rectangle with coordinate %d below 1", i), rect, a[:], cond{lt(a[i], one)})
	}
	valid := atLeast(one, a[:]...)
	for i := 0; i < 4; i++ {
		c, want := append(cond{}, valid...), a
		if i&1 == 0 {
			c = append(c, le(a[0], a[2]))
		} else {
			c = append(c, lt(a[2], a[0]))
			want[0], want[2] = a[2], a[0]
		}
		if i&2 == 0 {
			c = append(c, le(a[1], a[3]))
		} else {
			c = append(c, lt(a[3], a[1]))
			want[1], want[3] = a[3], a[1]
		}
		gives("construct", fmt.Sprintf("rectangle, corner order %d", i), rect, a[:], c, asR, want[:]...)
		gives("canon", fmt.Sprintf("corner order %d", i), rm("Canon"), []*Term{g.Rect(a)}, c[4:], asR, want[:]...)
	}
	gives("construct", "valid point", pm("Valid"), []*Term{p}, atLeast(one, px, py), as1, tTrue)
	gives("construct", "point invalid in x", pm("Valid"), []*Term{p}, cond{lt(px, one)}, as1, tFalse)
	gives("construct", "point invalid in y", pm("Valid"), []*Term{p}, cond{lt(py, one)}, as1, tFalse)

	gives("convert", "point from image", pfi, []*Term{ip}, atLeast(zero, px, py), asPt, inc(px, py)...)
	panics("convert", "point from image, x below 0", pfi, []*Term{ip}, cond{lt(px, zero)})
	panics("convert", "point from image, y below 0", pfi, []*Term{ip}, cond{lt(py, zero)})
	gives("convert", "point to image", pm("ToImage"), []*Term{p}, atLeast(one, px, py), asI, dec(px, py)...)
	panics("convert", "point to image, x below 1", pm("ToImage"), []*Term{p}, cond{lt(px, one)})
	panics("convert", "point to image, y below 1", pm("ToImage"), []*Term{p}, cond{lt(py, one)})
	ordered := cond{le(a[0], a[2]), le(a[1], a[3])}
	gives("convert", "rectangle from image", rfi, []*Term{g.iRect(a)}, append(atLeast(zero, a[:]...), ordered...), asR, inc(a[:]...)...)
	gives("convert", "rectangle to image", rm("ToImage"), []*Term{g.Rect(a)}, append(atLeast(one, a[:]...), ordered...), asIR, dec(a[:]...)...)
	for i := range a {
		panics("convert", fmt.Sprintf("rectangle from image with coordinate %d below 0", i), rfi, []*Term{g.iRect(a)}, cond{lt(a[i], zero)})
		panics("convert", fmt.Sprintf("rectangle to image with coordinate %d below 1", i), rm("ToImage"), []*Term{g.Rect(a)}, cond{lt(a[i], one)})
	}

	gives("arith", "point Add", pm("Add"), []*Term{p, iq}, nil, asPt, linAdd(px, qx), linAdd(py, qy))
	gives("arith", "point Sub", pm("Sub"), []*Term{p, iq}, nil, asPt, linSub(px, qx), linSub(py, qy))
	gives("arith", "point Diff", pm("Diff"), []*Term{p, q}, nil, asI, linSub(px, qx), linSub(py, qy))
	gives("arith", "point Mul", pm("Mul"), []*Term{p, k}, nil, asPt, linMul(px, k), linMul(py, k))
	for _, n := range []int64{1, 2, 3, 10} {
		nn := mkInt(n)
		gives("arith", fmt.Sprintf("point Div %d", n), pm("Div"), []*Term{p, nn}, nil, asPt, mkQuo(px, nn, intT), mkQuo(py, nn, intT))
	}
	ra, sb := g.Rect(a), g.Rect(b)
	gives("arith", "rectangle Dx", rm("Dx"), []*Term{ra}, nil, as1, linSub(a[2], a[0]))
	gives("arith", "rectangle Dy", rm("Dy"), []*Term{ra}, nil, as1, linSub(a[3], a[1]))
	gives("arith", "rectangle Size", rm("Size"), []*Term{ra}, nil, asI, linSub(a[2], a[0]), linSub(a[3], a[1]))
	gives("arith", "rectangle Add", rm("Add"), []*Term{ra, iq}, nil, asR, linAdd(a[0], qx), linAdd(a[1], qy), linAdd(a[2], qx), linAdd(a[3], qy))
	gives("arith", "rectangle Sub", rm("Sub"), []*Term{ra, iq}, nil, asR, linSub(a[0], qx), linSub(a[1], qy), linSub(a[2], qx), linSub(a[3], qy))

	// predicates: a case is a name, the conditions, the answer
	type kase struct {
		name string
		c    cond
		want *Term
	}
	both := func(cs ...cond) (o cond) {
		for _, c := range cs {
			o = append(o, c...)
		}
		return
	}
	neg := func(t *Term) *Term { return linK(linNeg(t), -1) } // not t>=0
	var cases []kase
	test := func(what string, fn *ssa.Function, args []*Term, ks []kase) {
		for _, c := range ks {
			gives("empty", what+": "+c.name, fn, args, c.c, as1, c.want)
		}
	}
	// point in rectangle
	in := a.contains(px, py)
	cases = []kase{{"inside", in, tTrue}}
	for i, t := range in {
		cases = append(cases, kase{fmt.Sprintf("outside by bound %d", i), cond{neg(t)}, tFalse})
	}
	test("point in rectangle", pm("In"), []*Term{p, ra}, cases)
	test("equal points", pm("Eq"), []*Term{p, q}, []kase{
		{"same", cond{le(px, qx), le(qx, px), le(py, qy), le(qy, py)}, tTrue},
		{"x below", cond{lt(px, qx)}, tFalse}, {"x above", cond{lt(qx, px)}, tFalse},
		{"y below", cond{lt(py, qy)}, tFalse}, {"y above", cond{lt(qy, py)}, tFalse}})
	cases = []kase{{"points", a.nonEmpty(), tFalse}}
	for i, c := range a.empties() {
		cases = append(cases, kase{fmt.Sprintf("no points %d", i), c, tTrue})
	}
	test("empty rectangle", rm("Empty"), []*Term{ra}, cases)
	// rectangle in rectangle
	sub := cond{le(b[0], a[0]), le(a[2], b[2]), le(b[1], a[1]), le(a[3], b[3])}
	cases = []kase{{"within", both(a.nonEmpty(), sub), tTrue}}
	for i, c := range a.empties() {
		cases = append(cases, kase{fmt.Sprintf("empty %d", i), c, tTrue})
	}
	for i, t := range sub {
		cases = append(cases, kase{fmt.Sprintf("beyond by bound %d", i), both(a.nonEmpty(), cond{neg(t)}), tFalse})
	}
	test("rectangle in rectangle", rm("In"), []*Term{ra, sb}, cases)
	// overlap
	ov := cond{lt(a[0], b[2]), lt(b[0], a[2]), lt(a[1], b[3]), lt(b[1], a[3])}
	cases = []kase{{"common points", both(a.nonEmpty(), b.nonEmpty(), ov), tTrue}}
	for i := range a.empties() {
		cases = append(cases, kase{fmt.Sprintf("first empty %d", i), a.empties()[i], tFalse}, kase{fmt.Sprintf("second empty %d", i), b.empties()[i], tFalse})
	}
	for i, t := range ov {
		cases = append(cases, kase{fmt.Sprintf("apart by bound %d", i), both(a.nonEmpty(), b.nonEmpty(), cond{neg(t)}), tFalse})
	}
	test("overlap", rm("Overlaps"), []*Term{ra, sb}, cases)
	// equality
	var same cond
	for i := range a {
		same = append(same, le(a[i], b[i]), le(b[i], a[i]))
	}
	cases = []kase{{"same corners", both(a.nonEmpty(), same), tTrue}}
	for i, c := range a.empties() {
		for j, d := range b.empties() {
			cases = append(cases, kase{fmt.Sprintf("both empty %d %d", i, j), both(c, d), tTrue})
		}
		cases = append(cases, kase{fmt.Sprintf("only first empty %d", i), both(c, b.nonEmpty()), tFalse}, kase{fmt.Sprintf("only second empty %d", i), both(a.nonEmpty(), b.empties()[i]), tFalse})
	}
	for i, t := range same {
		cases = append(cases, kase{fmt.Sprintf("differ by %d", i), both(a.nonEmpty(), b.nonEmpty(), cond{neg(t)}), tFalse})
	}
	test("equal rectangles", rm("Eq"), []*Term{ra, sb}, cases)

	// intersection: exactly the common points
	run("intersection", rm("Intersect"), []*Term{ra, sb}, nil, func(x *X, o Out) {
		fn := rm("Intersect")
		if o.panicked {
			x.check(o.st, "intersect", "total", false, fn.Pos(), "panics with %v", o.pv)
			return
		}
		c := g.box(o.ret[0], false)
		ok, bad := implies(o.st, c.contains(px, py), both(a.contains(px, py), b.contains(px, py))...)
		x.check(o.st, "intersect", "only common points", ok, fn.Pos(), "a point of %v can break %v", c, bad)
		ok, bad = implies(o.st, both(a.contains(px, py), b.contains(px, py)), c.contains(px, py)...)
		x.check(o.st, "intersect", "all common points", ok, fn.Pos(), "a common point can break %v of %v", bad, c)
	})
	un := rm("Union")
	run("union", un, []*Term{ra, sb}, both(a.nonEmpty(), b.nonEmpty()), func(x *X, o Out) {
		if o.panicked {
			x.check(o.st, "union", "total", false, un.Pos(), "panics with %v", o.pv)
			return
		}
		c := g.box(o.ret[0], false)
		for i, nm := range []string{"left", "top", "right", "bottom"} {
			lo := linSub(a[i], c[i])
			lo2 := linSub(b[i], c[i])
			if i > 1 {
				lo, lo2 = linNeg(lo), linNeg(lo2)
			}
			ok := o.st.f.prove(lo) && o.st.f.prove(lo2) && (o.st.eq(c[i], a[i]) || o.st.eq(c[i], b[i]))
			x.check(o.st, "union", nm+" side", ok, un.Pos(), "%v from %v and %v", c[i], a[i], b[i])
		}
	})
	for i := range a.empties() {
		gives("union", fmt.Sprintf("with the first empty %d", i), un, []*Term{ra, sb}, both(a.empties()[i], b.nonEmpty()), asR, b[:]...)
		gives("union", fmt.Sprintf("with the second empty %d", i), un, []*Term{ra, sb}, both(a.nonEmpty(), b.empties()[i]), asR, a[:]...)
	}
	run("union of nothing", un, []*Term{ra, sb}, both(a.empties()[0], b.empties()[0]), func(x *X, o Out) {
		c := box{}
		if !o.panicked {
			c = g.box(o.ret[0], false)
		}
		x.check(o.st, "union", "of nothing", !o.panicked && (o.st.f.prove(le(c[2], c[0])) || o.st.f.prove(le(c[3], c[1]))), un.Pos(), "gives %v", c)
	})

	// inset, per axis
	ins := rm("Inset")
	for i := 0; i < 4; i++ {
		c := append(cond{}, append(ordered, atLeast(one, a[:]...)...)...)
		for ax := 0; ax < 2; ax++ {
			d := linSub(linSub(a[2+ax], a[ax]), linScale(k, 2))
			if i>>ax&1 == 1 {
				d = neg(d)
			}
			c = append(c, d)
		}
		i := i
		nm := fmt.Sprintf("room %d", 3-i)
		run("inset, "+nm, ins, []*Term{ra, k}, c, func(x *X, o Out) {
			if o.panicked {
				x.check(o.st, "inset", nm, false, ins.Pos(), "panics with %v", o.pv)
				return
			}
			d := g.box(o.ret[0], false)
			for ax := 0; ax < 2; ax++ {
				var ok bool
				if i>>ax&1 == 1 {
					ok = o.st.eq(d[ax], d[2+ax]) && o.st.f.prove(le(a[ax], d[ax])) && o.st.f.prove(le(d[ax], a[2+ax]))
				} else {
					ok = o.st.eq(d[ax], linAdd(a[ax], k)) && o.st.eq(d[2+ax], linSub(a[2+ax], k))
				}
				x.check(o.st, "inset", fmt.Sprintf("%s axis %d", nm, ax), ok, ins.Pos(), "%v inset by %v gives %v", a, k, d)
			}
		})
	}
}

// C13: mouse reports.
func c13(r *Run) {
	w := r.w
	r.rule("decode", "an extended mouse report decodes to its state bits and its column and row, a final m marking a release", 512)
	r.rule("reject", "a malformed report, or a state that does not fit, is an error and gives no state", 8)
	r.rule("other", "anything else is no mouse report and no error", 3)
	r.rule("button", "buttons, modifiers, press, drag, motion and release follow the state bits", 1300)
	msT := w.typ("ansi", "MouseState")
	mm := func(n string) *ssa.Function { return w.methodOf(msT, n) }
	dec := w.fn("ansi", "DecodeXtermExtendedMouse")
	g := newGeom(w)
	id := func(b byte) *Term { return mkInt(0xEF80 | int64(b)) }
	bytesOf := func(x *X, st *State, s string) *Term {
		var els []*Term
		for _, b := range []byte(s) {
			els = append(els, mkInt(int64(b)))
		}
		return x.elemSlice(st, byteT, els...)
	}
	r.analyse("extended mouse reports", func(x *X) {
		x.precise = true
		pts := [][2]int{{1, 1}, {7, 42}, {80, 24}, {300, 1000}}
		for cb := 0; cb < 256; cb++ {
			for fi, f := range []byte{'M', 'm'} {
				for pi, p := range pts {
					if pi != (cb+fi)%len(pts) && r.tier != "thorough" {
						continue
					}
					arg := fmt.Sprintf("<%d;%d;%d", cb, p[0], p[1])
					want := int64(cb)
					if f == 'm' {
						want |= 128
					}
					st := newState()
					nm := fmt.Sprintf("state %d %c", cb, f)
					for _, o := range x.exec(st, dec, []*Term{id(f), bytesOf(x, st, arg)}, nil) {
						ok := !o.panicked
						if ok {
							px, py := g.xy(o.ret[1])
							ok = o.st.eq(o.ret[0], mkInt(want)) && o.st.eq(px, mkInt(int64(p[0]))) && o.st.eq(py, mkInt(int64(p[1]))) && o.st.isTrue(mkEqv(o.ret[2], tNil))
						}
						x.check(o.st, "decode", nm, ok, dec.Pos(), "%q %c gives %v, want state %d at %v", arg, f, o.ret, want, p)
					}
				}
			}
		}
		for _, arg := range []string{"<", "<a;1;1", "<256;1;1", "<-1;1;1", "<99999999999;1;1", "<0", "<0;", "<0;1", "<0;1;", "<0;1;1;", "<0;1;1x", "<0;99999999999;1", "<0;1;99999999999"} {
			for _, f := range []byte{'M', 'm'} {
				st := newState()
				for _, o := range x.exec(st, dec, []*Term{id(f), bytesOf(x, st, arg)}, nil) {
					ok := !o.panicked && o.st.eq(o.ret[0], tZero) && o.st.isTrue(mkNot(mkEqv(o.ret[2], tNil)))
					x.check(o.st, "reject", arg, ok, dec.Pos(), "%q %c gives %v", arg, f, o.ret)
				}
			}
		}
	})
	other := func(nm string, mk func(x *X, st *State) (*Term, *Term, bool)) {
		r.analyse("other input: "+nm, func(x *X) {
			st := newState()
			i, a, ok := mk(x, st)
			if !ok {
				x.fail("infeasible")
			}
			for _, o := range x.exec(st, dec, []*Term{i, a}, nil) {
				ok := !o.panicked
				if ok {
					px, py := g.xy(o.ret[1])
					ok = o.st.eq(o.ret[0], tZero) && o.st.eq(px, tZero) && o.st.eq(py, tZero) && o.st.isTrue(mkEqv(o.ret[2], tNil))
				}
				x.check(o.st, "other", nm, ok, dec.Pos(), "gives %v", o.ret)
			}
		})
	}
	escT := w.typ("ansi", "Escape")
	other("another identifier", func(x *X, st *State) (*Term, *Term, bool) {
		e := mkAtom("id", escT)
		return e, symSlice("arg", byteT), st.assume(mkEq0(linSub(e, id('M'))), false) && st.assume(mkEq0(linSub(e, id('m'))), false)
	})
	other("no argument", func(x *X, st *State) (*Term, *Term, bool) { return id('M'), bytesOf(x, st, ""), true })
	other("old style report", func(x *X, st *State) (*Term, *Term, bool) { return id('M'), bytesOf(x, st, "0;1;1"), true })

	r.analyse("mouse states", func(x *X) {
		x.precise = true
		eval := func(fn *ssa.Function, v int) []*Term {
			outs := x.exec(newState(), fn, []*Term{mkInt(int64(v))}, nil)
			if len(outs) != 1 || outs[0].panicked {
				return nil
			}
			for i, t := range outs[0].ret {
				outs[0].ret[i] = outs[0].st.f.rw(t)
			}
			return outs[0].ret
		}
		bl := func(b bool) *Term {
			if b {
				return tTrue
			}
			return tFalse
		}
		for v := 0; v < 256; v++ {
			low, wheel := v&3, v&64 != 0
			motion, release := v&32 != 0, v&128 != 0
			button := 0
			switch {
			case wheel && low == 3:
				continue // no terminal reports a wheel without a direction
			case wheel:
				button = 4 + low
			case low < 3:
				button = low + 1
			}
			ck := func(n string, want ...*Term) {
				got := eval(mm(n), v)
				ok := len(got) == len(want)
				for i := range want {
					ok = ok && got[i] == want[i]
				}
				r.obl("button", fmt.Sprintf("%s of %d", n, v), ok, posStr(w.prog, mm(n).Pos()), "gives %v, want %v", got, want)
			}
			ck("ButtonID", mkInt(int64(button)))
			ck("Modifier", mkInt(int64(v&0x1c)))
			ck("IsMotion", bl(motion))
			ck("IsRelease", bl(release))
			press := !motion && !release
			pb := 0
			if press {
				pb = button
			}
			ck("IsPress", mkInt(int64(pb)), bl(press))
			ck("IsDrag", bl(motion && !release && button != 0))
		}
	})
}
