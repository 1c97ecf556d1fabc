package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C14"] = c14 }

// vterm is the terminal the cursor's output is played on: its cursor
// position, current attribute, and cursor visibility.
type vterm struct {
	x, y, attr, vis *Term
	err             string
	printed         []printed

	W, H int    // size, zero for an unlimited screen
	pend bool   // the next rune wraps, the cursor being on the last column
	disp []cell // what is displayed, with a size
}

// printed is a rune put on the terminal.
type printed struct{ x, y, attr, r *Term }

// vtKit plays written output on a vterm.
type vtKit struct {
	w         *World
	seqT      types.Type
	seqAppend *ssa.Function
	attrMerge *ssa.Function
}

func newVtKit(w *World) *vtKit {
	k := &vtKit{w: w, seqT: w.typ("ansi", "Seq")}
	k.seqAppend = w.methodOf(k.seqT, "AppendTo")
	k.attrMerge = w.methodOf(w.typ("ansi", "SGRAttr"), "Merge")
	return k
}

// record makes a writer's methods append to the ghost "out" what was written.
func (k *vtKit) record(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	nm := ci.mname()
	args := ci.args
	switch {
	case ci.method != nil:
	case ci.fn != nil && ci.fn.Signature.Recv() != nil && len(args) > 0 && strings.HasSuffix(ci.fn.Signature.Recv().Type().String(), modPath+".Buffer"):
		args = args[1:]
	default:
		return nil, false
	}
	item := ""
	switch nm {
	case "WriteSeq":
		item = "seq"
	case "WriteSGR":
		item = "sgr"
	case "WriteESC":
		item = "esc"
	case "WriteRune":
		item = "rune"
	case "Write", "WriteString", "WriteByte":
		item = "bytes"
	default:
		return nil, false
	}
	var its []*Term
	switch item {
	case "seq", "sgr", "esc":
		c := x.contents(st, args[0])
		if c.op != OCat {
			x.fail("unknown list of sequences %v", c)
		}
		for _, p := range c.args {
			if p.op != OElem {
				x.fail("unknown list of sequences %v", c)
			}
			its = append(its, mkApp(item, nil, p.args[0]))
		}
	default:
		its = append(its, mkApp(item, nil, args[0]))
	}
	old := st.g("out")
	if old != nil {
		its = append(append([]*Term{}, old.args...), its...)
	}
	st.setG("out", mkApp("items", nil, its...))
	n := freshVal("nout", intT)
	st.assumeGe(n)
	tot := st.g("nout")
	if tot == nil {
		tot = tZero
	}
	st.setG("nout", linAdd(tot, n))
	switch nm {
	case "WriteByte":
		return ret(st, tNil), true
	case "Write", "WriteString", "WriteRune":
		return ret(st, n, tNil), true
	}
	return ret(st, n), true
}

func itemsOf(st *State) []*Term {
	if o := st.g("out"); o != nil {
		return o.args
	}
	return nil
}

// play runs items on the terminal, and hands every outcome to f.
func (k *vtKit) play(x *X, st *State, v vterm, items []*Term, f func(st *State, v vterm)) {
	if len(items) == 0 || v.err != "" {
		f(st, v)
		return
	}
	it, rest := items[0], items[1:]
	arg := it.args[0]
	switch it.name {
	case "seq":
		for _, o := range x.exec(st, k.seqAppend, []*Term{arg, tNil}, nil) {
			if o.panicked {
				v.err = "the sequence does not encode"
				f(o.st, v)
				continue
			}
			k.play(x, o.st, k.bytes(o.st, v, x.contents(o.st, o.ret[0])), rest, f)
		}
	case "sgr":
		for _, o := range x.exec(st, k.attrMerge, []*Term{v.attr, arg}, nil) {
			v.attr = o.ret[0]
			k.play(x, o.st, v, rest, f)
		}
	case "rune":
		v = v.print(x, st, arg)
		k.play(x, st, v, rest, f)
	default:
		x.fail("output of unknown kind %v", it)
	}
}

// print puts a rune on the terminal.
func (v vterm) print(x *X, st *State, r *Term) vterm {
	if v.W == 0 {
		v.printed = append(append([]printed(nil), v.printed...), printed{v.x, v.y, v.attr, r})
		v.x = linK(v.x, 1)
		return v
	}
	if v.pend {
		v.x, v.y, v.pend = tOne, linK(v.y, 1), false
	}
	px, ok1 := st.constOf(v.x)
	py, ok2 := st.constOf(v.y)
	if !ok1 || !ok2 || px < 1 || py < 1 || px > int64(v.W) || py > int64(v.H) {
		v.err = fmt.Sprintf("prints a rune at (%v,%v)", v.x, v.y)
		return v
	}
	v.disp = append([]cell(nil), v.disp...)
	v.disp[int(py-1)*v.W+int(px-1)] = cell{st.f.rw(r), st.f.rw(v.attr)}
	if px == int64(v.W) {
		v.pend = true
	} else {
		v.x = linK(v.x, 1)
	}
	return v
}

// bytes parses control sequences of known bytes and printed integers.
func (k *vtKit) bytes(st *State, v vterm, c *Term) vterm {
	bad := func(f string, a ...any) vterm {
		v.err = fmt.Sprintf(f, a...)
		return v
	}
	if c.op != OCat {
		return bad("unknown bytes %v", c)
	}
	const (
		ground = iota
		esc
		csi
	)
	mode := ground
	var params []*Term
	priv, fresh := false, true
	num := func(i int) *Term { // parameter with default 1
		if i >= len(params) || params[i] == nil || st.f.rw(params[i]) == tZero {
			return mkInt(1)
		}
		return params[i]
	}
	for _, p := range c.args {
		if p.op != OElem { // a printed integer
			s := p.args[0]
			if mode != csi || s.op != OApp || s.name != "itoa" || !fresh || !st.eq(s.args[1], mkInt(10)) {
				return bad("unknown bytes %v", p)
			}
			n := s.args[0]
			if !st.f.prove(n) {
				return bad("a possibly negative argument %v", n)
			}
			if len(params) == 0 {
				params = append(params, nil)
			}
			params[len(params)-1], fresh = n, false
			continue
		}
		bt := st.f.rw(p.args[0])
		if bt.op != OConst {
			return bad("unknown byte %v", bt)
		}
		b := byte(bt.k)
		switch mode {
		case ground:
			switch b {
			case 0x1b:
				mode = esc
			case '\r':
				v.x, v.pend = mkInt(1), false
			case '\n':
				v.y = linK(v.y, 1)
				if v.H > 0 && !st.f.prove(linSub(mkInt(int64(v.H)), v.y)) {
					return bad("a line feed in row %v scrolls", v.y)
				}
			default:
				return bad("writes %q", rune(b))
			}
		case esc:
			if b != '[' {
				return bad("writes ESC %q", rune(b))
			}
			mode, params, priv, fresh = csi, nil, false, true
		case csi:
			switch {
			case b == '?' && len(params) == 0:
				priv = true
			case b >= '0' && b <= '9':
				if len(params) == 0 {
					params = append(params, nil)
				}
				l := len(params) - 1
				if params[l] == nil {
					params[l] = tZero
				}
				if params[l].op != OConst {
					return bad("digits after a printed integer")
				}
				params[l], fresh = mkInt(params[l].k*10+int64(b-'0')), false
			case b == ';':
				if len(params) == 0 {
					params = append(params, nil)
				}
				params, fresh = append(params, nil), true
			default:
				mode = ground
				n := num(0)
				if b >= 'A' && b <= 'H' {
					v.pend = false
				}
				if b >= 'A' && b <= 'D' && !st.f.prove(linK(n, -1)) {
					return bad("a possibly zero motion %v", n)
				}
				switch {
				case b == 'A' && !priv:
					v.y = linSub(v.y, n)
				case b == 'B' && !priv:
					v.y = linAdd(v.y, n)
				case b == 'C' && !priv:
					v.x = linAdd(v.x, n)
				case b == 'D' && !priv:
					v.x = linSub(v.x, n)
				case b == 'H' && !priv:
					v.y, v.x = num(0), num(1)
				case b == 'J' && !priv && v.W > 0 && len(params) == 1 && st.eq(num(0), mkInt(2)):
					v.disp = blanks(len(v.disp))
				case (b == 'h' || b == 'l') && priv && len(params) == 1 && st.eq(num(0), mkInt(25)):
					v.vis = tFalse
					if b == 'h' {
						v.vis = tTrue
					}
				default:
					return bad("writes CSI %v %q", params, rune(b))
				}
				if v.W > 0 && b <= 'H' {
					if cx, ok := st.constOf(v.x); ok {
						v.x = mkInt(min(max(cx, 1), int64(v.W)))
					}
					if cy, ok := st.constOf(v.y); ok {
						v.y = mkInt(min(max(cy, 1), int64(v.H)))
					}
				}
			}
		}
	}
	if mode != ground {
		return bad("an incomplete sequence")
	}
	return v
}

func blanks(n int) []cell {
	var cs []cell
	for i := 0; i < n; i++ {
		cs = append(cs, cell{mkInt(' '), tZero})
	}
	return cs
}

func c14(r *Run) {
	w := r.w
	r.rule("move", "moving a cursor makes the terminal's cursor arrive at the target, whatever is known of where it was, and tracks it there", 8)
	r.rule("no-move", "a cursor already at the target emits nothing", 1)
	r.rule("visible", "showing and hiding take effect on the terminal whatever is known of its state, emit nothing when already so, and are tracked", 12)
	r.rule("attr", "merging an attribute makes the terminal's attribute that one, whatever is known of it, and tracks it", 30)
	r.rule("apply", "applying a cursor state leaves the terminal, and the tracked state, in it: in place, with its attribute and shown, or else hidden", 10)
	r.rule("apply-report", "applying reports what was written, and the error of writing it", 3)
	r.rule("process", "processing output moves the tracked cursor exactly as the terminal does", 40)

	g := newGeom(w)
	k := newVtKit(w)
	curT := w.typ("", "Cursor")
	attrT, colT := w.typ("ansi", "SGRAttr"), w.typ("ansi", "SGRColor")
	ak := attrKit{attrT, colT}
	cm := func(n string) *ssa.Function { return w.methodOf(curT, n) }
	iPoint, iAttr, iVis := fieldIdx(curT, "Point"), fieldIdx(curT, "Attr"), fieldIdx(curT, "Visible")
	withF := func(z *Term, kv ...any) *Term {
		na := append([]*Term(nil), z.args...)
		for i := 0; i < len(kv); i += 2 {
			na[kv[i].(int)] = kv[i+1].(*Term)
		}
		return mkStruct(curT, na...)
	}
	cx, cy, tx, ty := mkAtom("c.x", intT), mkAtom("c.y", intT), mkAtom("t.x", intT), mkAtom("t.y", intT)
	ux, uy, ua, uv := mkAtom("term.x", intT), mkAtom("term.y", intT), mkAtom("term.attr", attrT), mkAtom("term.visible", types.Typ[types.Bool])
	unknown := vterm{x: ux, y: uy, attr: ua, vis: uv}
	ge1 := func(ts ...*Term) cond {
		var c cond
		for _, t := range ts {
			c = append(c, linK(t, -1))
		}
		return c
	}
	get := func(st *State, cur *Term, i int) *Term { return st.load(addrPath(cur, mkFld(i))) }
	pos := func(st *State, cur *Term) (*Term, *Term) { return g.xy(get(st, cur, iPoint)) }

	// cursors: what is known, and the terminal they are about
	posCases := []struct {
		nm string
		at *Term
		c  cond
		vt vterm
	}{
		{"a known position", g.Pt(cx, cy), ge1(cx, cy), vterm{x: cx, y: cy, attr: ua, vis: uv}},
		{"the zero position", g.Pt(tZero, tZero), nil, unknown},
		{"an unknown column", g.Pt(cx, cy), append(ge1(cy), le(cx, tZero)), unknown},
		{"an unknown row", g.Pt(cx, cy), append(ge1(cx), le(cy, tZero)), unknown},
	}
	keep := func(st *State, ts ...*Term) {
		for i, t := range ts {
			st.setG(fmt.Sprintf("arg%d", i), t)
		}
	}
	// each symbolic relation between position and target
	rels := []struct {
		nm string
		c  cond
	}{{"", nil}}
	for _, pc := range posCases {
		for _, rel := range rels {
			nm := "from " + pc.nm + rel.nm
			r.analyse("Cursor.To "+nm, func(x *X) {
				x.precise, x.noMerge = true, true
				st := newState()
				if !assumeAll(st, pc.c, rel.c, ge1(tx, ty)) {
					return
				}
				keep(st, cx, cy, tx, ty)
				to := cm("To")
				at := mkAtom("c.attr", attrT)
				cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, pc.at, iAttr, at))
				for _, o := range x.exec(st, to, []*Term{cur, g.Pt(tx, ty)}, nil) {
					if o.panicked {
						x.check(o.st, "move", nm, false, to.Pos(), "panics with %v", o.pv)
						continue
					}
					ax, ay := pos(o.st, cur)
					x.check(o.st, "move", nm+": tracked", o.st.eq(ax, tx) && o.st.eq(ay, ty) && o.st.eq(get(o.st, cur, iAttr), at), to.Pos(), "tracks (%v,%v)", ax, ay)
					if pc.vt.x == cx && o.st.eq(cx, tx) && o.st.eq(cy, ty) {
						for _, q := range x.exec(o.st.fork(), k.seqAppend, []*Term{o.ret[0], tNil}, nil) {
							x.check(q.st, "no-move", nm, !q.panicked && q.st.eq(lenOf(q.ret[0]), tZero), to.Pos(), "emits %v", q.ret)
						}
					}
					k.play(x, o.st, pc.vt, []*Term{mkApp("seq", nil, o.ret[0])}, func(st *State, v vterm) {
						ok := v.err == "" && st.eq(v.x, tx) && st.eq(v.y, ty)
						x.check(st, "move", nm+": terminal", ok, to.Pos(), "the terminal's cursor is at (%v,%v) after moving from (%v,%v) to (%v,%v) %s", v.x, v.y, cx, cy, tx, ty, v.err)
					})
				}
			})
		}
	}
	r.analyse("Cursor.NewLine", func(x *X) {
		x.precise, x.noMerge = true, true
		st := newState()
		assumeAll(st, ge1(cx, cy))
		keep(st, cx, cy)
		nl := cm("NewLine")
		cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, g.Pt(cx, cy)))
		for _, o := range x.exec(st, nl, []*Term{cur}, nil) {
			if o.panicked {
				x.check(o.st, "move", "new line", false, nl.Pos(), "panics with %v", o.pv)
				continue
			}
			ax, ay := pos(o.st, cur)
			k.play(x, o.st, posCases[0].vt, []*Term{mkApp("seq", nil, o.ret[0])}, func(st *State, v vterm) {
				ok := v.err == "" && st.eq(ax, v.x) && st.eq(ay, v.y) && st.eq(v.x, mkInt(1)) && st.eq(v.y, linK(cy, 1))
				x.check(st, "move", "new line", ok, nl.Pos(), "tracks (%v,%v), the terminal's cursor is at (%v,%v) %s", ax, ay, v.x, v.y, v.err)
			})
		}
	})

	// visibility histories from a cursor about which nothing is known
	for _, start := range []*Term{tFalse, tTrue} {
		for h := 0; h < 8; h++ {
			for n := 1; n <= 3; n++ {
				if h >= 1<<n {
					continue
				}
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, []string{"Hide", "Show"}[h>>i&1])
				}
				nm := fmt.Sprintf("%s from unknown (%v)", strings.Join(names, ", "), start)
				r.analyse("Cursor "+nm, func(x *X) {
					x.precise, x.noMerge = true, true
					st := newState()
					at := mkAtom("c.attr", attrT)
					cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, g.Pt(cx, cy), iAttr, at, iVis, start))
					var step func(st *State, i int, v vterm)
					step = func(st *State, i int, v vterm) {
						if i == n {
							return
						}
						fn := cm(names[i])
						want := mkBool(names[i] == "Show")
						for _, o := range x.exec(st, fn, []*Term{cur}, nil) {
							if o.panicked {
								x.check(o.st, "visible", nm, false, fn.Pos(), "panics with %v", o.pv)
								continue
							}
							tracked := get(o.st, cur, iVis)
							same := o.st.eq(get(o.st, cur, iAttr), at)
							k.play(x, o.st, v, []*Term{mkApp("seq", nil, o.ret[0])}, func(st *State, u vterm) {
								ok := u.err == "" && st.eq(u.vis, want) && st.eq(tracked, want) && same
								x.check(st, "visible", nm, ok, fn.Pos(), "after %s the terminal's cursor visibility is %v, tracked %v %s", names[i], u.vis, tracked, u.err)
								if v.vis != uv && st.eq(v.vis, want) {
									for _, q := range x.exec(st.fork(), k.seqAppend, []*Term{o.ret[0], tNil}, nil) {
										x.check(q.st, "visible", nm+": no change", !q.panicked && q.st.eq(lenOf(q.ret[0]), tZero), fn.Pos(), "emits %v", q.ret)
									}
								}
								step(st, i+1, u)
							})
						}
					}
					step(st, 0, vterm{x: cx, y: cy, attr: ua, vis: uv})
				})
			}
		}
	}

	// attributes: merge a, then b
	for m := 0; m < 32; m++ {
		cl := m >> 4
		has := func(i int, tag string) []*Term {
			if m>>i&1 == 1 {
				return ak.col(tag)
			}
			return nil
		}
		afg, abg, bfg, bbg := has(0, "afg"), has(1, "abg"), has(2, "bfg"), has(3, "bbg")
		a, b := ak.mk(ak.flags("a", 0), afg, abg), ak.mk(ak.flags("b", cl), bfg, bbg)
		nm := fmt.Sprintf("fg %v bg %v, then fg %v bg %v clear %v", afg != nil, abg != nil, bfg != nil, bbg != nil, cl == 1)
		r.analyse("Cursor.MergeSGR "+nm, func(x *X) {
			x.precise = true
			fn := cm("MergeSGR")
			st := newState()
			cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, g.Pt(cx, cy), iAttr, mkAtom("stale", attrT)))
			for _, o := range x.exec(st, fn, []*Term{cur, a}, nil) {
				x.check(o.st, "attr", nm+": unknown", !o.panicked && sameBits(o.st, get(o.st, cur, iAttr), a, 64, 0), fn.Pos(), "merging %v into an unknown attribute tracks %v", a, get(o.st, cur, iAttr))
				for _, t := range x.exec(o.st, k.attrMerge, []*Term{ua, o.ret[0]}, nil) {
					x.check(t.st, "attr", nm+": unknown", sameBits(t.st, t.ret[0], a, 64, 0), fn.Pos(), "merging %v into an unknown attribute makes the terminal's %v", a, t.ret[0])
					ta := t.ret[0]
					for _, p := range x.exec(t.st, fn, []*Term{cur, b}, nil) {
						x.check(p.st, "attr", nm, !p.panicked && sameBits(p.st, get(p.st, cur, iAttr), b, 64, 0), fn.Pos(), "merging %v into %v tracks %v", b, a, get(p.st, cur, iAttr))
						for _, u := range x.exec(p.st, k.attrMerge, []*Term{ta, p.ret[0]}, nil) {
							x.check(u.st, "attr", nm, sameBits(u.st, u.ret[0], b, 64, 0), fn.Pos(), "merging %v into %v makes the terminal's attribute %v", b, a, u.ret[0])
						}
					}
				}
			}
		})
	}

	c14apply(r, g, k, ak, curT, withF, posCases[0].c)
	c14process(r, g, ak, curT, withF)
}

// c14apply: applying one cursor state over another.
func c14apply(r *Run, g *geom, k *vtKit, ak attrKit, curT types.Type, withF func(z *Term, kv ...any) *Term, known cond) {
	w := r.w
	iPoint, iAttr, iVis := fieldIdx(curT, "Point"), fieldIdx(curT, "Attr"), fieldIdx(curT, "Visible")
	cx, cy, tx, ty := mkAtom("c.x", intT), mkAtom("c.y", intT), mkAtom("t.x", intT), mkAtom("t.y", intT)
	ua, uv := mkAtom("term.attr", ak.attrT), mkAtom("term.visible", types.Typ[types.Bool])
	apply := w.methodOf(curT, "ApplyTo")
	cm := func(n string) *ssa.Function { return w.methodOf(curT, n) }
	wr := tok("the-writer")
	werr := tok("write-error")
	masks := []int{0, 6, 9, 15}
	if r.tier == "thorough" {
		masks = nil
		for m := 0; m < 16; m++ {
			masks = append(masks, m)
		}
	}
	// direct: the writer takes sequences itself
	for _, direct := range []bool{true, false} {
		for _, m := range masks {
			for _, prep := range []string{"", "Show", "Hide"} {
				for _, tgt := range []string{"visible", "hidden", "nowhere"} {
					if !direct && (m != 6 || prep == "Hide") {
						continue
					}
					nm := fmt.Sprintf("a %s cursor over one %s (colours %04b)", tgt, map[string]string{"": "not known", "Show": "shown", "Hide": "hidden"}[prep], m)
					if !direct {
						nm += " through a buffer"
					}
					r.analyse("Cursor.ApplyTo "+nm, func(x *X) {
						x.precise, x.noMerge = true, true
						x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
							if v == wr {
								if direct {
									return 1
								}
								return 0
							}
							return -1
						}
						x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
							if ci.fn != nil && ci.mname() == "WriteTo" && ci.fn.Signature.Recv() != nil {
								var outs []Out
								n := st.g("nout")
								if n == nil {
									n = tZero
								}
								a := st.fork()
								a.setG("flushed", n)
								outs = append(outs, ret(a, n, tNil)...)
								b := st.fork()
								m := freshVal("nfail", intT)
								b.assumeGe(m)
								b.setG("flushed", m)
								b.setG("failed", tTrue)
								return append(outs, ret(b, m, werr)...), true
							}
							return k.record(x, st, ci)
						}
						has := func(i int, tag string) []*Term {
							if m>>i&1 == 1 {
								return ak.col(tag)
							}
							return nil
						}
						a, b := ak.mk(ak.flags("a", 0), has(0, "afg"), has(1, "abg")), ak.mk(ak.flags("b", 0), has(2, "bfg"), has(3, "bbg"))
						st := newState()
						if !assumeAll(st, known, cond{linK(tx, -1), linK(ty, -1)}) {
							return
						}
						for i, t := range []*Term{cx, cy, tx, ty} {
							st.setG(fmt.Sprint("arg", i), t)
						}
						cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, g.Pt(cx, cy), iAttr, mkAtom("stale", ak.attrT)))
						cs := withF(zeroVal(curT), iPoint, g.Pt(tx, ty), iAttr, b, iVis, mkBool(tgt != "hidden"))
						if tgt == "nowhere" {
							cs = withF(cs, iPoint, g.Pt(tZero, tZero))
						}
						csp := x.objWith(st, "state", curT, cs)
						type s0 struct {
							st *State
							v  vterm
						}
						starts := []s0{{st, vterm{x: cx, y: cy, attr: ua, vis: uv}}}
						if prep != "" {
							starts = nil
							for _, o := range x.exec(st, cm("MergeSGR"), []*Term{cur, a}, nil) {
								for _, q := range x.exec(o.st, cm(prep), []*Term{cur}, nil) {
									starts = append(starts, s0{q.st, vterm{x: cx, y: cy, attr: a, vis: mkBool(prep == "Show")}})
								}
							}
						}
						for _, s := range starts {
							before := s.st.load(cur)
							for _, o := range x.exec(s.st, apply, []*Term{csp, wr, before}, nil) {
								if o.panicked {
									x.check(o.st, "apply", nm, false, apply.Pos(), "panics with %v", o.pv)
									continue
								}
								n := o.st.g("flushed")
								if direct {
									n = o.st.g("nout")
									if n == nil {
										n = tZero
									}
								}
								x.check(o.st, "apply-report", nm, n != nil && o.st.eq(o.ret[0], n), apply.Pos(), "reports %v bytes of %v written", o.ret[0], n)
								if !direct {
									want := tNil
									if o.st.g("failed") != nil {
										want = werr
									}
									x.check(o.st, "apply-report", nm+": error", o.st.isTrue(mkEqv(o.ret[2], want)), apply.Pos(), "returns %v, the write %v", o.ret[2], want)
								}
								after := o.ret[1]
								px, py := g.xy(fieldOf(after, iPoint, g.pt))
								at, vis := fieldOf(after, iAttr, ak.attrT), fieldOf(after, iVis, types.Typ[types.Bool])
								k.play(x, o.st, s.v, itemsOf(o.st), func(st *State, v vterm) {
									if v.err != "" {
										x.check(st, "apply", nm, false, apply.Pos(), "the terminal gets wrong output: %s", v.err)
										return
									}
									if tgt == "visible" {
										x.check(st, "apply", nm+": position", st.eq(v.x, tx) && st.eq(v.y, ty), apply.Pos(), "the terminal's cursor is at (%v,%v), not (%v,%v)", v.x, v.y, tx, ty)
										x.check(st, "apply", nm+": attribute", sameBits(st, v.attr, b, 64, 0), apply.Pos(), "the terminal's attribute is %v, not %v", v.attr, b)
									}
									x.check(st, "apply", nm+": visibility", st.eq(v.vis, mkBool(tgt == "visible")), apply.Pos(), "the terminal's cursor visibility is %v", v.vis)
									x.check(st, "apply", nm+": tracked", st.eq(px, v.x) && st.eq(py, v.y) && st.eq(vis, v.vis), apply.Pos(), "returns a cursor at (%v,%v) visible %v, the terminal has (%v,%v) %v", px, py, vis, v.x, v.y, v.vis)
									if v.attr != ua {
										x.check(st, "apply", nm+": tracked attribute", sameBits(st, at, v.attr, 64, 0), apply.Pos(), "returns a cursor with attribute %v, the terminal has %v", at, v.attr)
									}
								})
							}
						}
					})
				}
			}
		}
	}
}

// c14process: what a cursor tracks of processed output.
func c14process(r *Run, g *geom, ak attrKit, curT types.Type, withF func(z *Term, kv ...any) *Term) {
	w := r.w
	iPoint, iAttr, iVis := fieldIdx(curT, "Point"), fieldIdx(curT, "Attr"), fieldIdx(curT, "Visible")
	cx, cy := mkAtom("c.x", intT), mkAtom("c.y", intT)
	vis := mkAtom("c.visible", types.Typ[types.Bool])
	proc := w.methodOf(curT, "ProcessANSI")
	dig := mkAtom("digit", byteT)
	dv := linK(dig, -'0')
	csi := func(b byte) int64 { return 0xEF80 + int64(b) }
	type tc struct {
		e    int64
		a    string // '#' stands for any digit 1 to 9
		x, y *Term
		vis  *Term
		sgr  string
		nm   string
	}
	var tcs []tc
	add := func(e int64, a string, x, y *Term) { tcs = append(tcs, tc{e: e, a: a, x: x, y: y, vis: vis}) }
	for i, b := range []byte{'A', 'B', 'C', 'D'} {
		mv := func(n *Term) (*Term, *Term) {
			switch i {
			case 0:
				return cx, linSub(cy, n)
			case 1:
				return cx, linAdd(cy, n)
			case 2:
				return linAdd(cx, n), cy
			}
			return linSub(cx, n), cy
		}
		for _, a := range []struct {
			a string
			n *Term
		}{{"", mkInt(1)}, {"#", dv}, {"1#", linK(dv, 10)}, {"250", mkInt(250)}, {"x", tZero}, {"99999999999999999999999", tZero}} {
			x, y := mv(a.n)
			add(csi(b), a.a, x, y)
		}
	}
	add(csi('H'), "", mkInt(1), mkInt(1))
	add(csi('H'), "#;3", mkInt(3), dv)
	add(csi('H'), "12;#", dv, mkInt(12))
	add(csi('H'), "x;2", cx, cy)
	for _, b := range []byte("JKLMPX@Z`abcgnqrsu") { // no motion of their own, or not supported
		add(csi(b), "", cx, cy)
	}
	for _, c := range []int64{'a', ' ', '~', 0xE9, 0x2800} {
		add(c, "", linK(cx, 1), cy)
	}
	add(0x0A, "", cx, linK(cy, 1))
	add(0x0D, "", mkInt(1), cy)
	for _, c := range []int64{0x01, 0x07, 0x0E, 0x7F, 0x9B} {
		add(c, "", cx, cy)
	}
	for _, m := range []struct {
		a  string
		on bool
	}{{"?25", true}, {"?7;25", true}, {"?25;1000", true}, {"?1000;25;7", true}, {"25", false}, {"?26", false}, {"?2", false}, {"?", false}, {"?1000", false}} {
		for _, b := range []byte{'h', 'l'} {
			v := vis
			if m.on {
				v = mkBool(b == 'h')
			}
			tcs = append(tcs, tc{e: csi(b), a: m.a, x: cx, y: cy, vis: v})
		}
	}
	for _, s := range []string{"31", "1;44", "0", "7;38;5;99", "0;3"} {
		tcs = append(tcs, tc{e: csi('m'), a: s, x: cx, y: cy, vis: vis, sgr: s})
	}
	decSGR, merge := w.fn("ansi", "DecodeSGR"), w.methodOf(ak.attrT, "Merge")
	a0 := ak.mk(ak.flags("a", 0), ak.col("afg"), ak.col("abg"))
	for _, c := range tcs {
		nm := fmt.Sprintf("U+%04X %q", c.e, c.a)
		r.analyse("Cursor.ProcessANSI "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			st := newState()
			assumeAll(st, cond{linK(cx, -1), linK(cy, -1), linK(dv, -1), linSub(mkInt(9), dv)})
			for i, t := range []*Term{cx, cy, dig} {
				st.setG(fmt.Sprint("arg", i), t)
			}
			cur := x.objWith(st, "cursor", curT, withF(zeroVal(curT), iPoint, g.Pt(cx, cy), iAttr, a0, iVis, vis))
			arg := tNil
			if c.a != "" {
				var els []*Term
				for _, b := range []byte(c.a) {
					if b == '#' {
						els = append(els, dig)
					} else {
						els = append(els, mkInt(int64(b)))
					}
				}
				arg = x.elemSlice(st, byteT, els...)
			}
			check := func(st *State, attr *Term) {
				for _, o := range x.exec(st, proc, []*Term{cur, mkInt(c.e), arg}, nil) {
					if o.panicked {
						x.check(o.st, "process", nm, false, proc.Pos(), "panics with %v", o.pv)
						continue
					}
					px, py := g.xy(o.st.load(addrPath(cur, mkFld(iPoint))))
					x.check(o.st, "process", nm+": position", o.st.eq(px, c.x) && o.st.eq(py, c.y), proc.Pos(), "moves the cursor to (%v,%v), a terminal to (%v,%v)", px, py, c.x, c.y)
					v := o.st.load(addrPath(cur, mkFld(iVis)))
					x.check(o.st, "process", nm+": visibility", o.st.eq(v, c.vis), proc.Pos(), "visible %v, for a terminal %v", v, c.vis)
					at := o.st.load(addrPath(cur, mkFld(iAttr)))
					x.check(o.st, "process", nm+": attribute", sameBits(o.st, at, attr, 64, 0), proc.Pos(), "attribute %v, for a terminal %v", at, attr)
				}
			}
			if c.sgr == "" {
				check(st, a0)
				return
			}
			for _, o := range x.exec(st, decSGR, []*Term{arg}, nil) {
				for _, q := range x.exec(o.st, merge, []*Term{a0, o.ret[0]}, nil) {
					check(q.st, q.ret[0])
				}
			}
		})
	}
}
