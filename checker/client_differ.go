package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C20"] = c20 }

// diffKit runs screen updates and plays their output on a terminal.
type diffKit struct {
	w       *World
	k       *gridKit
	vk      *vtKit
	clear   int64
	kinds   []cell // cells of every kind
	wr      *Term
	updateF *ssa.Function
}

func constCell(r, a int64) cell { return cell{mkInt(r), mkInt(a)} }

// shown is how a cell is displayed.
func (d *diffKit) shown(c cell, fill int64) cell {
	r, a := c.r.k, c.a.k
	if r == 0 {
		r = ' '
		if a == 0 || fill != ' ' {
			r = fill
		}
	}
	return constCell(r, a&^d.clear)
}

func (d *diffKit) displayed(v vterm, want []cell, fill int64) (string, bool) {
	for i, c := range want {
		g, c := v.disp[i], d.shown(c, fill)
		if g.r.op != OConst || g.a.op != OConst || g.r.k != c.r.k || g.a.k&^d.clear != c.a.k {
			return fmt.Sprintf("column %d row %d shows %v %v, not %q %#x", i%v.W+1, i/v.W+1, g.r, g.a, rune(c.r.k), uint64(c.a.k)), false
		}
	}
	return "", true
}

// cursorCase is what is known of a cursor, or wanted of it.
type cursorCase struct {
	x, y    int
	visible bool
	attr    int64
}

func (c cursorCase) String() string {
	if c.x == 0 {
		return "nowhere"
	}
	return fmt.Sprintf("(%d,%d) visible %v attribute %#x", c.x, c.y, c.visible, uint64(c.attr))
}

func (d *diffKit) cursor(c cursorCase) *Term {
	k := d.k
	return withF(k.curT, zeroVal(k.curT), k.cPoint, k.g.Pt(mkInt(int64(c.x)), mkInt(int64(c.y))), k.cAttr, mkInt(c.attr), k.cVis, mkBool(c.visible))
}

// known gives a cursor value known to be as described, as if established by output.
func (d *diffKit) known(x *X, st *State, c cursorCase) *Term {
	k := d.k
	p := x.objWith(st, "known-cursor", k.curT, d.cursor(cursorCase{x: c.x, y: c.y}))
	out := x.exec(st, d.w.methodOf(k.curT, "MergeSGR"), []*Term{p, mkInt(c.attr)}, nil)
	nm := "Hide"
	if c.visible {
		nm = "Show"
	}
	if len(out) == 1 {
		out = x.exec(out[0].st, d.w.methodOf(k.curT, nm), []*Term{p}, nil)
	}
	if len(out) != 1 || out[0].panicked {
		x.fail("cannot make a known cursor")
	}
	*st = *out[0].st
	return st.load(p)
}

// vt is a terminal displaying cells, with the cursor as described, or nothing known.
func (d *diffKit) vt(W, H int, cells []cell, fill int64, c *cursorCase) vterm {
	v := vterm{W: W, H: H}
	for i := 0; i < W*H; i++ {
		if cells == nil {
			v.disp = append(v.disp, cell{mkAtom("junk rune", d.k.runeT), mkAtom("junk attribute", d.k.attrT)})
		} else {
			v.disp = append(v.disp, d.shown(cells[i], fill))
		}
	}
	if c == nil {
		v.x, v.y, v.attr, v.vis = mkAtom("term.x", intT), mkAtom("term.y", intT), mkAtom("term.attr", d.k.attrT), mkAtom("term.visible", types.Typ[types.Bool])
	} else {
		v.x, v.y, v.attr, v.vis = mkInt(int64(c.x)), mkInt(int64(c.y)), mkInt(c.attr), mkBool(c.visible)
	}
	return v
}

// content numbers the combinations of a cell before and after.
func (d *diffKit) content(W, H, base, step int) (before, after []cell) {
	n := len(d.kinds)
	for i := 0; i < W*H; i++ {
		p := (base + i*step) % (n * n)
		before, after = append(before, d.kinds[p/n]), append(after, d.kinds[p%n])
	}
	return
}

// checkTracked compares a tracked cursor with the terminal's.
func (d *diffKit) checkTracked(x *X, st *State, rule, nm string, cur *Term, v vterm, pos *ssa.Function) {
	k := d.k
	gx, gy := k.g.xy(fieldOf(cur, k.cPoint, k.g.pt))
	if st.eq(gx, tZero) || st.eq(gy, tZero) {
		x.check(st, rule, nm+": tracked position", true, pos.Pos(), "")
		return
	}
	x.check(st, rule, nm+": tracked position", !v.pend && st.eq(gx, v.x) && st.eq(gy, v.y), pos.Pos(), "tracks the cursor at (%v,%v), where the terminal has it at (%v,%v)%s", gx, gy, v.x, v.y, map[bool]string{true: " about to wrap"}[v.pend])
}

func c20(r *Run) {
	w := r.w
	r.rule("display", "after an update or a grid written, the terminal displays exactly the cells of the new screen, whatever it displayed before", 300)
	r.rule("state", "the state returned by an update is that of the terminal: content, and cursor as far as known; nothing is shared with the new screen", 300)
	r.rule("cursor", "after an update the terminal's cursor is hidden, or as the screen has it", 100)
	r.rule("differ", "writing a screen differ brings the terminal to its virtual screen, after earlier writes that blocked or failed too", 20)
	r.rule("flush", "a differ's output is written once and in order: a write that blocked is resumed, one that failed is redrawn in full", 20)
	r.rule("drop", "clearing, resetting, resizing and invalidating a differ leave it such that its next write displays its virtual screen", 10)

	r.rule("term", "entering a terminal sizes the screen to it and redraws; exiting leaves it with a visible cursor and without attributes, and the screen blank", 20)

	k := newGridKit(w)
	d := &diffKit{w: w, k: k, vk: newVtKit(w), clear: w.constInt("ansi", "SGRAttrClear"), wr: tok("the-writer"), updateF: w.methodOf(k.screenT, "Update")}
	colT := w.typ("ansi", "SGRColor")
	var red, blue int64
	r.analyse("colours", func(x *X) {
		for _, c := range []struct {
			v     *int64
			n, fn string
		}{{&red, "SGRRed", "FG"}, {&blue, "SGRBlue", "BG"}} {
			out := x.exec(newState(), w.methodOf(colT, c.fn), []*Term{mkInt(w.constInt("ansi", c.n))}, nil)
			if len(out) != 1 || out[0].panicked || out[0].ret[0].op != OConst {
				x.fail("no constant for %s.%s", c.n, c.fn)
			}
			*c.v = out[0].ret[0].k
		}
	})
	bold := w.constInt("ansi", "SGRAttrBold")
	d.kinds = []cell{constCell(0, 0), constCell('a', 0), constCell('a', red), constCell('b', blue|bold), constCell(' ', 0), constCell(0, blue)}
	c20update(r, d, red, blue)
	c20differ(r, d, red)
	c20term(r, d, red)
}

// writer makes writes to the given writer recorded.
func (d *diffKit) writer(x *X) {
	x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
		if v == d.wr {
			return 1
		}
		return -1
	}
	x.h.call = d.vk.record
}

func c20update(r *Run, d *diffKit, red, blue int64) {
	w, k := d.w, d.k
	n2 := len(d.kinds) * len(d.kinds)
	wg := w.fn("", "WriteGrid")
	fillT := w.typ("", "FillRuneStyle")
	styleT := w.typ("", "Style")
	dims := [][2]int{{1, 1}, {3, 2}}
	if r.tier == "thorough" {
		dims = append(dims, [2]int{2, 3}, [2]int{5, 1}, [2]int{1, 4}, [2]int{4, 4})
	}
	for _, dim := range dims {
		W, H := dim[0], dim[1]
		priors := []*cursorCase{nil, {1, 1, false, 0}, {W, H, true, red}, {1, H, true, blue}}
		users := []cursorCase{{}, {W, H, true, red}, {1, 1, true, 0}, {1, H, false, 0}}
		for _, step := range []int{0, 1, 7} {
			for base := 0; base < n2; base++ {
				if step == 0 && W*H > 1 && base%5 != 0 {
					continue
				}
				r.analyse(fmt.Sprintf("Screen.Update on %dx%d, content %d.%d", W, H, base, step), func(x *X) {
					x.precise, x.noMerge = true, true
					before, after := d.content(W, H, base, step)
					_, third := d.content(W, H, base+1, step+3)
					for pi, pc := range priors {
						for _, how := range []string{"diff", "full", "size", "grid", "fill"} {
							if how == "size" && (pi != 1 || step != 1) || how != "diff" && base%3 != pi%3 {
								continue
							}
							user := users[(base+pi+step)%len(users)]
							nm := fmt.Sprintf("%dx%d content %d.%d, cursor %v, user %v, %s", W, H, base, step, pc, user, how)
							fill := int64(' ')
							if how == "fill" {
								fill = '.'
							}
							st := newState()
							d.writer(x)
							cur := zeroVal(k.curT)
							if pc != nil {
								cur = d.known(x, st, *pc)
							}
							grid := k.grid(x, st, before, W, full(W, H))
							v := d.vt(W, H, before, fill, pc)
							switch how {
							case "full": // nothing known of what is displayed
								grid = zeroVal(k.gridT)
								v = d.vt(W, H, nil, fill, pc)
							case "size": // of another size before
								grid = k.grid(x, st, before, H, full(H, W))
								if W == H {
									continue
								}
								v = d.vt(W, H, nil, fill, pc)
							}
							prior := withF(k.screenT, zeroVal(k.screenT), k.sCur, cur, k.sGrid, grid)
							newGrid := k.grid(x, st, after, W, full(W, H))
							newScreen := withF(k.screenT, zeroVal(k.screenT), k.sCur, d.cursor(user), k.sGrid, newGrid)
							sp := x.objWith(st, "new screen", k.screenT, newScreen)
							var step func(st *State, prior *Term, v vterm, want []cell, left int)
							step = func(st *State, prior *Term, v vterm, want []cell, left int) {
								var outs []Out
								fn := d.updateF
								st.setG("out", mkApp("items", nil))
								st.setG("nout", tZero)
								if how == "grid" || how == "fill" {
									fn = wg
									ss := tNil
									if how == "fill" {
										ss = x.elemSlice(st, styleT, mkIface(fillT, mkInt('.')))
									}
									outs = x.exec(st, fn, []*Term{d.wr, fieldOf(st.load(sp), k.sGrid, k.gridT), prior, ss}, nil)
								} else {
									outs = x.exec(st, fn, []*Term{sp, d.wr, prior}, nil)
								}
								for _, o := range outs {
									if o.panicked {
										x.check(o.st, "display", nm, false, fn.Pos(), "panics with %v", o.pv)
										continue
									}
									x.check(o.st, "state", nm+": report", o.st.eq(o.ret[0], o.st.g("nout")) && o.st.isTrue(mkEqv(o.ret[2], tNil)), fn.Pos(), "reports %v of %v bytes, %v", o.ret[0], o.st.g("nout"), o.ret[2])
									d.vk.play(x, o.st, v, itemsOf(o.st), func(st *State, v vterm) {
										if v.err != "" {
											x.check(st, "display", nm, false, fn.Pos(), "the terminal gets wrong output: %s", v.err)
											return
										}
										why, ok := d.displayed(v, want, fill)
										x.check(st, "display", nm, ok, fn.Pos(), "%s", why)
										res := o.ret[1]
										d.checkTracked(x, st, "state", nm, fieldOf(res, k.sCur, k.curT), v, fn)
										if fn == wg {
											return
										}
										got, ok := k.cells(x, st, fieldOf(res, k.sGrid, k.gridT))
										rc, ok2 := k.rect(st, fieldOf(res, k.sGrid, k.gridT))
										_, same := k.sameCells(st, got, want, false)
										x.check(st, "state", nm+": content", ok && ok2 && same && rc == full(W, H), fn.Pos(), "returns content %v", got)
										x.check(st, "state", nm+": apart", k.apart(st, fieldOf(res, k.sGrid, k.gridT), fieldOf(st.load(sp), k.sGrid, k.gridT)), fn.Pos(), "the returned screen shares storage with the new one")
										if user.visible {
											x.check(st, "cursor", nm, st.eq(v.x, mkInt(int64(user.x))) && st.eq(v.y, mkInt(int64(user.y))) && !v.pend && st.eq(v.vis, tTrue), fn.Pos(), "the cursor is at (%v,%v) visible %v", v.x, v.y, v.vis)
											x.check(st, "cursor", nm+": attribute", v.attr.op == OConst && v.attr.k&^d.clear == user.attr, fn.Pos(), "the terminal's attribute is %v", v.attr)
										} else {
											x.check(st, "cursor", nm, st.eq(v.vis, tFalse), fn.Pos(), "the cursor is visible")
										}
										if left > 0 {
											// and on to another content
											s := st.fork()
											nv := s.load(sp)
											g := k.grid(x, s, third, W, full(W, H))
											s.store(sp, withF(k.screenT, nv, k.sGrid, g))
											step(s, res, v, third, left-1)
										}
									})
								}
							}
							step(st, prior, v, after, 1)
						}
					}
				})
			}
		}
	}
}

// apart reports that two grids have their own storage.
func (k *gridKit) apart(st *State, a, b *Term) bool {
	for _, f := range []int{k.iA, k.iU} {
		ft := structOf(k.gridT).Field(f).Type()
		p, q := st.f.rw(fieldOf(a, f, ft)), st.f.rw(fieldOf(b, f, ft))
		if p.op == OSlice && q.op == OSlice && p.args[0] == q.args[0] && p.args[0].op != ONil {
			return false
		}
	}
	return true
}

// pendKey names the ghost of what was written to a buffer and not yet sent on.
func pendKey(recv *Term) string { return "pending:" + recv.String() }

// buffered makes buffers collect items, and sends them on as the ghost "plan" says.
func (d *diffKit) buffered(x *X, again, hard *Term) {
	x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
		if v == d.wr {
			return 0
		}
		return -1
	}
	items := func(t *Term) []*Term {
		if t == nil {
			return nil
		}
		return t.args
	}
	x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn == nil || ci.fn.Signature.Recv() == nil || len(ci.args) == 0 || ci.fn.Signature.Recv().Type().String() != "*"+modPath+".Buffer" {
			return nil, false
		}
		key := pendKey(st.f.rw(ci.args[0]))
		pend := items(st.g(key))
		switch ci.mname() {
		case "Len":
			return ret(st, mkInt(int64(len(pend)))), true
		case "Reset":
			st.setG(key, mkApp("items", nil))
			return ret(st), true
		case "WriteTo":
			x.check(st, "flush", "writer", st.eq(ci.args[1], d.wr), ci.fn.Pos(), "writes to %v", ci.args[1])
			sent := items(st.g("sent"))
			send := func(its ...*Term) {
				st.setG("sent", mkApp("items", nil, append(append([]*Term{}, sent...), its...)...))
			}
			n := freshVal("n", types.Typ[types.Int64])
			st.assumeGe(n)
			st.setG("n", n)
			plan := "w"
			if p := st.g("plan"); p != nil {
				plan = p.name
			}
			if len(pend) == 0 {
				plan = "w" // nothing to fail on
				n = tZero
				st.setG("n", n)
			}
			st.setG("did", mkAtom(plan, nil))
			switch plan {
			case "b":
				send(pend[:len(pend)/2]...)
				st.setG(key, mkApp("items", nil, pend[len(pend)/2:]...))
				return ret(st, n, again), true
			case "f":
				send(mkApp("havoc", nil, tZero))
				st.setG(key, mkApp("items", nil, pend[len(pend)/2:]...))
				return ret(st, n, hard), true
			}
			send(pend...)
			st.setG(key, mkApp("items", nil))
			return ret(st, n, tNil), true
		}
		old, oldN := st.g("out"), st.g("nout")
		st.setG("out", mkApp("items", nil, pend...))
		outs, ok := d.vk.record(x, st, ci)
		for _, o := range outs {
			var keep []*Term
			for _, it := range items(o.st.g("out")) {
				v := o.st.f.rw(it.args[0])
				if it.name == "sgr" && v == tZero || it.name == "seq" && sameStruct(o.st, v, zeroVal(d.vk.seqT)) {
					continue // encodes as nothing
				}
				keep = append(keep, it)
			}
			if nr := len(o.ret); nr > 0 && ci.mname() != "WriteByte" {
				if len(keep) > len(pend) {
					o.st.assumeGe(linK(o.ret[0], -1))
				} else {
					o.st.assumeGe(linNeg(o.ret[0]))
				}
			}
			o.st.setG(key, mkApp("items", nil, keep...))
			if old == nil {
				old, oldN = mkApp("items", nil), tZero
			}
			o.st.setG("out", old)
			o.st.setG("nout", oldN)
		}
		return outs, ok
	}
}

// c20differ: histories of writes of a differ.
func c20differ(r *Run, d *diffKit, red int64) {
	w, k := d.w, d.k
	diffT := w.typ("", "ScreenDiffer")
	vsT := w.typ("", "VirtualScreen")
	iUser, iVS, iReal := fieldIdx(diffT, "UserCursor"), fieldIdx(diffT, "VirtualScreen"), fieldIdx(diffT, "Real")
	iScr := fieldIdx(vsT, "Screen")
	m := func(n string) *ssa.Function { return w.methodOf(diffT, n) }
	writeTo := m("WriteTo")
	again, hard := w.writeErrs()
	const W, H = 3, 2
	users := []cursorCase{{2, 1, true, red}, {}, {1, 2, true, 0}}
	virtual := func(st *State, sc *Term) *Term {
		return fieldOf(fieldOf(fieldOf(st.load(sc), iVS, vsT), iScr, k.screenT), k.sGrid, k.gridT)
	}
	// draw puts cells into the virtual screen, in place
	draw := func(x *X, st *State, sc *Term, which int) {
		g := virtual(st, sc)
		cs, ok := k.cells(x, st, g)
		if !ok {
			x.fail("virtual cells not known")
		}
		rs, as := st.f.rw(fieldOf(g, k.iU, types.NewSlice(k.runeT))), st.f.rw(fieldOf(g, k.iA, types.NewSlice(k.attrT)))
		for i := range cs {
			c := d.kinds[(i*which*2+which*3+i/2)%len(d.kinds)]
			st.store(addrPath(rs.args[0], linK(rs.args[1], int64(i))), c.r)
			st.store(addrPath(as.args[0], linK(as.args[1], int64(i))), c.a)
		}
		v := st.load(sc)
		st.store(sc, withF(diffT, v, iUser, d.cursor(users[which%len(users)])))
	}
	ops := []string{"", "w", "b", "f", "R", "C", "I", "Z", "2"}
	var scripts [][]string
	for _, a := range ops {
		for _, b := range ops {
			if a == "" && b != "" {
				continue
			}
			for _, c := range []string{"3", "", "2"} {
				scripts = append(scripts, []string{"1", a, b, c, "w", "w"})
			}
		}
	}
	if r.tier == "thorough" {
		for _, a := range ops[1:] {
			for _, b := range ops[1:] {
				for _, c := range ops[1:] {
					scripts = append(scripts, []string{"1", a, b, c, "3", "w", "w"}, []string{"1", "w", "2", a, b, c, "w"})
				}
			}
		}
	}
	words := map[string]string{"1": "draw", "2": "draw", "3": "draw", "w": "write", "b": "blocked write", "f": "failed write", "R": "reset", "C": "clear", "I": "invalidate", "Z": "resize"}
	for _, synced := range []bool{false, true} {
		for _, sc := range scripts {
			nm := ""
			for _, o := range sc {
				if o != "" {
					nm += ", " + words[o]
				}
			}
			nm = nm[2:]
			if synced {
				nm = "in use: " + nm
			}
			r.analyse("ScreenDiffer "+nm, func(x *X) {
				x.precise, x.noMerge = true, true
				d.buffered(x, again, hard)
				st := newState()
				p := x.objWith(st, "differ", diffT, zeroVal(diffT))
				v := d.vt(W, H, nil, ' ', nil)
				one := func(st *State, fn *ssa.Function, args ...*Term) (*State, []*Term) {
					outs := x.exec(st, fn, args, nil)
					if len(outs) != 1 {
						x.fail("%d outcomes of %s", len(outs), fn)
					}
					if outs[0].panicked {
						x.check(outs[0].st, "differ", nm, false, fn.Pos(), "%s panics with %v", fn, outs[0].pv)
						return nil, nil
					}
					return outs[0].st, outs[0].ret
				}
				pt := func(x, y int) *Term { return k.g.iPt(mkInt(int64(x)), mkInt(int64(y))) }
				if st, _ = one(st, m("Resize"), p, pt(W, H)); st == nil {
					return
				}
				script := sc
				if synced {
					script = append([]string{"2", "w"}, script...)
				}
				var shown []cell // what an unfinished or finished write assembled
				pending, stale := false, false
				cw, ch := W, H
				settle := func() bool { // play what was sent
					its := st.g("sent")
					st.setG("sent", mkApp("items", nil))
					if its == nil {
						return true
					}
					rest := its.args
					for i, it := range its.args {
						if it.name == "havoc" {
							v, rest = d.vt(cw, ch, nil, ' ', nil), its.args[i+1:]
						}
					}
					n := 0
					d.vk.play(x, st, v, rest, func(s *State, nv vterm) {
						st, v = s, nv
						n++
					})
					if n != 1 {
						x.fail("%d outcomes of the terminal", n)
					}
					x.check(st, "flush", nm+": output", v.err == "", writeTo.Pos(), "the terminal gets wrong output: %s", v.err)
					return v.err == ""
				}
				for i, op := range script {
					at := fmt.Sprintf("%s, step %d", nm, i+1)
					switch op {
					case "":
					case "1", "2", "3":
						draw(x, st, p, int(op[0]-'0'))
					case "R", "C", "I":
						fn := m(map[string]string{"R": "Reset", "C": "Clear", "I": "Invalidate"}[op])
						if st, _ = one(st, fn, p); st == nil {
							return
						}
						if op == "R" {
							pending = false
						}
						stale = stale || op == "I" && pending
						if op != "I" {
							cs, ok := k.cells(x, st, virtual(st, p))
							for _, c := range cs {
								ok = ok && st.eq(c.r, tZero) && st.eq(c.a, tZero)
							}
							x.check(st, "drop", at+": cells", ok, fn.Pos(), "leaves cells %v", cs)
							x.check(st, "drop", at+": user cursor", sameStruct(st, fieldOf(st.load(p), iUser, k.curT), zeroVal(k.curT)), fn.Pos(), "leaves a user cursor")
						} else {
							x.check(st, "drop", at, true, fn.Pos(), "")
						}
					case "Z":
						cw, ch = 5-cw, 5-ch
						if st, _ = one(st, m("Resize"), p, pt(cw, ch)); st == nil {
							return
						}
						nv := d.vt(cw, ch, nil, ' ', nil)
						nv.attr, nv.vis = v.attr, v.vis
						if cx, ok := st.constOf(v.x); ok {
							cy, _ := st.constOf(v.y)
							if int(cx) <= cw && int(cy) <= ch && !v.pend {
								nv.x, nv.y = v.x, v.y
							}
						}
						v = nv
						if pending { // what is still to be sent is for the former size
							return
						}
						x.check(st, "drop", at, true, writeTo.Pos(), "")
					case "w", "b", "f":
						st.setG("plan", mkAtom(op, nil))
						st.setG("did", mkAtom("none", nil))
						cs, ok := k.cells(x, st, virtual(st, p))
						if !ok {
							x.fail("virtual cells not known")
						}
						if !pending {
							shown = cs
						}
						wasPending := pending
						var ret []*Term
						if st, ret = one(st, writeTo, p, d.wr); st == nil {
							return
						}
						did := st.g("did").name
						want := map[string]*Term{"w": tNil, "b": again, "f": hard, "none": tNil}[did]
						x.check(st, "flush", at+": report", did != "none" && st.eq(ret[0], st.g("n")) && st.isTrue(mkEqv(ret[1], want)), writeTo.Pos(), "reports %v bytes of %v, error %v where the write gave %v", ret[0], st.g("n"), ret[1], want)
						if !settle() {
							return
						}
						pending = did == "b"
						if did != "w" {
							continue
						}
						stale = stale && wasPending
						why, ok := d.displayed(v, shown, ' ')
						x.check(st, "differ", at, ok, writeTo.Pos(), "after a write, %s", why)
						if !ok {
							return
						}
						real := fieldOf(st.load(p), iReal, k.screenT)
						got, ok := k.cells(x, st, fieldOf(real, k.sGrid, k.gridT))
						_, same := k.sameCells(st, got, shown, false)
						// one invalidated or resized while output was pending is drawn in full by the next write
						x.check(st, "differ", at+": real content", ok && (same || stale && len(got) == 0), writeTo.Pos(), "the real screen holds %v, the terminal %v", got, shown)
						x.check(st, "differ", at+": apart", k.apart(st, fieldOf(real, k.sGrid, k.gridT), virtual(st, p)), writeTo.Pos(), "the real screen shares storage with the virtual one")
						d.checkTracked(x, st, "differ", at, fieldOf(real, k.sCur, k.curT), v, writeTo)
					}
				}
			})
		}
	}
}

// c20term: a screen entering and exiting a terminal.
func c20term(r *Run, d *diffKit, red int64) {
	w, k := d.w, d.k
	again, hard := w.writeErrs()
	tsT := w.typ("", "TermScreen")
	diffT := w.typ("", "ScreenDiffer")
	vsT := w.typ("", "VirtualScreen")
	iDiff, iUser, iVS, iReal, iScr := fieldIdx(tsT, "ScreenDiffer"), fieldIdx(diffT, "UserCursor"), fieldIdx(diffT, "VirtualScreen"), fieldIdx(diffT, "Real"), fieldIdx(vsT, "Screen")
	flush := w.methodOf(w.typ("", "Output"), "Flush")
	size := w.methodOf(w.typ("", "Attr"), "Size")
	resize := w.methodOf(diffT, "Resize")
	writeTo := w.methodOf(diffT, "WriteTo")
	term := tok("the-terminal")
	tw := 0
	curs := []*cursorCase{nil, {1, 1, false, 0}, {2, 1, true, red}, {1, 2, true, 0}, {0, 0, false, red}}
	hooks := func(x *X) {
		d.buffered(x, again, hard)
		inner := x.h.call
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if ci.fn != nil && ci.fn == flush {
				arg := st.f.rw(ci.args[1])
				if arg.op != OIface {
					return nil, false
				}
				key := pendKey(st.f.rw(arg.args[0]))
				var sent []*Term
				if t := st.g("sent"); t != nil {
					sent = t.args
				}
				if t := st.g(key); t != nil {
					sent = append(append([]*Term(nil), sent...), t.args...)
				}
				st.setG("sent", mkApp("items", nil, sent...))
				st.setG(key, mkApp("items", nil))
				var outs []Out
				for _, o := range errChoice(st, "flush-error") {
					o.st.setG("flushed", o.ret[0])
					outs = append(outs, o)
				}
				return outs, true
			}
			if ci.fn != nil && ci.fn == size {
				var outs []Out
				for _, o := range errChoice(st, "size-error") {
					sz := k.g.iPt(mkInt(int64(tw)), mkInt(2))
					if o.ret[0] != tNil {
						sz = zeroVal(k.g.ipt)
					}
					o.st.setG("size", o.ret[0])
					outs = append(outs, Out{st: o.st, ret: []*Term{sz, o.ret[0]}})
				}
				return outs, true
			}
			return inner(x, st, ci)
		}
	}
	cells := []cell{d.kinds[1], d.kinds[2], d.kinds[3], d.kinds[0], d.kinds[4], d.kinds[5]}
	make := func(x *X, st *State, cur *Term, uc cursorCase) *Term {
		p := x.objWith(st, "term-screen", tsT, zeroVal(tsT))
		outs := x.exec(st, resize, []*Term{addrPath(p, fieldPath(tsT, "ScreenDiffer")...), k.g.iPt(mkInt(3), mkInt(2))}, nil)
		if len(outs) != 1 || outs[0].panicked {
			x.fail("cannot size a differ")
		}
		*st = *outs[0].st
		v := st.load(p)
		df := fieldOf(v, iDiff, diffT)
		vs := fieldOf(df, iVS, vsT)
		vs = withF(vsT, vs, iScr, withF(k.screenT, zeroVal(k.screenT), k.sCur, cur, k.sGrid, k.grid(x, st, cells, 3, full(3, 2))))
		df = withF(diffT, df, iUser, d.cursor(uc), iVS, vs, iReal, withF(k.screenT, zeroVal(k.screenT), k.sCur, cur, k.sGrid, k.grid(x, st, cells, 3, full(3, 2))))
		st.store(p, withF(tsT, v, iDiff, df))
		return p
	}
	for _, c := range curs {
		nm := "cursor " + fmt.Sprint(c)
		exit := w.methodOf(tsT, "Exit")
		r.analyse("TermScreen.Exit with "+nm, func(x *X) {
			x.precise, x.noMerge = true, true
			hooks(x)
			st := newState()
			cur := zeroVal(k.curT)
			if c != nil {
				cur = d.known(x, st, *c)
			}
			p := make(x, st, cur, cursorCase{2, 2, true, red})
			v := d.vt(3, 2, cells, ' ', c)
			for _, o := range x.exec(st, exit, []*Term{p, term}, nil) {
				if o.panicked {
					x.check(o.st, "term", nm, false, exit.Pos(), "panics with %v", o.pv)
					continue
				}
				want := o.st.g("flushed")
				if want == nil {
					want = tNil
				}
				x.check(o.st, "term", nm+": report", o.st.isTrue(mkEqv(o.ret[0], want)), exit.Pos(), "reports %v after a flush gave %v", o.ret[0], want)
				var its []*Term
				if t := o.st.g("sent"); t != nil {
					its = t.args
				}
				d.vk.play(x, o.st, v, its, func(st *State, v vterm) {
					x.check(st, "term", nm+": cursor", v.err == "" && st.eq(v.vis, tTrue), exit.Pos(), "leaves the cursor visible %v (%s)", v.vis, v.err)
					x.check(st, "term", nm+": attribute", v.attr.op == OConst && v.attr.k&^d.clear == 0, exit.Pos(), "leaves attribute %v", v.attr)
				})
				df := fieldOf(o.st.load(p), iDiff, diffT)
				got, ok := k.cells(x, o.st, fieldOf(fieldOf(fieldOf(df, iVS, vsT), iScr, k.screenT), k.sGrid, k.gridT))
				for _, g := range got {
					ok = ok && o.st.eq(g.r, tZero) && o.st.eq(g.a, tZero)
				}
				x.check(o.st, "term", nm+": blank", ok && sameStruct(o.st, fieldOf(df, iUser, k.curT), zeroVal(k.curT)), exit.Pos(), "leaves cells %v or a user cursor", got)
			}
		})
		for i := 0; i < 4; i++ {
			en := []string{"Enter", "SizeToTerm"}[i%2]
			enter := w.methodOf(tsT, en)
			tw = 4 - i/2
			nm := fmt.Sprintf("%s, terminal width %d", nm, tw)
			r.analyse("TermScreen."+en+" with "+nm, func(x *X) {
				x.precise, x.noMerge = true, true
				hooks(x)
				st := newState()
				cur := zeroVal(k.curT)
				if c != nil {
					cur = d.known(x, st, *c)
				}
				p := make(x, st, cur, cursorCase{2, 2, true, red})
				for _, o := range x.exec(st, enter, []*Term{p, term}, nil) {
					if o.panicked {
						x.check(o.st, "term", en+" with "+nm, false, enter.Pos(), "panics with %v", o.pv)
						continue
					}
					df := fieldOf(o.st.load(p), iDiff, diffT)
					vg := fieldOf(fieldOf(fieldOf(df, iVS, vsT), iScr, k.screenT), k.sGrid, k.gridT)
					rc, ok := k.rect(o.st, vg)
					if sz := o.st.g("size"); sz == nil || !o.st.eq(sz, tNil) {
						if sz == nil {
							x.check(o.st, "term", en+" with "+nm+": size", false, enter.Pos(), "does not ask for the terminal's size")
							continue
						}
						x.check(o.st, "term", en+" with "+nm+": no size", ok && rc == full(3, 2), enter.Pos(), "the screen covers %v when the size is not known", rc)
						continue
					}
					x.check(o.st, "term", en+" with "+nm+": size", ok && rc == full(tw, 2) && o.st.eq(o.ret[0], tNil), enter.Pos(), "the screen covers %v on a %dx2 terminal, error %v", rc, tw, o.ret[0])
					want, ok := k.cells(x, o.st, vg)
					if !ok {
						x.fail("virtual cells not known")
					}
					o.st.setG("sent", mkApp("items", nil))
					for _, o := range x.exec(o.st, writeTo, []*Term{addrPath(p, fieldPath(tsT, "ScreenDiffer")...), d.wr}, nil) {
						if o.panicked {
							x.check(o.st, "term", en+" with "+nm, false, enter.Pos(), "panics with %v", o.pv)
							continue
						}
						v := d.vt(tw, 2, nil, ' ', c) // anything is displayed
						d.vk.play(x, o.st, v, itemsOf2(o.st, "sent"), func(st *State, v vterm) {
							why, ok := d.displayed(v, want, ' ')
							x.check(st, "term", en+" with "+nm+": redraw", ok && v.err == "", enter.Pos(), "the next write does not redraw: %s %s", why, v.err)
						})
					}
				}
			})
		}
	}
}

// itemsOf2 are the items recorded under a ghost.
func itemsOf2(st *State, g string) []*Term {
	if t := st.g(g); t != nil {
		return t.args
	}
	return nil
}
