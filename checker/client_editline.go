package main

import (
	"fmt"
	"unicode"
)

func init() { clients["C26"] = c26 }

// edState is what an edit line is to be.
type edState struct {
	buf   []rune
	cur   int
	state int64 // 0 ready, 1 done, 2 canceled
}

// An edKey is some input, and what it does.
type edKey struct {
	name, text string
	does       func(s *edState) bool // whether it was taken
}

func edKeys() []edKey {
	ins := func(c rune) edKey {
		return edKey{fmt.Sprintf("%q", c), string(c), func(s *edState) bool {
			if !unicode.IsGraphic(c) {
				return false
			}
			nb := append([]rune(nil), s.buf[:s.cur]...)
			s.buf = append(append(nb, c), s.buf[s.cur:]...)
			s.cur++
			return true
		}}
	}
	move := func(name, text string, d int) edKey {
		return edKey{name, text, func(s *edState) bool {
			s.cur += d
			if s.cur < 0 {
				s.cur = 0
			}
			if s.cur > len(s.buf) {
				s.cur = len(s.buf)
			}
			return true
		}}
	}
	other := func(name, text string) edKey {
		return edKey{name, text, func(s *edState) bool { return false }}
	}
	return []edKey{
		ins('n'), ins('ñ'), ins('\u2503'), ins('😃'), ins(' '), ins('~'),
		{"delete", "\x7f", func(s *edState) bool {
			if s.cur > 0 {
				s.buf = append(append([]rune(nil), s.buf[:s.cur-1]...), s.buf[s.cur:]...)
				s.cur--
			}
			return true
		}},
		move("left", "\x1b[D", -1), move("right", "\x1b[C", 1), move("left 2", "\x1b[2D", -2), move("right 9", "\x1b[9C", 9), move("up", "\x1b[A", 0),
		{"enter", "\r", func(s *edState) bool { s.state = 1; return true }},
		other("tab", "\t"), other("ctrl-a", "\x01"), other("home", "\x1b[H"), other("mouse", "\x1b[<0;5;6M"), other("mark", "\ufeff"),
		{"escape", "\x1b", func(s *edState) bool { s.state = 2; return true }},
	}
}

// c26: line editing.
func c26(r *Run) {
	w := r.w
	r.rule("edit", "a key inserts, deletes or moves at the cursor, whatever else the line holds, by runes of any size", 300)
	r.rule("cursor", "the cursor stays within the text", 300)
	r.rule("taken", "keys that edit are struck out, and no other input is", 100)
	r.rule("finish", "once the line is submitted or canceled it takes no more input and draws nothing", 20)
	r.rule("window", "what is shown is a part of the text that holds the cursor, and all of it when it fits", 100)
	r.rule("draw", "that part is drawn in the box, at its left, and the terminal's cursor is put at the cursor", 100)
	r.rule("elsewhere", "nothing else is drawn over", 100)
	r.rule("reset", "a line that is reset is ready and empty", 2)
	edT, ctxT, esT, tsT := w.typ("x/platform", "EditLine"), w.typ("x/platform", "Context"), w.typ("x/platform", "Events"), w.typ("", "TermScreen")
	update, reset := w.methodOf(edT, "Update"), w.methodOf(edT, "Reset")
	decB := w.methodOf(esT, "DecodeBytes")
	var isState [3]string
	for i, n := range []string{"Ready", "Done", "Canceled"} {
		if w.constInt("x/platform", "EditLine"+n) != int64(i) {
			isState[i] = n
		}
	}
	stateVal := func(i int64) *Term {
		return mkInt(w.constInt("x/platform", "EditLine"+[]string{"Ready", "Done", "Canceled"}[i]))
	}
	eState, eBox, eBuf, eCur, eView := fieldIdx(edT, "State"), fieldIdx(edT, "Box"), fieldIdx(edT, "Buf"), fieldIdx(edT, "Cur"), fieldIdx(edT, "View")
	cIn, cOut := fieldPath(ctxT, "Input"), fieldPath(ctxT, "Output")
	gk := newGridKit(w)
	sdT := w.typ("", "ScreenDiffer")
	tUser := fieldPath(tsT, "ScreenDiffer", "UserCursor")
	vsT := w.typ("", "VirtualScreen")
	tScreen := fieldPath(tsT, "ScreenDiffer", "VirtualScreen", "Screen")
	_, _ = sdT, vsT
	kNone := w.constInt("x/platform", "EventNone")
	iType := fieldPath(esT, "Type")
	thorough := r.tier == "thorough"

	const W, H = 9, 3
	var back []cell
	for i := 0; i < W*H; i++ {
		back = append(back, constCell(int64('A'+i), 0))
	}
	type world struct{ ed, ctx, es, out *Term }
	// setup makes a line of the text at the cursor, in a box of so many columns at 2,2
	setup := func(x *X, s edState, view, width int, spare int64, px, py int) (*State, world) {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		st := newState()
		text := x.elemSlice(st, byteT, byteStr(string(s.buf))...)
		if spare == 0 && len(s.buf) == 0 {
			text = tNil
		} else if spare > 0 {
			o := newObj("text", arrT(byteT))
			n := int64(0)
			for i, b := range byteStr(string(s.buf)) {
				st.store(addrPath(mkAddr(o), mkInt(int64(i))), b)
				n++
			}
			for i := n; i < n+spare; i++ {
				st.store(addrPath(mkAddr(o), mkInt(i)), mkInt('#'))
			}
			text = mkSlice(mkAddr(o), tZero, mkInt(n), mkInt(n+spare))
		}
		var wd world
		wd.ed = x.objWith(st, "editline", edT, withF(edT, zeroVal(edT), eState, stateVal(s.state), eBox, gk.g.Rect(ibox{2, 2, 2 + width, 3}.box()), eBuf, text, eCur, mkInt(int64(s.cur)), eView, mkInt(int64(view))))
		wd.es = x.objWith(st, "events", esT, zeroVal(esT))
		wd.out = x.objWith(st, "output", tsT, zeroVal(tsT))
		st.store(addrPath(wd.out, tScreen...), gk.screen(gk.grid(x, st, back, W, full(W, H)), px, py, tZero, tFalse))
		wd.ctx = x.objWith(st, "context", ctxT, zeroVal(ctxT))
		st.store(addrPath(wd.ctx, cIn...), wd.es)
		st.store(addrPath(wd.ctx, cOut...), wd.out)
		return st, wd
	}
	get := func(st *State, p *Term, f int) *Term { return st.f.rw(st.load(addrPath(p, mkFld(f)))) }
	num := func(st *State, t *Term) int {
		k, ok := st.constOf(st.f.rw(t))
		if !ok {
			return -99
		}
		return int(k)
	}
	bufText := func(x *X, st *State, ed *Term) (string, bool) {
		es, ok := x.elems(st, get(st, ed, eBuf))
		if !ok {
			return "", false
		}
		var bs []byte
		for _, e := range es {
			k, ok := st.constOf(st.f.rw(e))
			if !ok {
				return "", false
			}
			bs = append(bs, byte(k))
		}
		return string(bs), true
	}
	// play gives a line keys in one update
	play := func(nm string, s edState, view, width int, spare int64, px, py int, keys []edKey, rules map[string]bool) {
		r.analyse(nm, func(x *X) {
			st, wd := setup(x, s, view, width, spare, px, py)
			want, taken, text := s, []bool(nil), ""
			for _, k := range keys {
				text += k.text
				taken = append(taken, want.state == 0 && k.does(&want))
			}
			chk := func(st *State, rule string, ok bool, f string, args ...any) {
				if rules == nil || rules[rule] {
					x.check(st, rule, nm, ok, update.Pos(), f, args...)
				}
			}
			for _, o := range x.exec(st, decB, []*Term{wd.es, x.elemSlice(st, byteT, byteStr(text)...)}, nil) {
				if o.panicked {
					continue
				}
				for _, o := range x.exec(o.st, update, []*Term{wd.ed, wd.ctx}, nil) {
					st := o.st
					if o.panicked {
						chk(st, "edit", false, "panics with %v", o.pv)
						continue
					}
					got, ok := bufText(x, st, wd.ed)
					cur, sv := num(st, get(st, wd.ed, eCur)), get(st, wd.ed, eState)
					chk(st, "edit", ok && got == string(want.buf) && cur == want.cur && st.eq(sv, stateVal(want.state)), "holds %q with the cursor at %d in state %v, want %q at %d in state %d", got, cur, sv, string(want.buf), want.cur, want.state)
					chk(st, "cursor", 0 <= cur && cur <= len([]rune(got)), "the cursor is at %d of %q", cur, got)
					ts, ok := x.elems(st, st.load(addrPath(wd.es, iType...)))
					ok = ok && len(ts) == len(keys)
					for i := 0; ok && i < len(keys); i++ {
						ok = st.eq(ts[i], mkInt(kNone)) == taken[i]
					}
					rule := "taken"
					if want.state != 0 {
						rule = "finish"
					}
					chk(st, rule, ok, "leaves events %v, of which it was to take %v", ts, taken)
					// the drawing
					sc := st.f.rw(st.load(addrPath(wd.out, tScreen...)))
					cells, ok := gk.cells(x, st, fieldOf(sc, gk.sGrid, nil))
					if !ok {
						x.fail("unknown cells")
					}
					uc := st.f.rw(st.load(addrPath(wd.out, tUser...)))
					ux, uy := gk.g.xy(fieldOf(uc, gk.cPoint, gk.g.pt))
					uvis := fieldOf(uc, gk.cVis, nil)
					if want.state != 0 {
						i, same := gk.sameCells(st, cells, back, false)
						chk(st, "finish", same && st.isTrue(mkNot(uvis)), "draws cell %d as %v, cursor shown %v", i, cells[max(i, 0)].r, uvis)
						continue
					}
					v := num(st, get(st, wd.ed, eView))
					n := len(want.buf)
					hi := n
					if n-v > width {
						hi = v + width
					}
					okv := 0 <= v && v <= want.cur && want.cur <= hi && (n > width || v == 0)
					chk(st, "window", okv, "shows from %d of %q in %d columns with the cursor at %d", v, string(want.buf), width, want.cur)
					if !okv {
						continue
					}
					exp := append([]cell(nil), back...)
					for i := v; i < hi; i++ {
						exp[W+1+i-v] = constCell(int64(want.buf[i]), 0)
					}
					at := W + 1 + want.cur - v
					okD, okE, bad := true, true, 0
					for i := range cells {
						same := st.eq(cells[i].r, exp[i].r)
						switch {
						case W+1 <= i && i < W+1+hi-v:
							if !same {
								okD, bad = false, i
							}
						case i == at && st.eq(cells[i].r, mkInt(' ')):
						case !same:
							okE, bad = false, i
						}
					}
					chk(st, "draw", okD, "column %d of row %d holds %v, want %v", bad%W+1, bad/W+1, cells[bad].r, exp[bad].r)
					chk(st, "elsewhere", okE, "column %d of row %d, which held %v, becomes %v", bad%W+1, bad/W+1, back[bad].r, cells[bad].r)
					chk(st, "draw", st.isTrue(uvis) && num(st, ux) == 2+want.cur-v && num(st, uy) == 2, "the cursor is shown (%v) at %v,%v, want %d,2", uvis, ux, uy, 2+want.cur-v)
				}
			}
		})
	}
	keys := edKeys()
	byName := map[string]edKey{}
	for _, k := range keys {
		byName[k.name] = k
	}
	kinds := [][]rune{[]rune("abcd"), []rune("éèüö"), []rune("│─┌┐"), []rune("😀😁😂😄")}
	var bufs [][]rune
	var grow func(b []rune, n int)
	grow = func(b []rune, n int) {
		bufs = append(bufs, append([]rune(nil), b...))
		if n == 0 {
			return
		}
		for _, k := range kinds {
			grow(append(b, k[len(b)]), n-1)
		}
	}
	grow(nil, 3)
	bufs = append(bufs, []rune("aé│"), []rune("😀bc"), []rune("│éa"), []rune("xyz"))
	if thorough {
		bufs = nil
		grow(nil, 4)
	}
	for _, b := range bufs {
		for cur := 0; cur <= len(b); cur++ {
			for ki, k := range keys {
				for _, spare := range []int64{0, 9} {
					if spare > 0 && !thorough && (len(b) != 2 || ki > 6) {
						continue
					}
					play(fmt.Sprintf("%s at %d of %q, room for %d", k.name, cur, string(b), spare), edState{b, cur, 0}, 0, 6, spare, 1, 1, []edKey{k}, nil)
				}
			}
		}
	}
	// several keys at once
	for i, a := range keys {
		for j, b := range keys {
			if a.name == "escape" { // ESC with more after it is something else
				continue
			}
			for cur := 0; cur <= 2; cur++ {
				if !thorough && (i+j+cur)%3 != 0 && a.name != "enter" && b.name != "delete" {
					continue
				}
				play(fmt.Sprintf("%s then %s at %d of %q", a.name, b.name, cur, "é│"), edState{[]rune("é│"), cur, 0}, 0, 6, 0, 1, 1, []edKey{a, b}, nil)
			}
		}
	}
	play("enter then escape at 1", edState{[]rune("xy"), 1, 0}, 0, 6, 0, 1, 1, []edKey{byName["enter"], byName["escape"]}, nil)
	play("keys after it was submitted", edState{[]rune("xy"), 1, 1}, 0, 6, 0, 1, 1, []edKey{keys[0]}, nil)
	play("keys after it was canceled", edState{[]rune("xy"), 1, 2}, 0, 6, 0, 1, 1, []edKey{keys[6]}, nil)
	// windows on longer text, with the screen's cursor anywhere
	long := []rune("aé│😀efghij")
	maxN := 6
	if thorough {
		maxN = len(long)
	}
	for width := 1; width <= 4; width++ {
		for n := 0; n <= maxN; n++ {
			for cur := 0; cur <= n; cur++ {
				for view := 0; view <= n; view++ {
					px, py := 1+(cur+view)%W, 1+(n+view)%H
					play(fmt.Sprintf("%d runes, cursor at %d, shown from %d, in %d columns", n, cur, view, width), edState{long[:n], cur, 0}, view, width, 0, px, py, nil, map[string]bool{"window": true, "draw": true, "elsewhere": true, "cursor": true})
				}
			}
		}
	}
	for px := 1; px <= W; px++ {
		for py := 1; py <= H; py++ {
			play(fmt.Sprintf("nothing, with the screen's cursor at %d,%d", px, py), edState{}, 0, 4, 0, px, py, nil, nil)
		}
	}
	for s := int64(0); s < 3; s++ {
		r.analyse(fmt.Sprintf("reset from state %d", s), func(x *X) {
			st, wd := setup(x, edState{[]rune("xyz"), 2, s}, 1, 4, 0, 1, 1)
			for _, o := range x.exec(st, reset, []*Term{wd.ed}, nil) {
				t, ok := bufText(x, o.st, wd.ed)
				good := !o.panicked && ok && t == "" && o.st.eq(get(o.st, wd.ed, eState), stateVal(0)) && num(o.st, get(o.st, wd.ed, eCur)) == 0 && num(o.st, get(o.st, wd.ed, eView)) == 0
				x.check(o.st, "reset", fmt.Sprintf("from state %d", s), good, reset.Pos(), "holds %q", t)
				for i, m := range []string{"Active", "Done", "Canceled"} {
					fn := w.methodOf(edT, m)
					st2 := o.st.fork()
					for k := int64(0); k < 3; k++ {
						st2.store(addrPath(wd.ed, mkFld(eState)), stateVal(k))
						for _, q := range x.exec(st2.fork(), fn, []*Term{wd.ed}, nil) {
							x.check(q.st, "finish", fmt.Sprintf("%s in state %d", m, k), q.st.eq(q.ret[0], mkBool(k == int64(i))), fn.Pos(), "gives %v", q.ret[0])
						}
					}
				}
			}
		})
	}

}
