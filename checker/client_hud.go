package main

// C33: the log view, and the overlay it is part of.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C33"] = c33 }

// lvScene is a log, a screen, a view and some input.
type lvScene struct {
	n, w, h, view int // lines logged, screen size, lines asked for
	expanded      bool
	line          int // first line to show, 0 for the last ones
	events        []lvEvent
	more          int // lines logged afterwards
}

// lvEvent is a mouse event, or a key when x is 0.
type lvEvent struct {
	b, x, y int
	release bool
}

func (e lvEvent) text() string {
	if e.x == 0 {
		return string(rune(e.b))
	}
	c := 'M'
	if e.release {
		c = 'm'
	}
	return fmt.Sprintf("\x1b[<%d;%d;%d%c", e.b, e.x, e.y, c)
}

func (s lvScene) String() string {
	t := fmt.Sprintf("%d lines on %dx%d", s.n, s.w, s.h)
	if s.view > 0 {
		t += fmt.Sprintf(" viewing %d", s.view)
	}
	if s.expanded {
		t += " expanded"
	}
	if s.line > 0 {
		t += fmt.Sprintf(" from %d", s.line)
	}
	for _, e := range s.events {
		t += fmt.Sprintf(" %q", e.text())
	}
	if s.more > 0 {
		t += fmt.Sprintf(" then %d more", s.more)
	}
	return t
}

// lvLine is the text of a line of the log.
func lvLine(i, w int) string {
	s := fmt.Sprintf("%dé", i)
	switch i % 6 {
	case 1:
		return ""
	case 2:
		return s + strings.Repeat("x", w-len([]rune(s)))
	case 3:
		return s + strings.Repeat("y", w+3)
	case 4:
		return s + strings.Repeat("ü", w+1-len([]rune(s)))
	}
	return s + strings.Repeat("z", i%4)
}

func lvText(from, to, w int) string {
	var sb strings.Builder
	for i := from; i <= to; i++ {
		sb.WriteString(lvLine(i, w) + "\n")
	}
	return sb.String()
}

// lvModel is what the view is to be.
type lvModel struct {
	expanded bool
	line     int // 0 while it follows the log
}

// update is what a view takes of events, and the rows it shows then.
func (m *lvModel) update(s lvScene, n int, events []lvEvent) (taken []bool, rows map[int]string) {
	taken, rows = make([]bool, len(events)), map[int]string{}
	if n == 0 {
		return
	}
	v := s.view
	if v == 0 {
		v = 10
	}
	v = min(v, n, s.h-1)
	top := func() int {
		if m.expanded {
			return s.h - v
		}
		return s.h
	}
	presses := 0
	for i, e := range events {
		if e.x > 0 && e.b == 0 && !e.release && e.y == top() && e.x <= s.w {
			taken[i] = true
			presses++
		}
	}
	if presses%2 == 1 {
		m.expanded = !m.expanded
	}
	vv := 1
	if m.expanded {
		vv = v
	}
	delta := 0
	for i, e := range events {
		if e.x > 0 && (e.b == 64 || e.b == 65) && e.y >= top() && e.y <= s.h && e.x <= s.w {
			taken[i] = true
			delta += 2*(e.b-64) - 1
		}
	}
	window := func() int {
		last := n - vv + 1
		if m.line == 0 || m.line > n {
			m.line = 0
			return last
		}
		m.line = min(m.line, last)
		return m.line
	}
	if delta != 0 {
		at := window() + delta
		if at > n-vv {
			m.line = 0
		} else {
			m.line = max(at, 1)
		}
	}
	start := window()
	y := s.h
	if m.expanded {
		rows[top()] = fmt.Sprintf("Logs (%d-%d/%d):", start, start+vv-1, n)
		y = top() + 1
	}
	for i := start; i < start+vv; i++ {
		l := []rune(lvLine(i, s.w))
		if len(l) > s.w {
			l = append(l[:s.w-1:s.w-1], '…')
		}
		rows[y] = string(l)
		y++
	}
	return
}

// hudHooks are models of what the overlay and the log view call.
func hudHooks(x *X, w *World) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	write := w.promotedOf(w.typ("", "TermScreen"), "Write")
	// format is what a format makes of known values
	format := func(st *State, f, args *Term) (string, bool) {
		fs, ok := x.constBytes(st, f)
		if f = st.f.rw(f); !ok && f.op == OStr {
			fs, ok = []byte(f.name), true
		}
		vs, okv := x.elems(st, args)
		if !ok || !okv {
			return "", false
		}
		var a []any
		for _, v := range vs {
			v = st.f.rw(v)
			if v.op == OIface {
				v = st.f.rw(v.args[0])
			}
			if n, ok := st.constOf(v); ok {
				a = append(a, n)
			} else if v.op == OStr {
				a = append(a, v.name)
			} else {
				return "", false
			}
		}
		return fmt.Sprintf(string(fs), a...), true
	}
	return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		nm := ci.name()
		switch {
		case nm == "fmt.Fprintf":
			dest := st.f.rw(ci.args[0])
			if dest.op == OIface {
				dest = dest.args[0]
			}
			if s, ok := format(st, ci.args[1], ci.args[2]); ok {
				return x.exec(st, write, []*Term{dest, x.elemSlice(st, byteT, byteStr(s)...)}, nil), true
			}
		case nm == "fmt.Sprintf":
			if s, ok := format(st, ci.args[0], ci.args[1]); ok {
				return ret(st, mkStr(s)), true
			}
		case nm == "(*bytes.Buffer).Write":
			if outs := bufAppend(x, st, ci.args[0], toSlice(ci.args[1])); outs != nil {
				return outs, true
			}
			return ret(st, toSlice(ci.args[1]).args[2], tNil), true
		case nm == "bytes.IndexByte", nm == "bytes.LastIndexByte", nm == "bytes.Count":
			bs, ok := x.constBytes(st, ci.args[0])
			if c, okc := st.constOf(st.f.rw(ci.args[1])); ok && okc && nm != "bytes.Count" {
				i := strings.IndexByte(string(bs), byte(c))
				if nm == "bytes.LastIndexByte" {
					i = strings.LastIndexByte(string(bs), byte(c))
				}
				return ret(st, mkInt(int64(i))), true
			}
		}
		return nil, false
	}
}

func c33(r *Run) {
	r.rule("lines", "the view shows the lines it is at, each in a row of its own, cut to the screen's width", 100)
	r.rule("elsewhere", "nothing else is drawn over", 100)
	r.rule("taken", "the view takes presses of its top row and turns of the wheel over it, and nothing else", 50)
	r.rule("follow", "a view at the end of the log stays there, and any other stays where it is, when more is logged", 30)
	for i, s := range lvScenes(r.tier == "thorough") {
		n := len(volTerms)
		lvPlay(r, s)
		if i > 3 { // what is the same for all of them is made by the first
			dropVol(n)
		}
		if r.bad() > 20 {
			break // it is broken all over
		}
	}
}

func lvPlay(r *Run, s lvScene) {
	w := r.w
	lvT, lsT, ctxT, esT, tsT := w.typ("x/platform", "LogView"), w.typ("x/platform", "LogSink"), w.typ("x/platform", "Context"), w.typ("x/platform", "Events"), w.typ("", "TermScreen")
	update, newLV := w.methodOf(lvT, "Update"), w.fn("x/platform", "NewLogView")
	logW, decB := w.methodOf(lsT, "Write"), w.methodOf(esT, "DecodeBytes")
	tScreen := fieldPath(tsT, "ScreenDiffer", "VirtualScreen", "Screen")
	iType := fieldPath(esT, "Type")
	kNone := w.constInt("x/platform", "EventNone")
	lvState := func(n string) []*Term { return fieldPath(lvT, "LogViewState", n) }
	gk := newGridKit(w)
	nm := fmt.Sprint(s)
	r.analyse(nm, func(x *X) {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		x.budget = 100000
		x.h.call = hudHooks(x, w)
		x.h.bounds = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, what string, cond *Term) bool {
			if st.decide(cond) != 1 {
				x.check(st, "lines", nm, false, in.Pos(), "%v: %s does not hold", fn, what)
				return false
			}
			return true
		}
		x.endless = func(st *State, fn *ssa.Function, header *ssa.BasicBlock) {
			x.check(st, "lines", nm, false, fn.Pos(), "a loop in %v does not end", fn)
		}
		st := newState()
		do := func(rule string, f *ssa.Function, args ...*Term) []*Term {
			outs := x.exec(st, f, args, nil)
			for _, o := range outs {
				if o.panicked {
					x.check(o.st, rule, nm, false, f.Pos(), "%s panics with %v", f.Name(), o.pv)
					return nil
				}
			}
			if len(outs) == 0 && len(x.log) > 0 {
				return nil // it was found not to end
			}
			if len(outs) != 1 {
				x.fail("%v ends in %d ways", f, len(outs))
			}
			st = outs[0].st
			return append([]*Term{tNil}, outs[0].ret...)
		}
		sink := x.objWith(st, "sink", lsT, zeroVal(lsT))
		logText := func(from, to int) bool {
			for i := from; i <= to; i++ {
				if do("lines", logW, sink, x.elemSlice(st, byteT, byteStr(lvText(i, i, s.w))...)) == nil {
					return false
				}
			}
			return true
		}
		if !logText(1, s.n) {
			return
		}
		rets := do("lines", newLV, sink)
		if rets == nil {
			return
		}
		lv := st.f.rw(rets[1])
		st.store(addrPath(lv, lvState("ViewLines")...), mkInt(int64(s.view)))
		st.store(addrPath(lv, lvState("Expanded")...), mkBool(s.expanded))
		st.store(addrPath(lv, lvState("Line")...), mkInt(int64(s.line)))
		out := x.objWith(st, "output", tsT, zeroVal(tsT))
		es := x.objWith(st, "events", esT, zeroVal(esT))
		ctx := x.objWith(st, "context", ctxT, zeroVal(ctxT))
		st.store(addrPath(ctx, fieldPath(ctxT, "Input")...), es)
		st.store(addrPath(ctx, fieldPath(ctxT, "Output")...), out)

		m := lvModel{s.expanded, s.line}
		one := func(what, rule string, n int, events []lvEvent) bool {
			at := nm + what
			var back []cell
			for i := 0; i < s.w*s.h; i++ {
				back = append(back, constCell(int64(0x4e00+i), 0))
			}
			st.store(addrPath(out, tScreen...), gk.screen(gk.grid(x, st, back, s.w, full(s.w, s.h)), 1+s.n%s.w, 1, tZero, tFalse))
			st.store(es, zeroVal(esT))
			text := ""
			for _, e := range events {
				text += e.text()
			}
			if text != "" && do("taken", decB, es, x.elemSlice(st, byteT, byteStr(text)...)) == nil {
				return false
			}
			taken, rows := m.update(s, n, events)
			rets := do(rule, update, lv, ctx)
			if rets == nil {
				return false
			}
			x.check(st, rule, at+": result", len(rets) == 2 && st.f.rw(rets[1]) == tNil, update.Pos(), "Update returns %v", rets[1:])
			ts, ok := x.elems(st, st.load(addrPath(es, iType...)))
			ok = ok && len(ts) == len(events)
			for i := 0; ok && i < len(events); i++ {
				ok = st.eq(ts[i], mkInt(kNone)) == taken[i]
			}
			x.check(st, "taken", at, ok, update.Pos(), "leaves events %v, of which it was to take %v", ts, taken)
			sc := st.f.rw(st.load(addrPath(out, tScreen...)))
			cells, ok := gk.cells(x, st, fieldOf(sc, gk.sGrid, nil))
			if !ok || len(cells) != len(back) {
				x.fail("unknown cells")
			}
			okL, okE, bad, badE := true, true, 0, 0
			var got []rune
			for i := range cells {
				y := i/s.w + 1
				want := []rune(rows[y])
				c, _ := st.constOf(st.f.rw(cells[i].r))
				got = append(got, rune(c))
				if j := i % s.w; j < len(want) {
					if okL && rune(c) != want[j] {
						okL, bad = false, i
					}
				} else if okE && !st.eq(cells[i].r, back[i].r) && c != ' ' && c != 0 {
					okE, badE = false, i
				}
			}
			row := func(i int) string {
				y := i / s.w
				return strings.Map(func(c rune) rune {
					if c >= 0x4e00 {
						return '~'
					}
					return c
				}, string(got[y*s.w:(y+1)*s.w]))
			}
			x.check(st, rule, at, okL, update.Pos(), "row %d is %q, want %q", bad/s.w+1, row(bad), rows[bad/s.w+1])
			x.check(st, "elsewhere", at, okE, update.Pos(), "row %d is %q, want %q", badE/s.w+1, row(badE), rows[badE/s.w+1])
			return okL
		}
		if one("", "lines", s.n, s.events) && s.more > 0 && logText(s.n+1, s.n+s.more) {
			one(": later", "follow", s.n+s.more, nil)
		}
	})
}

func lvScenes(thorough bool) (out []lvScene) {
	ns := []int{0, 1, 2, 10, 11, 25}
	hs := []int{2, 6, 15}
	if thorough {
		ns = []int{0, 1, 2, 3, 9, 10, 11, 12, 14, 25}
		hs = []int{2, 3, 6, 11, 15}
	}
	add := func(s lvScene) { out = append(out, s) }
	for _, n := range ns {
		for _, h := range hs {
			add(lvScene{n: n, w: 18, h: h, more: 2})
			add(lvScene{n: n, w: 18, h: h, expanded: true, more: 3})
			for _, exp := range []bool{false, true} {
				v := 1
				if exp {
					v = max(1, min(10, n, h-1))
				}
				top := h
				if exp {
					top = h - v
				}
				// toggled
				add(lvScene{n: n, w: 18, h: h, expanded: exp, events: []lvEvent{{0, 1 + n%18, top, false}}, more: 1})
				if thorough || n == 11 || n == 2 {
					add(lvScene{n: n, w: 18, h: h, expanded: exp, events: []lvEvent{{0, 18, top, false}, {0, 3, top, false}}})
					add(lvScene{n: n, w: 18, h: h, expanded: exp, events: []lvEvent{{2, 3, top, false}, {0, 3, top, true}, {'a', 0, 0, false}, {0, 3, 1, false}}})
					add(lvScene{n: n, w: 18, h: h, expanded: exp, events: []lvEvent{{0, 3, h, false}, {64, 3, top, false}, {65, 3, 1, false}, {'q', 0, 0, false}}})
				}
				// scrolled
				for _, l := range []int{0, 1, n / 2, n - v, n - v + 1, n, n + 1, n + 9} {
					if l < 0 || l > 0 && n == 0 {
						continue
					}
					for i, d := range []int{0, -1, 1, -3, 2} {
						if !thorough && i > 0 && (n < 9 && (h+l+i)%3 != 0 || h != 6 && h != 15) {
							continue
						}
						var es []lvEvent
						for j := 0; j < d; j++ {
							es = append(es, lvEvent{65, 2 + j, top, false})
						}
						for j := 0; j < -d; j++ {
							es = append(es, lvEvent{64, 18 - j, h, false})
						}
						add(lvScene{n: n, w: 18, h: h, expanded: exp, line: l, events: es, more: 1 + n%3})
					}
				}
			}
		}
	}
	for _, view := range []int{1, 3, 12} {
		for _, n := range []int{1, 2, 3, 4, 14} {
			for _, h := range []int{3, 8, 16} {
				for _, l := range []int{0, 1, 2} {
					add(lvScene{n: n, w: 20, h: h, view: view, expanded: true, line: l, more: 1})
					add(lvScene{n: n, w: 20, h: h, view: view, line: l, events: []lvEvent{{0, 20, h, false}, {64, 1, h, false}}, more: 1})
				}
			}
		}
	}
	for wd := 6; wd < 18; wd += 3 {
		add(lvScene{n: 3, w: wd, h: 1})
		add(lvScene{n: 8, w: wd, h: 2, events: []lvEvent{{64, wd, 2, false}}, more: 1})
	}
	return out
}

// bad counts what does not hold, or could not be decided.
func (r *Run) bad() (n int) {
	for _, o := range r.obls {
		if !o.OK {
			n++
		}
	}
	return n + len(r.undec)
}
