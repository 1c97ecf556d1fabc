package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C25"] = c25 }

// An evItem is what is to be in the queue for some text.
type evItem struct {
	kind  string // none, escape, rune or mouse
	e     int64
	arg   string
	state int64
	x, y  int64
}

type evText struct {
	text  string
	items []evItem
}

func csiID(b byte) int64 { return 0xEF80 | int64(b) }

func evRune(c rune) evText { return evText{string(c), []evItem{{kind: "rune", e: int64(c)}}} }
func evCSI(arg string, b byte) evText {
	return evText{"\x1b[" + arg + string(b), []evItem{{kind: "escape", e: csiID(b), arg: arg}}}
}
func evMouse(state, x, y int64, release bool) evText {
	b, s := byte('M'), state
	if release {
		b, s = 'm', state|128
	}
	arg := fmt.Sprintf("<%d;%d;%d", state, x, y)
	return evText{"\x1b[" + arg + string(b), []evItem{{"mouse", csiID(b), arg, s, x, y}}}
}

// the rectangle of the queries: columns 3 to 5 and rows 3 to 6
var evBox = [4]int64{3, 3, 6, 7}

func (it evItem) in() bool {
	return evBox[0] <= it.x && it.x < evBox[2] && evBox[1] <= it.y && it.y < evBox[3]
}

// press is the button pressed, or -1; button is that of any report.
func (it evItem) press() int64 {
	if it.kind != "mouse" || it.state&(128|32) != 0 {
		return -1
	}
	return it.button()
}
func (it evItem) button() int64 {
	b := (it.state + 1) & 3
	if it.state&64 != 0 {
		b += 3
	}
	return b
}

// An evQuery is a question, with its answer for a queue, which it changes as striking does.
type evQuery struct {
	name, method string
	args         func(k *evKit) []*Term
	answer       func(q []evItem) []int64 // results flattened: booleans are 0 and 1
}

type evKit struct {
	w *World
	g *geom
	x *X
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func evQueries() []evQuery {
	box := func(k *evKit) *Term {
		return k.g.Rect(box{mkInt(evBox[0]), mkInt(evBox[1]), mkInt(evBox[2]), mkInt(evBox[3])})
	}
	runes := func(rs ...rune) func(k *evKit) []*Term {
		return func(k *evKit) []*Term {
			var els []*Term
			for _, r := range rs {
				els = append(els, mkInt(int64(r)))
			}
			return els
		}
	}
	var out []evQuery
	for _, c := range []rune{'a', 0x03} {
		out = append(out, evQuery{fmt.Sprintf("HasTerminal(%q)", c), "HasTerminal", runes(c), func(q []evItem) []int64 {
			for i := range q {
				if q[i].kind == "rune" && q[i].e == int64(c) {
					for ; i < len(q); i++ {
						q[i].kind = "none"
					}
					return []int64{1}
				}
			}
			return []int64{0}
		}})
	}
	for _, rs := range []string{"a", "ab", "\x03a", "aa", ""} {
		out = append(out, evQuery{fmt.Sprintf("CountRune(%q)", rs), "CountRune", runes([]rune(rs)...), func(q []evItem) []int64 {
			n := int64(0)
			for i := range q {
				if q[i].kind == "rune" && strings.ContainsRune(rs, rune(q[i].e)) {
					q[i].kind = "none"
					n++
				}
			}
			return []int64{n}
		}})
	}
	for _, id := range []int64{1, 2} {
		out = append(out, evQuery{fmt.Sprintf("CountPressesIn(button %d)", id), "CountPressesIn", func(k *evKit) []*Term { return []*Term{box(k), mkInt(id)} }, func(q []evItem) []int64 {
			n := int64(0)
			for i := range q {
				if q[i].press() == id && q[i].in() {
					q[i].kind = "none"
					n++
				}
			}
			return []int64{n}
		}})
	}
	out = append(out, evQuery{"AnyPressesOutside", "AnyPressesOutside", func(k *evKit) []*Term { return []*Term{box(k)} }, func(q []evItem) []int64 {
		for _, it := range q {
			if it.press() >= 0 && !it.in() {
				return []int64{1}
			}
		}
		return []int64{0}
	}})
	out = append(out, evQuery{"TotalScrollIn", "TotalScrollIn", func(k *evKit) []*Term { return []*Term{box(k)} }, func(q []evItem) []int64 {
		n := int64(0)
		for i, it := range q {
			if it.kind == "mouse" && it.in() && it.button() >= 4 {
				n += it.button()*2 - 9
				q[i].kind = "none"
			}
		}
		return []int64{n}
	}})
	out = append(out, evQuery{"TotalCursorMovement", "TotalCursorMovement", func(k *evKit) []*Term { return nil }, func(q []evItem) []int64 {
		var x, y int64
		for i, it := range q {
			if it.kind != "escape" {
				continue
			}
			n := int64(1)
			if it.arg != "" {
				fmt.Sscan(it.arg, &n)
			}
			switch it.e {
			case csiID('A'):
				y -= n
			case csiID('B'):
				y += n
			case csiID('C'):
				x += n
			case csiID('D'):
				x -= n
			default:
				continue
			}
			q[i].kind = "none"
		}
		return []int64{x, y}
	}})
	for _, consume := range []bool{false, true} {
		out = append(out, evQuery{fmt.Sprintf("LastMouse(%v)", consume), "LastMouse", func(k *evKit) []*Term { return []*Term{mkBool(consume)} }, func(q []evItem) []int64 {
			res := []int64{0, 0, 0, 0}
			for i, it := range q {
				if it.kind == "mouse" {
					res = []int64{it.state, it.x, it.y, 1}
					if consume {
						q[i].kind = "none"
					}
				}
			}
			return res
		}})
	}
	out = append(out, evQuery{"Empty", "Empty", func(k *evKit) []*Term { return nil }, func(q []evItem) []int64 {
		for _, it := range q {
			if it.kind != "none" {
				return []int64{0}
			}
		}
		return []int64{1}
	}})
	return out
}

// evIs returns a function that reports whether a queue is as wanted.
func evIs(w *World) func(x *X, st *State, es *Term, want []evItem, typesOnly bool) (bool, string) {
	esT := w.typ("x/platform", "Events")
	kinds := map[string]int64{}
	for _, k := range []string{"None", "Escape", "Rune", "Mouse"} {
		kinds[strings.ToLower(k)] = w.constInt("x/platform", "Event"+k)
	}
	iType := fieldPath(esT, "Type")
	mEsc, mMouse, mRune := w.methodOf(esT, "Escape"), w.methodOf(esT, "Mouse"), w.methodOf(esT, "Rune")
	escT, mouseT := w.typ("x/platform", "Escape"), w.typ("x/platform", "Mouse")
	g := newGeom(w)
	return func(x *X, st *State, es *Term, want []evItem, typesOnly bool) (bool, string) {
		ts, ok := x.elems(st, st.load(addrPath(es, iType...)))
		if !ok {
			return false, "types are unknown"
		}
		if len(ts) != len(want) {
			return false, fmt.Sprintf("%d events, want %d", len(ts), len(want))
		}
		for i, it := range want {
			if it.kind == "control" { // a C1 control goes for either
				if !st.eq(ts[i], mkInt(kinds["rune"])) && !st.eq(ts[i], mkInt(kinds["escape"])) {
					return false, fmt.Sprintf("event %d is of kind %v", i+1, st.f.rw(ts[i]))
				}
			} else if !st.eq(ts[i], mkInt(kinds[it.kind])) {
				return false, fmt.Sprintf("event %d is of kind %v, want %s", i+1, st.f.rw(ts[i]), it.kind)
			}
			if typesOnly {
				continue
			}
			id := mkInt(int64(i))
			for _, o := range x.exec(st.fork(), mRune, []*Term{es, id}, nil) {
				if o.panicked || !o.st.eq(o.ret[0], mkInt(it.e)) {
					return false, fmt.Sprintf("event %d is rune %v, want %#x", i+1, o.ret, it.e)
				}
			}
			for _, o := range x.exec(st.fork(), mEsc, []*Term{es, id}, nil) {
				if o.panicked {
					return false, "Escape panics"
				}
				v := o.st.f.rw(o.ret[0])
				a, ok := x.elems(o.st, fieldOf(v, fieldIdx(escT, "Arg"), nil))
				same := ok && len(a) == len(it.arg) && o.st.eq(fieldOf(v, fieldIdx(escT, "ID"), nil), mkInt(it.e))
				for j := 0; same && j < len(a); j++ {
					same = o.st.eq(a[j], mkInt(int64(it.arg[j])))
				}
				if !same {
					return false, fmt.Sprintf("event %d is %v with %s, want %#x with %q", i+1, fieldOf(v, fieldIdx(escT, "ID"), nil), showBytes(a), it.e, it.arg)
				}
			}
			for _, o := range x.exec(st.fork(), mMouse, []*Term{es, id}, nil) {
				if o.panicked {
					return false, "Mouse panics"
				}
				if it.kind != "mouse" {
					continue
				}
				v := o.st.f.rw(o.ret[0])
				px, py := g.xy(fieldOf(v, fieldIdx(mouseT, "Point"), g.pt))
				s := fieldOf(v, fieldIdx(mouseT, "State"), nil)
				if !o.st.eq(s, mkInt(it.state)) || !o.st.eq(px, mkInt(it.x)) || !o.st.eq(py, mkInt(it.y)) {
					return false, fmt.Sprintf("event %d is mouse %v at %v,%v, want %d at %d,%d", i+1, s, px, py, it.state, it.x, it.y)
				}
			}
		}
		return true, ""
	}
}

// c25: the queue of input events.
func c25(r *Run) {
	w := r.w
	r.rule("queue", "every rune, escape sequence and mouse report that is decoded is in the queue once, in order, as what it is", 60)
	r.rule("own", "the arguments of events in the queue stay as they were decoded when more input is read", 5)
	r.rule("clear", "clearing leaves nothing in the queue", 3)
	r.rule("query", "a query counts each event that matches it once, and only those", 300)
	r.rule("strike", "a query strikes the events it is to strike out, and only those", 300)
	r.rule("again", "what was struck out is not counted again", 100)
	esT, inT := w.typ("x/platform", "Events"), w.typ("", "Input")
	mouseT := w.typ("x/platform", "Mouse")
	decB, decI, clr := w.methodOf(esT, "DecodeBytes"), w.methodOf(esT, "DecodeInput"), w.methodOf(esT, "Clear")
	g := newGeom(w)
	ibuf, ieof := fieldPath(inT, "buf"), fieldPath(inT, "ateof")
	thorough := r.tier == "thorough"

	setup := func(x *X) (*State, *evKit) {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if strings.HasPrefix(ci.name(), "log.Print") {
				return ret(st), true
			}
			return nil, false
		}
		return newState(), &evKit{w: w, g: g, x: x}
	}
	text := func(x *X, st *State, s string) *Term {
		return x.elemSlice(st, byteT, byteStr(s)...)
	}
	num := func(st *State, t *Term) (int64, bool) {
		t = st.f.rw(t)
		if t.op == OConst {
			return t.k, true
		}
		if st.isTrue(t) {
			return 1, true
		}
		if st.isTrue(mkNot(t)) {
			return 0, true
		}
		return 0, false
	}
	is := evIs(w)

	joinText := func(ts []evText) (s string, its []evItem) {
		for _, t := range ts {
			s += t.text
			its = append(its, t.items...)
		}
		return
	}
	// decoding
	none := evText{}
	texts := []evText{
		evRune('a'), evRune('\x03'), evRune('\r'), evRune('é'), evRune('\u2502'), evRune('😀'),
		{"\xff", []evItem{{kind: "rune", e: 0xFFFD}}},
		evCSI("", 'A'), evCSI("3;4", 'H'), evCSI("12", 'B'), evCSI("?25", 'h'), evCSI("1;5", 'C'), evCSI("", 'Z'), evCSI("200", '~'),
		evMouse(0, 5, 6, false), evMouse(0, 5, 6, true), evMouse(2, 131, 77, false), evMouse(35, 1, 1, false), evMouse(64, 12, 3, false), evMouse(18, 12, 3, true),
		{"\u009b4D", []evItem{{kind: "escape", e: csiID('D'), arg: "4"}}},
		{"\x1bOP", []evItem{{kind: "control", e: 0x8F}, {kind: "rune", e: 'P'}}},
		{"\x1bD", []evItem{{kind: "control", e: 0x84}}},
		{"\x1b]0;x\x1b\\", []evItem{{kind: "control", e: 0x9D, arg: "0;x"}}},
		// mouse reports that cannot be made sense of stay what they are
		{"\x1b[<0;5M", []evItem{{kind: "escape", e: csiID('M'), arg: "<0;5"}}},
		{"\x1b[<300;5;6M", []evItem{{kind: "escape", e: csiID('M'), arg: "<300;5;6"}}},
		{"\x1b[<0;5;6;7M", []evItem{{kind: "escape", e: csiID('M'), arg: "<0;5;6;7"}}},
		{"\x1b[M", []evItem{{kind: "escape", e: csiID('M')}}},
		{"\x1b[2m", []evItem{{kind: "escape", e: csiID('m'), arg: "2"}}},
	}
	// C1 controls that stand for themselves are not runes
	var streams [][]evText
	for _, t := range texts {
		streams = append(streams, []evText{t})
	}
	few := []evText{evRune('a'), evRune('é'), evCSI("", 'A'), evCSI("3", 'B'), evMouse(0, 5, 6, false), evMouse(0, 5, 6, true), {"\x1b[<0;5M", []evItem{{kind: "escape", e: csiID('M'), arg: "<0;5"}}}, {"\xff", []evItem{{kind: "rune", e: 0xFFFD}}}}
	for _, a := range few {
		for _, b := range few {
			streams = append(streams, []evText{a, b})
			if thorough {
				for _, c := range few {
					streams = append(streams, []evText{a, b, c})
				}
			}
		}
	}
	streams = append(streams, []evText{none}, []evText{evRune('a'), {"\x1b[3", nil}}, []evText{evRune('x'), {"\x1b", []evItem{{kind: "rune", e: 0x1b}}}})
	for _, ts := range streams {
		s, want := joinText(ts)
		partial := strings.HasSuffix(s, "\x1b[3")
		nm := fmt.Sprintf("%q", s)
		if !partial {
			r.analyse("bytes "+nm, func(x *X) {
				st, _ := setup(x)
				es := x.objWith(st, "events", esT, zeroVal(esT))
				b := text(x, st, s)
				for _, o := range x.exec(st, decB, []*Term{es, b}, nil) {
					if o.panicked {
						x.check(o.st, "queue", "bytes "+nm, false, decB.Pos(), "panics with %v", o.pv)
						continue
					}
					ok, why := is(x, o.st, es, want, false)
					x.check(o.st, "queue", "bytes "+nm, ok, decB.Pos(), "%s", why)
					for _, q := range x.exec(o.st, clr, []*Term{es}, nil) {
						ok, why := is(x, q.st, es, nil, false)
						x.check(q.st, "clear", nm, ok && !q.panicked, clr.Pos(), "after clearing has %s", why)
						again, w2 := joinText([]evText{evCSI("7", 'B'), evMouse(66, 8, 9, false), evRune('z')})
						for _, q := range x.exec(q.st, decB, []*Term{es, text(x, q.st, again)}, nil) {
							ok, why := is(x, q.st, es, w2, false)
							x.check(q.st, "clear", nm+": then more", ok && !q.panicked, clr.Pos(), "after clearing and decoding more has %s", why)
						}
					}
				}
			})
		}
		for _, eof := range []bool{false, true} {
			if partial && eof || !eof && strings.HasSuffix(s, "\x1b") {
				continue
			}
			at := fmt.Sprintf("input %s, end %v", nm, eof)
			r.analyse(at, func(x *X) {
				st, _ := setup(x)
				es := x.objWith(st, "events", esT, zeroVal(esT))
				in := x.objWith(st, "input", inT, zeroVal(inT))
				bp := addrPath(in, ibuf...)
				st.store(addrPath(in, ieof...), mkBool(eof))
				b := text(x, st, s)
				// there is room for more, so that an ESC at the end does not wait
				bufAppend(x, st, bp, b)
				for _, o := range x.exec(st, decI, []*Term{es, in}, nil) {
					if o.panicked {
						x.check(o.st, "queue", at, false, decI.Pos(), "panics with %v", o.pv)
						continue
					}
					st := o.st
					ok, why := is(x, st, es, want, false)
					x.check(st, "queue", at, ok, decI.Pos(), "%s", why)
					// more is read, over what was there
					buf, _ := bufFields(st, bp)
					buf = toSlice(st.f.rw(buf))
					n, known := st.constOf(buf.args[2])
					if !known {
						x.fail("unknown buffer length")
					}
					for i := int64(0); i < n; i++ {
						st.store(addrPath(buf.args[0], linK(buf.args[1], i)), mkInt('#'))
					}
					ok, why = is(x, st, es, want, false)
					x.check(st, "own", at, ok, decI.Pos(), "after more is read has %s", why)
					// decoding more adds to the queue
					st.store(addrPath(bp, mkFld(0)), mkSlice(buf.args[0], buf.args[1], tZero, buf.args[3]))
					st.store(addrPath(bp, mkFld(1)), tZero)
					if partial {
						return
					}
					bufAppend(x, st, bp, text(x, st, "z\x1b[7C"))
					for _, o := range x.exec(st, decI, []*Term{es, in}, nil) {
						w2 := append(append([]evItem(nil), want...), evRune('z').items[0], evCSI("7", 'C').items[0])
						ok, why := is(x, o.st, es, w2, false)
						x.check(o.st, "queue", at+": more", ok && !o.panicked, decI.Pos(), "%s", why)
					}
				}
			})
		}
	}

	// queries
	alpha := []evText{
		evRune('a'), evRune('b'), evRune('\x03'),
		evCSI("", 'A'), evCSI("3", 'B'), evCSI("2", 'C'), evCSI("", 'D'), evCSI("2", 'E'),
		evMouse(0, 3, 3, false), evMouse(0, 5, 6, false), evMouse(0, 6, 6, false), evMouse(0, 5, 7, false), evMouse(1, 2, 3, false), evMouse(1, 4, 4, false),
		evMouse(0, 4, 4, true), evMouse(32, 4, 4, false), evMouse(35, 9, 9, false),
		evMouse(64, 3, 6, false), evMouse(65, 5, 3, false), evMouse(81, 4, 4, false), evMouse(64, 3, 2, false), evMouse(65, 6, 3, false),
	}
	qs := evQueries()
	meth := map[string]*ssa.Function{}
	for _, q := range qs {
		meth[q.method] = w.methodOf(esT, q.method)
	}
	queues := [][]evText{{}}
	for _, a := range alpha {
		queues = append(queues, []evText{a})
		for _, b := range alpha {
			queues = append(queues, []evText{a, b})
		}
	}
	short := alpha
	if !thorough {
		short = []evText{alpha[0], alpha[2], alpha[4], alpha[8], alpha[11], alpha[17], alpha[19]}
	}
	for _, a := range short {
		for _, b := range short {
			for _, c := range short {
				queues = append(queues, []evText{a, b, c})
			}
		}
	}
	flat := func(k *evKit, st *State, o Out, method string) ([]int64, bool) {
		var ts []*Term
		switch method {
		case "TotalCursorMovement":
			px, py := g.xy(o.st.f.rw(o.ret[0]))
			ts = []*Term{px, py}
		case "LastMouse":
			v := o.st.f.rw(o.ret[0])
			px, py := g.xy(fieldOf(v, fieldIdx(mouseT, "Point"), g.pt))
			ts = []*Term{fieldOf(v, fieldIdx(mouseT, "State"), nil), px, py, o.ret[1]}
		default:
			ts = o.ret
		}
		var out []int64
		for _, t := range ts {
			n, ok := num(o.st, t)
			if !ok {
				return nil, false
			}
			out = append(out, n)
		}
		return out, true
	}
	for qi, ts := range queues {
		s, items := joinText(ts)
		nm := fmt.Sprintf("%q", s)
		r.analyse("queries of "+nm, func(x *X) {
			st, k := setup(x)
			es := x.objWith(st, "events", esT, zeroVal(esT))
			for _, o := range x.exec(st, decB, []*Term{es, text(x, st, s)}, nil) {
				if o.panicked {
					continue // reported above
				}
				ask := func(st *State, q evQuery, want []evItem, rule, at string, f func(st *State, left []evItem)) {
					fn := meth[q.method]
					args := []*Term{es}
					as := q.args(k)
					if fn.Signature.Variadic() {
						args = append(args, x.elemSlice(st, fn.Signature.Params().At(fn.Signature.Params().Len()-1).Type().Underlying().(*types.Slice).Elem(), as...))
					} else {
						args = append(args, as...)
					}
					left := append([]evItem(nil), want...)
					res := q.answer(left)
					for _, o := range x.exec(st, fn, args, nil) {
						if o.panicked {
							x.check(o.st, rule, at, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						got, ok := flat(k, o.st, o, q.method)
						same := ok && len(got) == len(res)
						for i := 0; same && i < len(got); i++ {
							same = got[i] == res[i]
						}
						x.check(o.st, rule, at, same, fn.Pos(), "gives %v, want %v", o.ret, res)
						if f != nil {
							f(o.st, left)
						}
					}
				}
				for i, q := range qs {
					at := q.name + " of " + nm
					ask(o.st.fork(), q, items, "query", at, func(st *State, left []evItem) {
						ok, why := is(x, st, es, left, true)
						x.check(st, "strike", at, ok, meth[q.method].Pos(), "then has %s", why)
						// then another
						for j, q2 := range qs {
							if j == i || thorough && len(ts) < 3 || (i*7+j*3+qi)%11 == 0 {
								ask(st.fork(), q2, left, "again", q2.name+" after "+at, nil)
							}
						}
					})
				}
			}
		})
	}
}
