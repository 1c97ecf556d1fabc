package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C27"] = c27 }

// A frScene is what happens up to and within a frame.
type frScene struct {
	sig     int64    // a stop signal arrives
	size    [2]int64 // the terminal is resized
	winch   bool     // the terminal reports a resize, but to the same size
	input   string   // input arrives
	more    string   // and more, once that is read
	cur     bool     // the client shows the cursor, after what it drew
	fail    string   // reading fails, "eof" or "eio"
	items   []evItem // the input the client is to see
	cerr    bool     // the client fails
	ferr    bool     // showing the frame fails
	werr    bool     // a background worker has failed
	pause   bool     // the client pauses, and its time stands still from then on
	tail    string   // what the client writes after all else
	kill    bool     // suspending fails
	suspend bool     // the client suspends the process, and draws once it is resumed
	resize  [2]int64 // and the terminal was resized meanwhile
	text    string   // what the client draws
	x, y    int64
	bold    bool
	redraw  bool // the client is to know of a redraw
	garble  bool // others have written over the terminal's screen

	// sessions, recorded and replayed
	again   bool     // the run ends, and the session replays from then on
	none    bool     // the client is not called
	any     bool     // whatever input the client sees
	t       int      // the frame of this script whose time the client sees, from 1
	dim     [2]int64 // the size of the screen the client sees
	ptr     [2]int64 // where the mouse that is replayed is shown
	recfail string   // what fails of the recording
}

func (s frScene) String() string {
	var p []string
	add := func(on bool, f string, a ...any) {
		if on {
			p = append(p, fmt.Sprintf(f, a...))
		}
	}
	add(s.sig != 0, "signal %d", s.sig)
	add(s.size[0] != 0, "resize %v", s.size)
	add(s.winch, "resize signal")
	add(s.input != "", "%q", s.input)
	add(s.more != "", "then %q", s.more)
	add(s.cur, "cursor")
	add(s.fail != "", "read fails (%s)", s.fail)
	add(s.pause, "pause")
	add(s.tail != "", "tail %q", s.tail)
	add(s.kill, "kill fails")
	add(s.suspend, "suspend")
	add(s.resize[0] != 0, "resized %v", s.resize)
	add(s.cerr, "client fails")
	add(s.ferr, "flush fails")
	add(s.werr, "worker fails")
	add(s.again, "replays")
	add(s.recfail != "", "%s fails", s.recfail)
	return "[" + strings.Join(p, ", ") + "]"
}

const frSigStop, frSigWinch, frSigIO, frSigCont = 15, 28, 29, 18

// frScripts are runs of frames; the last frame of each ends the run.
func frScripts(thorough bool) [][]frScene {
	type S = frScene
	ru := func(s string) []evItem {
		var its []evItem
		for _, c := range s {
			its = append(its, evItem{kind: "rune", e: int64(c)})
		}
		return its
	}
	key := func(b byte) []evItem { return []evItem{{kind: "escape", e: csiID(b)}} }
	mouse := evMouse(0, 3, 2, false)
	term, intr, hup := S{sig: 15}, S{sig: 2}, S{sig: 1}
	draw := S{text: "ab", x: 2, y: 1}
	other := S{text: "x", x: 4, y: 2, bold: true}
	out := [][]S{
		{term}, {intr}, {hup},
		{draw, term},
		{draw, other, draw, intr},
		{draw, draw, term},
		// input is given to one frame
		{S{input: "a", items: ru("a"), text: "a", x: 1, y: 1}, draw, term},
		{draw, S{input: "qr", items: ru("qr")}, draw, other, term},
		{draw, S{input: "a", items: ru("a")}, S{input: "\x1b[Ab", items: append(key('A'), ru("b")...)}, S{}, term},
		{draw, S{input: mouse.text, items: mouse.items}, draw, term},
		// which may come in parts
		{draw, S{input: "a\x1b[", items: ru("a")}, S{input: "Bz", items: append(key('B'), ru("z")...)}, S{}, term},
		{draw, S{input: "\xc3"}, S{input: "\xa9", items: ru("é")}, term},
		{draw, S{input: "a", more: "b\x1b[A", items: append(ru("ab"), key('A')...)}, draw, term},
		{draw, S{input: "a\x1b[", more: "B", items: append(ru("a"), key('B')...)}, draw, term},
		// the client's cursor
		{S{text: "ab", x: 2, y: 1, cur: true}, draw, S{cur: true, text: "z", x: 6, y: 2}, S{cur: true, text: "z", x: 6, y: 2}, S{cur: true, text: "z", x: 1, y: 2}, term},
		{draw, S{cur: true, text: "z", x: 6, y: 2}, S{garble: true, suspend: true, text: "back", x: 2, y: 2, cur: true}, S{cur: true, garble: true, size: [2]int64{5, 3}, redraw: true, text: "e", x: 1, y: 1}, term},
		// a paused client's time stands still
		{draw, S{pause: true, text: "a", x: 1, y: 1}, S{text: "b", x: 1, y: 1}, S{input: "k", items: ru("k"), text: "c", x: 1, y: 1}, term},
		// an unfinished sequence does not reach into the next frame
		{S{tail: "\x1b[", text: "ab", x: 2, y: 1}, S{text: "Ad", x: 2, y: 1}, S{tail: "\xe2\x96", text: "x", x: 1, y: 1}, S{text: "yz", x: 3, y: 2}, term},
		// redraws
		{draw, S{garble: true, input: "\x0c", items: []evItem{{kind: "none", e: 0x0c}}, redraw: true, text: "cd", x: 1, y: 2}, other, term},
		{draw, S{garble: true, input: "x\x0c", items: append(ru("x"), evItem{kind: "none", e: 0x0c}), redraw: true, text: "ab", x: 2, y: 1}, term},
		{draw, S{garble: true, size: [2]int64{5, 3}, redraw: true, text: "e", x: 5, y: 3}, other, term},
		{draw, S{garble: true, size: [2]int64{9, 1}, redraw: true, text: "e", x: 8, y: 1}, draw, hup},
		{draw, S{garble: true, winch: true, text: "e", x: 1, y: 1}, draw, term},
		{draw, S{garble: true, size: [2]int64{5, 3}, input: "k", items: ru("k"), redraw: true, text: "e", x: 1, y: 1}, term},
		// failures
		{S{cerr: true}},
		{draw, S{cerr: true, text: "no", x: 1, y: 1}},
		{draw, S{cerr: true, input: "a", items: ru("a")}},
		{draw, S{ferr: true, text: "no", x: 1, y: 1}},
		{S{ferr: true, text: "no", x: 1, y: 1}},
		{draw, S{werr: true, text: "w", x: 1, y: 1}},
		{draw, S{fail: "eof"}}, {draw, S{fail: "eio"}}, {draw, S{input: "a", items: ru("a"), fail: "eof"}},
		// the first counts
		{draw, S{sig: 15, cerr: true, text: "no", x: 1, y: 1}},
		{draw, S{fail: "eio", cerr: true}},
		{draw, S{cerr: true, ferr: true, text: "no", x: 1, y: 1}},
		{draw, S{sig: 2, input: "a", items: ru("a"), text: "no", x: 1, y: 1}},
		{draw, S{sig: 15, ferr: true, text: "no", x: 1, y: 1}},
		{draw, S{ferr: true, werr: true, text: "no", x: 1, y: 1}},
		{draw, S{sig: 15, fail: "eio"}},
		// suspending
		{draw, S{garble: true, suspend: true, text: "back", x: 2, y: 2}, draw, term},
		{draw, S{garble: true, suspend: true, resize: [2]int64{6, 3}, text: "back", x: 1, y: 2}, S{text: "hi", x: 1, y: 3, redraw: false}, term},
		{draw, S{garble: true, suspend: true, text: "back", x: 2, y: 2}, S{input: "q", items: ru("q")}, S{garble: true, size: [2]int64{5, 3}, redraw: true}, term},
		{draw, S{suspend: true, garble: true, cerr: true}},
		{draw, S{suspend: true, garble: true, kill: true, cerr: true}}, {draw, S{suspend: true, garble: true, kill: true, text: "m", x: 1, y: 2}},
	}
	if thorough {
		steps := []S{{text: "ab", x: 2, y: 1}, {input: "a", items: ru("a"), text: "p", x: 3, y: 2}, {garble: true, size: [2]int64{5, 3}, redraw: true, text: "r", x: 5, y: 3},
			{garble: true, suspend: true, text: "s", x: 1, y: 1}, {input: "\x0c", items: []evItem{{kind: "none", e: 0x0c}}, redraw: true, garble: true, text: "l", x: 2, y: 2}}
		ends := []S{{sig: 15}, {cerr: true}, {fail: "eof"}, {ferr: true, text: "no", x: 2, y: 2}, {werr: true}}
		for i, a := range steps {
			for j, b := range steps {
				if i == 2 && j == 2 {
					continue
				}
				for _, e := range ends {
					out = append(out, []S{draw, a, b, e})
					if i < 2 {
						out = append(out, []S{a, {}, b, e})
					}
				}
			}
		}
	}
	return out
}

// c27: the platform's frame loop, from its outermost entry point.
func c27(r *Run) {
	r.rule("input", "a frame's client sees the input that arrived since the last frame, once and in order, and no other", 60)
	r.rule("update", "the client is updated once in each frame, with the frame's time, on a blank screen of the terminal's size", 60)
	r.rule("redraw", "the client is told of a redraw in the first frame, when the terminal's size changed, and on Ctrl-L", 60)
	r.rule("shown", "when a frame succeeds the terminal shows what the client drew in it, whatever it showed before when it is to be redrawn", 60)
	r.rule("withheld", "nothing of a frame that failed is shown", 12)
	r.rule("result", "the run ends with the first failure, which it returns, and with no other", 30)
	r.rule("screen-mode", "frames are shown on the alternate screen, with mouse reports", 30)
	r.rule("restored", "when the run ends the terminal's settings, flags, modes and cursor are as they were found", 30)
	r.rule("suspended", "while suspended the terminal is as it was found", 3)
	r.rule("signals", "channels that signals are sent to have room, and are let go when the run ends", 30)
	r.rule("live", "the loop never waits for what cannot come", 30)
	frameRun(r, frScripts(r.tier == "thorough"), nil)
}

// frameRun runs scripts; with a recKit sessions are recorded and replayed.
func frameRun(r *Run, scripts [][]frScene, rec *recKit) {
	w := r.w
	pT, ctxT, tsT := w.typ("x/platform", "Platform"), w.typ("x/platform", "Context"), w.typ("", "TermScreen")
	run := w.fn("x/platform", "Run")
	pRun, suspend := w.methodOf(pT, "Run"), w.methodOf(pT, "Suspend")
	clear := w.promotedOf(tsT, "Clear")
	to, wstr, wsgr := w.promotedOf(tsT, "To"), w.promotedOf(tsT, "WriteString"), w.promotedOf(tsT, "WriteSGR")
	cIn, cOut, cTime, cRedraw := fieldPath(ctxT, "Input"), fieldPath(ctxT, "Output"), fieldIdx(ctxT, "Time"), fieldIdx(ctxT, "Redraw")
	paused := fieldPath(pT, "State", "Paused")
	uPoint, uVis := fieldPath(tsT, "ScreenDiffer", "UserCursor", "Point"), fieldPath(tsT, "ScreenDiffer", "UserCursor", "Visible")
	tScreen := fieldPath(tsT, "ScreenDiffer", "VirtualScreen", "Screen")
	timeT := structOf(ctxT).Field(cTime).Type()
	gk := newGridKit(w)
	evOK := evIs(w)
	sigErrT := w.typ("", "SignalError")
	sgrT := w.typ("ansi", "SGRAttr")
	bold := w.constInt("ansi", "SGRAttrBold")
	sc := w.spkg["syscall"].Pkg.Scope()
	tioT, errnoT, sysSigT := sc.Lookup("Termios").Type(), sc.Lookup("Errno").Type(), sc.Lookup("Signal").Type()
	errno := func(name string) *Term {
		c := w.spkg["syscall"].Const(name)
		k, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
		return mkIface(errnoT, mkInt(k))
	}
	pathErrT := w.prog.ImportedPackage("io/fs").Type("PathError").Type()
	timePkg := w.prog.ImportedPackage("time")
	if timePkg == nil {
		panic(anchorErr{"package time not found", false})
	}
	tickT := timePkg.Type("Ticker").Type()
	eofObj := globalObj(w.prog.ImportedPackage("io").Var("EOF"))
	eof := tok("EOF")
	in, out, client, runFn := tok("input-file"), tok("output-file"), tok("the-client"), mkAtom("runfn", nil)
	clientErr, workErr := tok("client failed"), tok("worker failed")
	sigVal := func(n int64) *Term { return mkIface(sysSigT, mkInt(n)) }
	now := func(k int64) *Term { return mkApp("now", timeT, mkInt(k)) }
	instant := func(st *State, t *Term) (int64, bool) {
		t = st.f.rw(t)
		if t == zeroVal(timeT) {
			return -1 << 40, true
		}
		if t.op == OApp && t.name == "now" {
			return st.constOf(t.args[0])
		}
		return 0, false
	}
	kern := wrapT(mkAtom("kern", tioT))
	const inFlags, outFlags = 2, 0x8002
	const frFPS = 60

	str := func(st *State, k string) string {
		if v := st.g(k); v != nil && v.op == OStr {
			return v.name
		}
		return ""
	}
	list := func(st *State, k string) []*Term {
		if v := st.g(k); v != nil && v.op == OApp {
			return v.args
		}
		return nil
	}
	setList := func(st *State, k string, l []*Term) { st.setG(k, mkApp("list", nil, l...)) }
	num := func(st *State, k string) int64 {
		n, _ := st.constOf(st.gInt(k))
		return n
	}
	chKey := func(c *Term) string { return fmt.Sprint("q:", c) }

	for _, script := range scripts {
		nm := strings.TrimSuffix(fmt.Sprint(script), "]") + "]"
		r.analyse(nm, func(x *X) {
			x.precise, x.noMerge = true, true
			x.unrollSt = 4000
			if rec != nil {
				x.only = rec.rules
			}
			st := newState()
			st.setMem(eofObj, eof)
			st.setMem(globalObj(w.global("x/platform", "Logs")), zeroVal(w.typ("x/platform", "LogSink")))
			st.setG("kern", kern)
			st.setG("fl7", mkInt(inFlags))
			st.setG("fl8", mkInt(outFlags))
			st.setG("cols", mkInt(7))
			st.setG("rows", mkInt(2))
			st.setG("f", mkInt(-1))
			st.setG("screen", mkStr("G7,2\x00"))
			pe := withF(pathErrT, zeroVal(pathErrT), fieldIdx(pathErrT, "Err"), errno("EIO"))
			eio := mkIface(types.NewPointer(pathErrT), x.objWith(st, "patherr", pathErrT, pe))
			ag := withF(pathErrT, zeroVal(pathErrT), fieldIdx(pathErrT, "Err"), errno("EAGAIN"))
			again := mkIface(types.NewPointer(pathErrT), x.objWith(st, "patherr", pathErrT, ag))

			scene := func(st *State) frScene {
				if f := num(st, "f"); 0 <= f && f < int64(len(script)) {
					return script[f]
				}
				return frScene{}
			}
			at := func(st *State) string { return fmt.Sprintf("%s: frame %d", nm, num(st, "f")+1) }
			// sim is the terminal now
			sim := func(st *State) *vtSim {
				t := newVT(0, 0, false)
				for _, s := range strings.Split(str(st, "screen"), "\x00") {
					switch {
					case strings.HasPrefix(s, "G"):
						var cols, rows int
						fmt.Sscanf(s, "G%d,%d", &cols, &rows)
						n := newVT(cols, rows, true)
						n.modes, n.hidden, n.sgr = t.modes, t.hidden, t.sgr
						t = n
					case strings.HasPrefix(s, "W"):
						t.write(s[1:])
					}
				}
				if t.unknown != "" {
					x.fail("the terminal is sent %s", t.unknown)
				}
				return t
			}
			mark := func(st *State, s string) { st.setG("screen", mkStr(str(st, "screen")+s+"\x00")) }
			// raise sends a signal to the channels that are notified of it
			raise := func(st *State, n int64) {
				for _, c := range list(st, fmt.Sprint("sig", n)) {
					q := list(st, chKey(c))
					if room, ok := st.constOf(c.args[1]); ok && int64(len(q)) < room {
						setList(st, chKey(c), append(append([]*Term(nil), q...), sigVal(n)))
					}
				}
			}
			// arrive is what happens before a frame
			arrive := func(st *State) {
				s := scene(st)
				if s.size[0] != 0 {
					st.setG("cols", mkInt(s.size[0]))
					st.setG("rows", mkInt(s.size[1]))
				}
				if s.garble && !s.suspend {
					mark(st, fmt.Sprintf("G%d,%d", num(st, "cols"), num(st, "rows")))
				}
				if s.size[0] != 0 || s.winch {
					raise(st, frSigWinch)
				}
				if s.input != "" || s.fail != "" {
					st.setG("input", mkStr(str(st, "input")+s.input))
					st.setG("infail", mkStr(s.fail))
					raise(st, frSigIO)
				}
				if s.sig != 0 {
					raise(st, s.sig)
				}
			}
			found := func(st *State) string {
				t := sim(st)
				switch {
				case !st.eq(st.g("kern"), kern):
					return "the terminal's attributes are not as found"
				case num(st, "fl7") != inFlags:
					return fmt.Sprintf("the input's flags are %#x, not %#x as found", num(st, "fl7"), inFlags)
				case num(st, "fl8") != outFlags:
					return fmt.Sprintf("the output's flags are %#x, not %#x as found", num(st, "fl8"), outFlags)
				case len(t.modes) > 0:
					return fmt.Sprintf("modes %v are still set", sortedKeys(t.modes))
				case t.hidden:
					return "the cursor is hidden"
				case t.sgrStr() != "":
					return fmt.Sprintf("attributes %s are still set", t.sgrStr())
				}
				return ""
			}
			// frameEnd checks what a frame left on the terminal
			frameEnd := func(st *State, pos ssa.Instruction) {
				if num(st, "f") < 0 {
					return
				}
				s := scene(st)
				x.check(st, "update", at(st), num(st, "updates") == 1, pos.Pos(), "the client is updated %d times in the frame", num(st, "updates"))
				t := sim(st)
				want := newVT(int(num(st, "cols")), int(num(st, "rows")), false)
				for i, c := range s.text {
					k := int(s.y-1)*want.w + int(s.x-1) + i
					want.cell[k] = c
					if s.bold {
						want.attr[k] = "1;"
					}
				}
				if s.ptr[0] != 0 {
					k := int(s.ptr[1]-1)*want.w + int(s.ptr[0]-1)
					want.cell[k], want.attr[k] = 'X', t.attr[k]
				}
				same := t.w == want.w && t.h == want.h
				for i := range want.cell {
					same = same && t.cell[i] == want.cell[i] && t.attr[i] == want.attr[i]
				}
				if s.dim[0] != 0 && (s.dim[0] != num(st, "cols") || s.dim[1] != num(st, "rows")) {
					same = true // a replay on a screen of another size
				}
				x.check(st, "shown", at(st), same, pos.Pos(), "the terminal shows %v %q, and the client drew %v %q", t, t.attr, want, want.attr)
				cur := t.hidden
				if s.cur {
					cur = !t.hidden && t.y == int(s.y)-1 && t.x == int(s.x)+len(s.text)-1
				}
				x.check(st, "shown", at(st)+": cursor", cur, pos.Pos(), "the cursor is at %d,%d, hidden %v", t.x, t.y, t.hidden)
				lf := toBits(fieldOf(st.g("kern"), fieldIdx(tioT, "Lflag"), fieldType(tioT, fieldIdx(tioT, "Lflag"))), 32, 32, false)
				raw := lf[0] == bit0 && lf[1] == bit0 && lf[3] == bit0 // no ISIG, ICANON, ECHO
				x.check(st, "screen-mode", at(st)+": raw", raw, pos.Pos(), "the terminal's input is not raw: %v", st.g("kern"))
				x.check(st, "screen-mode", at(st), t.modes["1049"] && t.modes["1006"], pos.Pos(), "the terminal's modes are %v", sortedKeys(t.modes))
			}
			x.h.chlen = func(x *X, st *State, ch *Term) *Term {
				if ch.op == OApp && ch.name == "chan" && st.g("tick") != ch && st.g("closed:"+chKey(ch)) == nil {
					if q := list(st, chKey(ch)); len(q) > 0 {
						return mkInt(int64(len(q)))
					}
				}
				return nil
			}
			x.h.sel = func(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) {
				var picks []selPick
				tick := -1
				for i, c := range cases {
					ch := st.f.rw(c.ch)
					if ch == tNil || ch.op != OApp || ch.name != "chan" {
						continue
					}
					q := list(st, chKey(ch))
					switch {
					case c.v != nil:
						if room, ok := st.constOf(ch.args[1]); ok && int64(len(q)) < room {
							n := st.fork()
							setList(n, chKey(ch), append(append([]*Term(nil), q...), c.v))
							picks = append(picks, selPick{st: n, idx: i})
						}
					case len(q) > 0:
						n := st.fork()
						setList(n, chKey(ch), q[1:])
						picks = append(picks, selPick{st: n, idx: i, v: q[0], ok: tTrue})
					case st.g("closed:"+chKey(ch)) != nil:
						picks = append(picks, selPick{st: st.fork(), idx: i, v: zeroVal(chElem(ch)), ok: tFalse})
					case st.g("tick") == ch:
						tick = i
					case types.Identical(chElem(ch), errT):
						// a background worker's: what it failed with, and nothing once it is done
						if scene(st).werr && st.gInt("wfailed") == tZero && num(st, "updates") > 0 {
							n := st.fork()
							n.setG("wfailed", tOne)
							picks = append(picks, selPick{st: n, idx: i, v: workErr, ok: tTrue})
						} else if blocking {
							picks = append(picks, selPick{st: st.fork(), idx: i, v: tNil, ok: tFalse})
						}
					case blocking && st.gInt("suspended") != tZero:
						for _, c := range list(st, fmt.Sprint("sig", frSigCont)) {
							if c == ch {
								picks = append(picks, selPick{st: st.fork(), idx: i, v: sigVal(frSigCont), ok: tTrue})
							}
						}
					}
				}
				if len(picks) > 0 {
					return picks, true
				}
				if !blocking {
					return []selPick{{st: st, idx: -1}}, true
				}
				if tick >= 0 && num(st, "f") >= 0 {
					frameEnd(st, in)
					f := num(st, "f") + 1
					last := script[f-1]
					goesOn := f < int64(len(script)) && last.sig == 0 && !last.cerr && last.fail == "" && !last.again
					x.check(st, "result", at(st), goesOn, in.Pos(), "goes on after %v", last)
					if !goesOn {
						return nil, true
					}
					st.setG("f", mkInt(f))
					st.setG("updates", tZero)
					arrive(st)
					return []selPick{{st: st, idx: tick, v: now(f), ok: tTrue}}, true
				}
				x.check(st, "live", at(st), false, in.Pos(), "waits for ever")
				return nil, true
			}
			write := func(st *State, file, b *Term, pos ssa.Instruction) []Out {
				bs, ok := x.constBytes(st, b)
				if !ok {
					x.fail("unknown output %v", b)
				}
				if rec != nil && file != out {
					return rec.write(x, st, file, bs, scene(st), at(st), eio, pos)
				}
				if file != out {
					x.check(st, "shown", at(st), false, pos.Pos(), "writes %q to %v", bs, file)
					return ret(st, mkInt(int64(len(bs))), tNil)
				}
				if num(st, "updates") > 0 && st.gInt("ended") == tZero && st.gInt("suspended") == tZero && st.gInt("within") == tZero {
					s := scene(st)
					if s.ferr && st.gInt("ffailed") == tZero {
						st.setG("ffailed", tOne)
						return ret(st, tZero, eio)
					}
					x.check(st, "withheld", at(st), s.sig == 0 && s.fail == "" && !s.cerr && !s.ferr, pos.Pos(), "writes %q in a frame that has failed", bs)
				}
				mark(st, "W"+string(bs))
				return ret(st, mkInt(int64(len(bs))), tNil)
			}
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				nm := ci.name()
				if rec != nil {
					if outs, ok := rec.call(x, st, ci, scene(st), at(st), eio); ok {
						return outs, true
					}
				}
				switch {
				case ci.fn == nil && ci.method == nil && ci.clos == runFn:
					x.check(st, "live", at(st)+": run", num(st, "f") == -1, ci.site.Pos(), "the run function runs twice")
					st.setG("f", tZero)
					arrive(st)
					var play func(st *State) []Out
					play = func(st *State) (outs []Out) {
						for _, o := range x.exec(st, pRun, []*Term{ci.args[0], client}, nil) {
							st := o.st
							if f := num(st, "f"); rec != nil && !o.panicked && scene(st).again {
								done := x.exec(st, rec.isDone, o.ret, nil)
								ok := len(done) == 1 && !done[0].panicked && done[0].st.isTrue(done[0].ret[0]) && num(st, "updates") == map[bool]int64{false: 1, true: 0}[scene(st).none]
								x.check(st, "session", at(st)+": ends", ok && f+1 < int64(len(script)), ci.site.Pos(), "the run ends with %v after %d updates", o.ret, num(st, "updates"))
								rec.ended(x, st, at(st), ci)
								st.setG("f", mkInt(f+1))
								st.setG("updates", tZero)
								arrive(st)
								outs = append(outs, play(st)...)
								continue
							}
							o.st.setG("ended", tOne)
							outs = append(outs, o)
						}
						return outs
					}
					return play(st), true
				case ci.method != nil && ci.recv == client && ci.method.Name() == "Update":
					s := scene(st)
					st.setG("updates", linK(st.gInt("updates"), 1))
					cx := st.f.rw(ci.args[0])
					ok, why := evOK(x, st, st.load(addrPath(cx, cIn...)), s.items, false)
					x.check(st, "input", at(st), (ok || s.any) && !s.none, ci.site.Pos(), "the client is given %s; %v arrived", why, s.items)
					tm := st.f.rw(st.load(addrPath(cx, mkFld(cTime))))
					wantT := now(num(st, "f"))
					for i, p := range script[:num(st, "f")] {
						if p.pause {
							wantT = now(int64(i))
							break
						}
					}
					if s.t > 0 {
						wantT = now(int64(s.t - 1))
					}
					x.check(st, "update", at(st)+": time", tm == wantT || s.any && s.t == 0, ci.site.Pos(), "the frame's time is %v", tm)
					rd := st.load(addrPath(cx, mkFld(cRedraw)))
					x.check(st, "redraw", at(st), st.eq(rd, mkBool(s.redraw || num(st, "f") == 0)), ci.site.Pos(), "redraw is %v", rd)
					o := st.f.rw(st.load(addrPath(cx, cOut...)))
					scr := st.f.rw(st.load(addrPath(o, tScreen...)))
					cells, ok := gk.cells(x, st, fieldOf(scr, gk.sGrid, nil))
					dim := [2]int64{num(st, "cols"), num(st, "rows")}
					if s.dim[0] != 0 {
						dim = s.dim
					}
					rc, okr := gk.rect(st, fieldOf(scr, gk.sGrid, nil))
					ok = ok && okr && int64(len(cells)) == dim[0]*dim[1] && int64(rc.dx()) == dim[0]
					for _, c := range cells {
						blank := st.eq(c.r, tZero) || st.eq(c.r, mkInt(' '))
						ok = ok && blank && st.eq(c.a, tZero)
					}
					x.check(st, "update", at(st)+": screen", ok, ci.site.Pos(), "the screen is %v, not blank and of %vx%v", cells, dim[0], dim[1])
					sts := []*State{st}
					step := func(f *ssa.Function, args ...*Term) {
						var next []*State
						for _, s := range sts {
							if f == wsgr {
								args = []*Term{x.elemSlice(s, sgrT, args...)}
							}
							for _, q := range x.exec(s, f, append([]*Term{o}, args...), nil) {
								x.check(q.st, "update", at(q.st)+": draws", !q.panicked, ci.site.Pos(), "drawing panics with %v", q.pv)
								if !q.panicked {
									next = append(next, q.st)
								}
							}
						}
						sts = next
					}
					if s.suspend {
						st.setG("within", tOne)
						outs := x.exec(st, suspend, []*Term{st.load(addrPath(cx, fieldPath(ctxT, "Platform")...))}, nil)
						sts = nil
						for _, q := range outs {
							okS := !q.panicked && q.st.gInt("suspended") != tZero && q.st.isTrue(mkEqv(q.ret[0], tNil)) != s.kill
							x.check(q.st, "suspended", at(q.st)+": resumes", okS, ci.site.Pos(), "suspending returns %v", q.ret)
							if okS {
								q.st.setG("suspended", tZero)
								q.st.setG("within", tZero)
								sts = append(sts, q.st)
							}
						}
					}
					step(clear)
					if s.text != "" {
						step(to, gk.g.Pt(mkInt(s.x), mkInt(s.y)))
						if s.bold {
							step(wsgr, mkInt(bold))
						}
						step(wstr, mkStr(s.text))
						if s.bold {
							step(wsgr, mkInt(w.constInt("ansi", "SGRAttrClear")))
						}
					}
					if s.tail != "" {
						step(wstr, mkStr(s.tail))
					}
					var outs []Out
					for _, st := range sts {
						if s.pause {
							st.store(addrPath(st.load(addrPath(cx, fieldPath(ctxT, "Platform")...)), paused...), tTrue)
						}
						if s.cur {
							st.store(addrPath(o, uPoint...), gk.g.Pt(mkInt(s.x+int64(len(s.text))), mkInt(s.y)))
							st.store(addrPath(o, uVis...), tTrue)
						}
						if s.cerr {
							outs = append(outs, ret(st, clientErr)...)
						} else {
							outs = append(outs, ret(st, tNil)...)
						}
					}
					return outs, true
				case nm == "os/signal.Notify":
					c := st.f.rw(ci.args[0])
					sigs, ok := x.elems(st, ci.args[1])
					if !ok || c.op != OApp || c.name != "chan" {
						x.fail("notifies %v of %v", c, ci.args[1])
					}
					room, ok := st.constOf(c.args[1])
					x.check(st, "signals", fmt.Sprintf("%s: room", where(ci.caller)), ok && room > 0, ci.site.Pos(), "signals are sent to a channel that has no room, and may be lost")
					for _, s := range sigs {
						s = st.f.rw(s)
						if s.op != OIface {
							x.fail("notified of %v", s)
						}
						n, ok := st.constOf(s.args[0])
						if !ok {
							x.fail("notified of %v", s)
						}
						k := fmt.Sprint("sig", n)
						have := false
						for _, o := range list(st, k) {
							have = have || o == c
						}
						if !have {
							setList(st, k, append(append([]*Term(nil), list(st, k)...), c))
						}
					}
					return ret(st), true
				case nm == "os/signal.Stop":
					c := st.f.rw(ci.args[0])
					for n := 1; n < 32; n++ {
						k := fmt.Sprint("sig", n)
						var keep []*Term
						for _, o := range list(st, k) {
							if o != c {
								keep = append(keep, o)
							}
						}
						if len(list(st, k)) > 0 {
							setList(st, k, keep)
						}
					}
					return ret(st), true
				case nm == "time.NewTicker":
					n := num(st, "tickers") + 1
					d, okd := st.constOf(st.f.rw(ci.args[0]))
					x.check(st, "update", at(st)+": rate", okd && d > 0 && d <= 1000000000/frFPS, ci.site.Pos(), "a frame is shown every %v ns", ci.args[0])
					st.setG("tickers", mkInt(n))
					f := fieldIdx(tickT, "C")
					c := mkApp("chan", structOf(tickT).Field(f).Type(), mkInt(-n), tOne)
					st.setG("tick", c)
					return ret(st, x.objWith(st, "ticker", tickT, withF(tickT, zeroVal(tickT), f, c))), true
				case nm == "(*time.Ticker).Stop":
					if c := st.load(addrPath(ci.args[0], mkFld(fieldIdx(tickT, "C")))); st.g("tick") == c {
						st.setG("tick", tNil)
					}
					return ret(st), true
				case nm == "time.Now":
					return ret(st, now(num(st, "f"))), true
				case nm == "(time.Time).IsZero":
					t := st.f.rw(ci.args[0])
					if t.op == OApp && t.name == "now" {
						return ret(st, tFalse), true
					}
					if t == zeroVal(timeT) {
						return ret(st, tTrue), true
					}
				case nm == "(time.Time).After", nm == "(time.Time).Before", nm == "(time.Time).Equal":
					if a, oka := instant(st, ci.args[0]); oka {
						if b, okb := instant(st, ci.args[1]); okb {
							return ret(st, mkBool(strings.HasSuffix(nm, "After") && a > b || strings.HasSuffix(nm, "Before") && a < b || strings.HasSuffix(nm, "Equal") && a == b)), true
						}
					}
				case nm == "(time.Time).Sub", nm == "time.Since":
					return ret(st, fresh("duration", timePkg.Type("Duration").Type())), true
				case nm == "flag.Parsed":
					return ret(st, tTrue), true
				case nm == "syscall.Getrusage":
					return ret(st, tNil), true
				case nm == "syscall.Kill":
					why := found(st)
					x.check(st, "suspended", at(st), why == "", ci.site.Pos(), "when the process is stopped %s", why)
					st.setG("suspended", tOne)
					s := scene(st)
					if s.resize[0] != 0 {
						st.setG("cols", mkInt(s.resize[0]))
						st.setG("rows", mkInt(s.resize[1]))
					}
					mark(st, fmt.Sprintf("G%d,%d", num(st, "cols"), num(st, "rows")))
					if s.kill {
						return ret(st, mkIface(errnoT, mkInt(1))), true
					}
					return ret(st, tNil), true
				case strings.HasPrefix(nm, "log.Print"):
					return ret(st), true
				case nm == "(*os.File).Fd":
					switch ci.args[0] {
					case in:
						return ret(st, mkInt(7)), true
					case out:
						return ret(st, mkInt(8)), true
					}
				case nm == "syscall.Getpid", nm == "os.Getpid":
					return ret(st, mkInt(9)), true
				case nm == "syscall.Syscall", nm == "syscall.Syscall6", nm == "syscall.RawSyscall":
					fd, _ := st.constOf(st.f.rw(ci.args[1]))
					if fd != 7 && fd != 8 {
						x.fail("system call on file %v", ci.args[1])
					}
					okR := func(v *Term) ([]Out, bool) { return ret(st, v, tZero, tZero), true }
					req, arg := st.f.rw(ci.args[2]), ci.args[3]
					fl := fmt.Sprint("fl", fd)
					switch {
					case isConst(ci.args[0], sysFcntl) && isConst(req, fGetfl):
						return okR(st.gInt(fl))
					case isConst(ci.args[0], sysFcntl) && isConst(req, fSetfl):
						st.setG(fl, st.f.rw(arg))
						return okR(tZero)
					case isConst(ci.args[0], sysFcntl) && isConst(req, fSetown):
						return okR(tZero)
					case isConst(ci.args[0], sysIoctl) && isConst(req, tcgets):
						st.store(arg, st.g("kern"))
						return okR(tZero)
					case isConst(ci.args[0], sysIoctl) && isConst(req, tcsets):
						st.setG("kern", st.load(arg))
						return okR(tZero)
					case isConst(ci.args[0], sysIoctl) && isConst(req, tiocgwinsz):
						st.store(addrPath(arg, mkFld(0)), st.gInt("rows"))
						st.store(addrPath(arg, mkFld(1)), st.gInt("cols"))
						return okR(tZero)
					}
					x.fail("system call %v %v", ci.args[0], req)
				case nm == "(*os.File).Read":
					if ci.args[0] != in {
						x.fail("reads %v", ci.args[0])
					}
					have := str(st, "input")
					p := st.f.rw(toSlice(ci.args[1]))
					room, ok := st.constOf(st.f.rw(p.args[2]))
					if !ok {
						x.fail("reads into %v bytes", p.args[2])
					}
					if have == "" {
						switch str(st, "infail") {
						case "eof":
							return ret(st, tZero, eof), true
						case "eio":
							return ret(st, tZero, eio), true
						}
						if num(st, "fl7")&oNonblock == 0 {
							x.check(st, "live", at(st), false, ci.site.Pos(), "waits for input within a frame")
							return nil, true
						}
						return ret(st, tZero, again), true
					}
					n := int64(len(have))
					if n > room {
						n = room
					}
					for j := int64(0); j < n; j++ {
						st.store(addrPath(p.args[0], linK(p.args[1], j)), mkInt(int64(have[j])))
					}
					have = have[n:]
					if more := scene(st).more; more != "" && st.gInt("more") != linK(tZero, num(st, "f")) {
						st.setG("more", mkInt(num(st, "f")))
						have += more
						raise(st, frSigIO)
					}
					st.setG("input", mkStr(have))
					return ret(st, mkInt(n), tNil), true
				case nm == "(*os.File).Write", nm == "(*os.File).WriteString":
					return write(st, ci.args[0], ci.args[1], ci.site), true
				case nm == "(*bytes.Buffer).Grow":
					return growModel(x, st, ci.args[0], ci.args[1], 0), true
				case nm == "(*bytes.Buffer).WriteTo":
					b, off := bufFields(st, ci.args[0])
					if b == tNil {
						return ret(st, tZero, tNil), true
					}
					s := toSlice(b)
					rest := mkSlice(s.args[0], linAdd(s.args[1], off), linSub(s.args[2], off), linSub(s.args[3], off))
					if n, ok := st.constOf(st.f.rw(rest.args[2])); ok && n == 0 {
						st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
						st.store(addrPath(ci.args[0], mkFld(1)), tZero)
						return ret(st, tZero, tNil), true
					}
					dest := st.f.rw(ci.args[1])
					if dest.op == OIface {
						dest = dest.args[0]
					}
					outs := write(st, dest, rest, ci.site)
					for _, o := range outs {
						if o.ret[1] == tNil {
							o.st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
							o.st.store(addrPath(ci.args[0], mkFld(1)), tZero)
						}
					}
					return outs, true
				}
				return nil, false
			}
			if rec != nil {
				x.h.appnd = rec.appends
			}
			x.h.chanop = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, op string, ch, v *Term) {
				if op == "close" {
					st.setG("closed:"+chKey(st.f.rw(ch)), tOne)
				}
			}
			x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
				if v.op == OApp && v.name == "tok" {
					return 0
				}
				return -1
			}
			for _, o := range x.exec(st, run, []*Term{in, out, runFn, tNil}, nil) {
				st := o.st
				if o.panicked {
					x.check(st, "result", nm, false, run.Pos(), "panics with %v", o.pv)
					continue
				}
				f := num(st, "f")
				if f < 0 || f >= int64(len(script)) {
					x.check(st, "result", nm, false, run.Pos(), "ends with %v before its first frame", o.ret)
					continue
				}
				s := script[f]
				res := st.f.rw(o.ret[0])
				// what the first failure of the frame was
				var want []*Term
				if s.sig != 0 {
					want = append(want, mkIface(sigErrT, mkStruct(sigErrT, sigVal(s.sig))))
				}
				switch s.fail {
				case "eof":
					want = append(want, eof)
				case "eio":
					want = append(want, eio)
				}
				if len(want) == 0 {
					switch {
					case s.cerr:
						want = append(want, clientErr)
					case s.ferr:
						want = append(want, eio)
					case s.werr:
						want = append(want, workErr)
					case s.recfail != "":
						want = append(want, eio)
					case s.kill:
						want = append(want, tNil) // without its terminal there is no next frame
					}
				}
				ok := false
				for _, t := range want {
					ok = ok || st.eq(res, t)
				}
				x.check(st, "result", at(st), ok && f == int64(len(script)-1), run.Pos(), "the run ends with %v, want %v", res, want)
				x.check(st, "update", at(st)+": at most once", num(st, "updates") <= 1, run.Pos(), "the client is updated %d times in the frame", num(st, "updates"))
				why := found(st)
				x.check(st, "restored", at(st), why == "", run.Pos(), "at the end %s", why)
				left := 0
				for n := 1; n < 32; n++ {
					left += len(list(st, fmt.Sprint("sig", n)))
				}
				x.check(st, "signals", at(st)+": let go", left == 0, run.Pos(), "%d channels are still notified of signals", left)
				x.check(st, "live", at(st)+": ticker", (st.g("tick") == nil || st.g("tick") == tNil), run.Pos(), "the ticker still runs")
			}
		})
	}
}

// chElem is the type of what a channel carries.
func chElem(c *Term) types.Type {
	if t, ok := c.typ.Underlying().(*types.Chan); ok {
		return t.Elem()
	}
	return nil
}
