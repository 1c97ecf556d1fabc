package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C29"] = c29 }

// recScripts are sessions that are recorded and replayed.
func recScripts(thorough bool) [][]frScene {
	type S = frScene
	ru := func(s string) (its []evItem) {
		for _, c := range s {
			its = append(its, evItem{kind: "rune", e: int64(c)})
		}
		return its
	}
	struck := func(s string) (its []evItem) {
		for _, c := range s {
			its = append(its, evItem{kind: "none", e: int64(c)})
		}
		return its
	}
	up := []evItem{{kind: "escape", e: csiID('A')}}
	mouse := evMouse(0, 3, 2, false)
	term := S{sig: 15}
	toggle := S{input: "\x12", items: struck("\x12")}
	replay := S{input: "\x12", items: struck("\x12"), again: true}
	done := S{none: true, again: true}
	cut := S{sig: 15, any: true}
	stop := S{input: "\x03", items: struck("\x03")}
	in := func(s string) S { return S{input: s, items: ru(s)} }
	see := func(s string, t int) S { return S{items: ru(s), t: t} }
	with := func(s S, f func(*S)) S { f(&s); return s }
	live := func(s S, input string) S { s.input = input; return s }
	held := func(t int, input string) S { return S{t: t, input: input, any: true} }
	sized := func(s S, x, y int64) S { s.dim = [2]int64{x, y}; return s }
	fails := func(s S, what string) S { s.recfail = what; return s }

	ptr := func(s S) S { s.ptr = [2]int64{3, 2}; return s }
	draws := func(s S, text string, x, y int64) S { s.text, s.x, s.y = text, x, y; return s }
	out := [][]S{
		// what is shown
		{draws(S{}, "ab", 2, 1), draws(toggle, "x", 3, 2), draws(in("ab"), "cd", 2, 1), draws(S{}, "e", 1, 1), draws(in("c"), "fg", 2, 2), draws(replay, "h", 4, 2), draws(see("ab", 3), "cd", 2, 1), draws(see("c", 5), "fg", 2, 2),
			draws(see("\x12", 6), "h", 4, 2), done, draws(see("ab", 3), "cd", 2, 1), draws(stop, "k", 2, 2), draws(in("q"), "lm", 1, 1), term},
		{draws(S{}, "ab", 2, 1), toggle, draws(in("ab"), "cd", 2, 1), in("c"), replay, {size: [2]int64{5, 3}, garble: true, items: ru("ab"), t: 3, dim: [2]int64{7, 2}, text: "ab", x: 2, y: 1}, sized(see("c", 4), 7, 2),
			draws(sized(see("\x12", 5), 7, 2), "zz", 2, 2), done, draws(sized(see("ab", 3), 7, 2), "yyyyy", 1, 1), draws(stop, "ab", 2, 3), draws(in("q"), "p", 5, 3), term},
		// a session is recorded and replays, again and again, until it is stopped
		{{}, toggle, in("ab"), {}, in("c"), replay, see("ab", 3), see("c", 5), see("\x12", 6), done, see("ab", 3), stop, in("q"), term},
		{{}, toggle, in("ab"), {}, in("c"), replay, see("ab", 3), see("c", 5), see("\x12", 6), done, see("ab", 3), see("c", 5), see("\x12", 6), done, see("ab", 3), cut},
		// nothing but the end of it
		{{}, toggle, replay, see("\x12", 3), done, see("\x12", 3), done, stop, term},
		{toggle, replay, see("\x12", 2), done, stop, term},
		{{}, toggle, {}, {}, replay, see("\x12", 5), stop, {}, term},
		// what is recorded with other input, and what is not
		{{}, {input: "x\x12y", items: append(append(ru("x"), struck("\x12")...), ru("y")...)}, in("z"), {input: "p\x12q", again: true, items: append(append(ru("p"), struck("\x12")...), ru("q")...)},
			see("z", 3), see("p\x12q", 4), done, stop, term},
		{{}, {input: "\x12\x12", items: struck("\x12\x12")}, in("a"), toggle, in("b"), {input: "\x12\x12", items: struck("\x12\x12")}, in("c"), {input: "\x12\x12\x12", items: struck("\x12\x12\x12"), again: true},
			see("b", 5), see("\x12\x12", 6), see("c", 7), see("\x12\x12\x12", 8), done, stop, term},
		{{}, toggle, {input: "a\x1b[A" + mouse.text, items: append(append(ru("a"), up...), mouse.items...)}, {input: "b", more: "cd", items: ru("bcd")}, replay,
			ptr(S{t: 3, items: append(append(ru("a"), up...), mouse.items...)}), ptr(see("bcd", 4)), ptr(see("", 4)), ptr(see("\x12", 5)), done, stop, term},
		// live input is not for the client
		{{}, toggle, in("ab"), in("c"), replay, live(see("ab", 3), "zz"), live(see("c", 4), "\x0cy"), live(see("\x12", 5), mouse.text), done, live(see("ab", 3), "\x12"), stop, in("q"), term},
		{{}, toggle, in("ab"), in("c"), replay, see("ab", 3), {input: "x\x03y", items: append(ru("x"), struck("\x03y")...)}, in("q"), term},
		// the replay is held, and goes on
		{{}, toggle, in("ab"), {}, in("c"), replay, see("ab", 3), held(3, " "), held(3, ""), held(3, "z"), live(see("c", 5), "."), held(5, ""), live(see("\x12", 6), " "), done, see("ab", 3), stop, term},
		// a further session
		{{}, toggle, in("ab"), in("c"), replay, see("ab", 3), stop, in("q"), toggle, in("rs"), {}, in("t"), replay, see("rs", 10), see("t", 12), see("\x12", 13), done, see("rs", 10), stop, term},
		// the size of the screen
		{{}, toggle, in("ab"), in("c"), replay, {size: [2]int64{5, 3}, garble: true, items: ru("ab"), t: 3, dim: [2]int64{7, 2}}, sized(see("c", 4), 7, 2), sized(see("\x12", 5), 7, 2), done,
			sized(see("ab", 3), 7, 2), stop, in("q"), term},
		{{}, toggle, in("ab"), {size: [2]int64{5, 3}, garble: true}, in("c"), replay, sized(see("ab", 3), 7, 2), sized(see("c", 5), 5, 3), sized(see("\x12", 6), 5, 3), done, sized(see("ab", 3), 7, 2), stop, term},
		// the client's time stood still
		{{}, toggle, in("ab"), with(in("c"), func(s *S) { s.pause = true }), with(in("d"), func(s *S) { s.t = 4 }), with(replay, func(s *S) { s.t = 4 }),
			see("ab", 3), with(see("c", 4), func(s *S) { s.pause = true }), see("d", 4), see("\x12", 4), done, see("ab", 3), cut},
		// failures
		{{}, fails(toggle, "create"), in("a"), toggle, in("b"), replay, see("b", 5), see("\x12", 6), done, stop, term},
		{{}, fails(toggle, "encode"), in("a"), toggle, in("b"), replay, see("b", 5), see("\x12", 6), done, stop, term},
		{{}, fails(toggle, "encode client"), in("a"), toggle, in("b"), replay, see("b", 5), see("\x12", 6), done, stop, term},
		{{}, fails(toggle, "seek"), in("a"), toggle, in("b"), replay, see("b", 5), see("\x12", 6), done, stop, term},
		{{}, toggle, in("a"), fails(in("b"), "write")},
		{{}, toggle, in("a"), fails(with(replay, func(s *S) { s.again = false }), "open")},
	}
	for n := 1; n <= 3; n++ {
		out = append(out, []S{{}, toggle, in("a"), fails(with(replay, func(s *S) { s.again = false }), fmt.Sprint("read ", n))})
	}
	for n := 1; n <= 5; n++ {
		out = append(out, []S{{}, fails(toggle, fmt.Sprint("write ", n)), in("a"), toggle, in("b"), replay, see("b", 5), see("\x12", 6), done, stop, term})
	}
	if thorough {
		// what is recorded is what is replayed, whatever it is
		syms := []S{in("ab"), {}, {size: [2]int64{5, 3}, garble: true}, {size: [2]int64{7, 2}, garble: true, input: "\x1b[A", items: up}, {input: "q\x0c", items: append(ru("q"), struck("\x0c")...)}, {text: "hi", x: 2, y: 1}}
		var words func(n int, pre []int)
		words = func(n int, pre []int) {
			if n > 0 {
				for i := range syms {
					words(n-1, append(append([]int(nil), pre...), i))
				}
				return
			}
			sc := []S{{}, toggle}
			dim := [2]int64{7, 2}
			var rep []S
			for _, i := range pre {
				f := syms[i]
				sc = append(sc, f)
				if f.input != "" {
					e := see("", len(sc))
					e.dim, e.text, e.x, e.y = dim, f.text, f.x, f.y // the read is recorded before the size
					for _, it := range f.items {
						if it.kind == "none" {
							it.kind = "rune"
						}
						e.items = append(e.items, it)
					}
					rep = append(rep, e)
				}
				if f.size[0] != 0 {
					dim = f.size
				}
			}
			sc = append(sc, replay)
			last := see("\x12", len(sc))
			last.dim = dim
			rep = append(rep, last)
			sc = append(sc, rep...)
			sc = append(sc, done)
			sc = append(sc, rep[0], stop, draws(in("x"), "lm", 1, 1), term)
			out = append(out, sc)
		}
		for n := 1; n <= 3; n++ {
			words(n, nil)
		}
	}
	return out
}

// A recKit models the files and the encoding that sessions are recorded with.
type recKit struct {
	w      *World
	isDone *ssa.Function
	rules  map[string]bool
}

func c29(r *Run) {
	w := r.w
	k := &recKit{w: w, isDone: w.fn("x/platform", "IsReplayDone"), rules: map[string]bool{"input": true, "update": true, "session": true, "result": true, "live": true, "recording": true, "shown": true, "state": true}}
	r.rule("input", "a replayed frame's client sees the input that was recorded, frame by frame and in order, and no other; any other frame's that of the frame", 200)
	r.rule("update", "the client is updated once in each frame, with the time and on a screen of the size that were recorded", 800)
	r.rule("session", "a run ends as replay done when a recording is to be replayed, and when it has been replayed", 35)
	r.rule("result", "no other failure ends the run than those of reading a recording and of adding to it", 180)
	r.rule("live", "the loop never waits for what cannot come", 40)
	r.rule("recording", "recordings are closed before they are replayed or made anew, and one that cannot be started is removed", 200)
	r.rule("shown", "a replay shows what the client draws in it, and nothing is left of it when it is stopped", 320)
	r.rule("state", "recordings start with the state of the platform, its log view and the client, which each run of a replay starts with again", 60)
	frameRun(r, recScripts(r.tier == "thorough"), k)
	k.states(r)
}

// states: what readState gives is what writeState was given.
func (k *recKit) states(r *Run) {
	w := k.w
	pT := w.typ("x/platform", "Platform")
	write, read := w.methodOf(pT, "writeState"), w.methodOf(pT, "readState")
	parts := [][]string{{"State"}, {"Telemetry", "TelemetryState"}, {"HUD", "HUDState"}}
	lvT := w.typ("x/platform", "LogView")
	logs := fieldPath(pT, "HUD", "logs")
	view := fieldPath(lvT, "LogViewState")
	client := fieldPath(pT, "client")
	bufT := w.prog.ImportedPackage("bytes").Type("Buffer").Type()
	rdT := w.prog.ImportedPackage("bytes").Type("Reader").Type()
	for _, fails := range []string{"", "encode", "encode client", "decode", "decode client"} {
		nm := "state"
		if fails != "" {
			nm += ", failing to " + fails
		}
		r.analyse(nm, func(x *X) {
			x.precise, x.noMerge = true, true
			x.unrollSt = 4000
			eio := tok("EIO")
			s := frScene{}
			if strings.HasPrefix(fails, "encode") {
				s.recfail = fails
			}
			st := newState()
			fill := func(tag string) *Term {
				o := x.objWith(st, tag, pT, zeroVal(pT))
				for i, p := range parts {
					st.store(addrPath(o, fieldPath(pT, p...)...), wrapT(mkAtom(fmt.Sprint(tag, i), pathType(pT, p...))))
				}
				st.store(addrPath(o, logs...), x.objWith(st, tag+"logs", lvT, zeroVal(lvT)))
				st.store(addrPath(st.load(addrPath(o, logs...)), view...), wrapT(mkAtom(tag+"view", pathType(lvT, "LogViewState"))))
				st.store(addrPath(o, client...), tok("the-client"))
				return o
			}
			p1, p2 := fill("was"), fill("is")
			viewOf := func(st *State, p *Term) *Term { return st.load(addrPath(st.load(addrPath(p, logs...)), view...)) }
			before, beforeV := st.load(p1), viewOf(st, p1)
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) { return k.call(x, st, ci, s, nm, eio) }
			x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int { return -1 }
			buf := x.objWith(st, "buf", bufT, zeroVal(bufT))
			for _, o := range x.exec(st, write, []*Term{p1, mkIface(types.NewPointer(bufT), buf)}, nil) {
				if o.panicked {
					x.check(o.st, "state", nm, false, write.Pos(), "panics with %v", o.pv)
					continue
				}
				good := o.st.isTrue(mkEqv(o.ret[0], tNil))
				x.check(o.st, "state", nm+": written", good == (s.recfail == ""), write.Pos(), "returns %v", o.ret[0])
				x.check(o.st, "state", nm+": kept", o.st.load(p1) == before && viewOf(o.st, p1) == beforeV, write.Pos(), "writing the state changes it")
				if !good {
					continue
				}
				st := o.st
				b, off := bufFields(st, buf)
				bs, ok := x.constBytes(st, b)
				if k0, ok0 := st.constOf(off); !ok || !ok0 || k0 != 0 {
					x.fail("unknown output %v", b)
				}
				text := string(bs)
				switch fails {
				case "decode":
					text = text[:2]
				case "decode client":
					text = text[:len(text)-1]
				}
				x.check(st, "state", nm+": with the client's", strings.Count(string(bs), "\x03") == 2, write.Pos(), "writes %d values", strings.Count(string(bs), "\x03"))
				old, oldV := st.load(p2), viewOf(st, p2)
				rd := x.objWith(st, "reader", rdT, withF(rdT, zeroVal(rdT), fieldIdx(rdT, "s"), x.elemSlice(st, byteT, elemsOf(text)...)))
				for _, o := range x.exec(st, read, []*Term{p2, mkIface(types.NewPointer(rdT), rd)}, nil) {
					st := o.st
					if o.panicked {
						x.check(st, "state", nm, false, read.Pos(), "panics with %v", o.pv)
						continue
					}
					good := st.isTrue(mkEqv(o.ret[0], tNil))
					x.check(st, "state", nm+": read", good == (fails == ""), read.Pos(), "returns %v", o.ret[0])
					if !good {
						x.check(st, "state", nm+": left", st.load(p2) == old && viewOf(st, p2) == oldV, read.Pos(), "a state that cannot be read is taken in part")
						continue
					}
					x.check(st, "state", nm+": client", st.g("client") != nil, read.Pos(), "the client's state is not read")
					x.check(st, "state", nm+": log view", st.eq(viewOf(st, p1), viewOf(st, p2)), read.Pos(), "was %v, is %v", viewOf(st, p1), viewOf(st, p2))
					for _, p := range parts {
						fp := fieldPath(pT, p...)
						a, b := st.load(addrPath(p1, fp...)), st.load(addrPath(p2, fp...))
						x.check(st, "state", nm+": "+strings.Join(p, "."), st.eq(a, b), read.Pos(), "was %v, is %v", a, b)
					}
				}
			}
		})
	}
}

// pathType is the type of a field of a field.
func pathType(t types.Type, names ...string) types.Type {
	for _, n := range names {
		t = fieldType(t, fieldIdx(t, n))
	}
	return t
}

// appends writes what is appended to recorded frames where there is room for it.
func (k *recKit) appends(x *X, st *State, fn *ssa.Function, in ssa.Instruction, s, e *Term) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(sl.Elem(), k.w.typ("", "InputFrame")) || s == tNil {
		return
	}
	s = st.f.rw(toSlice(s))
	els, ok1 := x.elems(st, e)
	n, ok2 := st.constOf(st.f.rw(s.args[2]))
	if ok1 && ok2 && st.f.prove(linK(s.args[3], -n-int64(len(els)))) {
		for i, el := range els {
			st.store(addrPath(s.args[0], linK(s.args[1], n+int64(i))), el)
		}
	}
}

func (k *recKit) handle(v *Term) (string, bool) {
	if v.op == OApp && v.name == "tok" && strings.HasPrefix(v.args[0].name, "file#") {
		return v.args[0].name, true
	}
	return "", false
}

func (k *recKit) open(st *State) (hs []string) {
	n, _ := st.constOf(st.gInt("handles"))
	for i := int64(1); i <= n; i++ {
		if h := fmt.Sprint("file#", i); st.g("path:"+h) != nil && st.g("closed:"+h) == nil {
			hs = append(hs, h)
		}
	}
	return hs
}

func (k *recKit) ended(x *X, st *State, at string, ci *CallInfo) {
	hs := k.open(st)
	st.setG("client", tNil)
	st.setG("replays", tOne)
	x.check(st, "recording", at+": closed", len(hs) == 0, ci.site.Pos(), "files %v are still open when the run ends", hs)
}

func (k *recKit) exists(st *State, path string) bool {
	v := st.g("file:" + path)
	return v != nil && v.op == OStr
}

func gStr(st *State, key string) string {
	if v := st.g(key); v != nil && v.op == OStr {
		return v.name
	}
	return ""
}

func (k *recKit) write(x *X, st *State, file *Term, bs []byte, s frScene, at string, eio *Term, pos ssa.Instruction) []Out {
	h, ok := k.handle(file)
	if !ok {
		x.fail("writes to %v", file)
	}
	x.check(st, "recording", at+": open", st.g("closed:"+h) == nil, pos.Pos(), "writes to a file that was closed")
	n, _ := st.constOf(st.gInt("writes:" + h))
	st.setG("writes:"+h, mkInt(n+1))
	fails := s.recfail == "write" || s.recfail == fmt.Sprint("write ", n+1)
	if fails {
		st.setG("logged", tZero)
		return ret(st, tZero, eio)
	}
	p := "file:" + gStr(st, "path:"+h)
	text := gStr(st, p)
	at0, _ := st.constOf(st.gInt("pos:" + h))
	for int64(len(text)) < at0 {
		text += "\x00"
	}
	end := at0 + int64(len(bs))
	rest := ""
	if end < int64(len(text)) {
		rest = text[end:]
	}
	st.setG(p, mkStr(text[:at0]+string(bs)+rest))
	st.setG("pos:"+h, mkInt(end))
	return ret(st, mkInt(int64(len(bs))), tNil)
}

// read takes up to max bytes at the handle's position.
func (k *recKit) read(st *State, h string, max int64) string {
	text := gStr(st, "file:"+gStr(st, "path:"+h))
	at, _ := st.constOf(st.gInt("pos:" + h))
	if at > int64(len(text)) {
		at = int64(len(text))
	}
	n := int64(len(text)) - at
	if max >= 0 && n > max {
		n = max
	}
	st.setG("pos:"+h, mkInt(at+n))
	return text[at : at+n]
}

func unIface(v *Term) *Term {
	if v.op == OIface {
		return v.args[0]
	}
	return v
}

// rest is what remains to be read from a reader, which is taken.
func (k *recKit) rest(x *X, st *State, rd *Term) string {
	rd = st.f.rw(rd)
	v := unIface(rd)
	if h, ok := k.handle(v); ok {
		return k.read(st, h, -1)
	}
	if rd.op == OIface {
		T, _ := rd.ref.(types.Type)
		switch {
		case T != nil && T.String() == "*io.LimitedReader":
			lr := T.(*types.Pointer).Elem()
			n, ok := st.constOf(st.f.rw(st.load(addrPath(v, mkFld(fieldIdx(lr, "N"))))))
			inner := unIface(st.f.rw(st.load(addrPath(v, mkFld(fieldIdx(lr, "R"))))))
			if h, okh := k.handle(inner); ok && okh {
				if n < 0 {
					n = 0
				}
				return k.read(st, h, n)
			}
		case T != nil && T.String() == "*bytes.Reader":
			br := T.(*types.Pointer).Elem()
			bs, ok := x.constBytes(st, st.load(addrPath(v, mkFld(fieldIdx(br, "s")))))
			at := addrPath(v, mkFld(fieldIdx(br, "i")))
			i, oki := st.constOf(st.f.rw(st.load(at)))
			if ok && oki && i <= int64(len(bs)) {
				st.store(at, mkInt(int64(len(bs))))
				return string(bs[i:])
			}
		case T != nil && T.String() == "*bytes.Buffer":
			b, off := bufFields(st, v)
			if b == tNil {
				return ""
			}
			bs, ok := x.constBytes(st, b)
			o, oko := st.constOf(off)
			if ok && oko {
				st.store(addrPath(v, mkFld(1)), mkInt(int64(len(bs))))
				return string(bs[o:])
			}
		}
	}
	x.fail("reads from %v", rd)
	return ""
}

func (k *recKit) call(x *X, st *State, ci *CallInfo, s frScene, at string, eio *Term) ([]Out, bool) {
	nm := ci.name()
	stamp := func(n int64) string { return fmt.Sprintf("2026-01-02T03:04:%02d.5Z", n) }
	fill := func(p *Term, text string) {
		p = st.f.rw(toSlice(p))
		for j := 0; j < len(text); j++ {
			st.store(addrPath(p.args[0], linK(p.args[1], int64(j))), mkInt(int64(text[j])))
		}
	}
	bytesOf := func(text string) *Term { return x.elemSlice(st, byteT, elemsOf(text)...) }
	failed := func(what string) bool {
		if s.recfail == what {
			st.setG("logged", tZero)
			return true
		}
		return false
	}
	refuses := func() bool {
		n, _ := st.constOf(st.gInt("reads"))
		st.setG("reads", mkInt(n+1))
		return failed(fmt.Sprint("read ", n+1))
	}
	switch {
	case strings.HasPrefix(nm, "log.Print"):
		st.setG("logged", tOne)
		return ret(st), true
	case ci.method != nil && ci.recv != nil && ci.method.Name() == "Update" && ci.recv == tok("the-client"):
		if st.g("replays") == tOne {
			x.check(st, "state", at+": loaded", st.g("client") != nil && st.g("client") != tNil, ci.site.Pos(), "the client's state was not read again")
			st.setG("replays", tNil)
		}
		if s.recfail != "" && s.recfail != "write" && s.recfail != "open" && !strings.HasPrefix(s.recfail, "read") {
			x.check(st, "recording", at+": reported", st.gInt("logged") != tZero, ci.site.Pos(), "that a recording cannot be made is not logged")
		}
		if s.recfail != "" && s.recfail != "write" && s.recfail != "open" && !strings.HasPrefix(s.recfail, "read") {
			hs := k.open(st)
			x.check(st, "recording", at+": given up", len(hs) == 0 && !k.exists(st, "auto.rec"), ci.site.Pos(), "files %v are open, and the file is still there (%v)", hs, k.exists(st, "auto.rec"))
		}
		return nil, false
	case nm == "os.Create", nm == "os.Open":
		path, ok := x.constBytes(st, ci.args[0])
		if !ok {
			x.fail("opens %v", ci.args[0])
		}
		if failed(map[string]string{"os.Create": "create", "os.Open": "open"}[nm]) {
			return ret(st, tNil, eio), true
		}
		p := string(path)
		if nm == "os.Create" {
			st.setG("file:"+p, mkStr(""))
		} else if !k.exists(st, p) {
			return ret(st, tNil, eio), true
		}
		n, _ := st.constOf(st.gInt("handles"))
		st.setG("handles", mkInt(n+1))
		h := fmt.Sprint("file#", n+1)
		x.check(st, "recording", at+": apart", len(k.open(st)) == 0, ci.site.Pos(), "%v are open as %s is opened", k.open(st), p)
		st.setG("path:"+h, mkStr(p))
		st.setG("pos:"+h, tZero)
		return ret(st, tok(h), tNil), true
	case nm == "os.Remove":
		path, ok := x.constBytes(st, ci.args[0])
		if !ok {
			x.fail("removes %v", ci.args[0])
		}
		x.check(st, "recording", at+": kept", s.recfail != "", ci.site.Pos(), "removes %s", path)
		st.setG("file:"+string(path), mkBool(false))
		return ret(st, tNil), true
	case nm == "(*os.File).Name":
		if h, ok := k.handle(ci.args[0]); ok {
			return ret(st, st.g("path:"+h)), true
		}
	case nm == "(*os.File).Close":
		if h, ok := k.handle(ci.args[0]); ok {
			x.check(st, "recording", at+": closed once", st.g("closed:"+h) == nil, ci.site.Pos(), "closes a file again")
			st.setG("closed:"+h, tOne)
			return ret(st, tNil), true
		}
	case nm == "(*os.File).Seek":
		if h, ok := k.handle(ci.args[0]); ok {
			if failed("seek") {
				return ret(st, tZero, eio), true
			}
			off, ok1 := st.constOf(st.f.rw(ci.args[1]))
			wh, ok2 := st.constOf(st.f.rw(ci.args[2]))
			if !ok1 || !ok2 {
				x.fail("seeks to %v", ci.args[1:])
			}
			base := int64(0)
			switch wh {
			case 1:
				base, _ = st.constOf(st.gInt("pos:" + h))
			case 2:
				base = int64(len(gStr(st, "file:"+gStr(st, "path:"+h))))
			}
			st.setG("pos:"+h, mkInt(base+off))
			return ret(st, mkInt(base+off), tNil), true
		}
	case nm == "(*os.File).Read":
		if h, ok := k.handle(ci.args[0]); ok {
			room, ok := st.constOf(st.f.rw(toSlice(st.f.rw(ci.args[1])).args[2]))
			if !ok {
				x.fail("reads into %v", ci.args[1])
			}
			if refuses() {
				return ret(st, tZero, eio), true
			}
			text := k.read(st, h, room)
			if text == "" && room > 0 {
				return ret(st, tZero, tok("EOF")), true
			}
			fill(ci.args[1], text)
			return ret(st, mkInt(int64(len(text))), tNil), true
		}
	case ci.method != nil && ci.recv != nil && ci.recv.op == OApp && ci.recv.name == "tok":
		if _, ok := k.handle(ci.recv); ok {
			c := *ci
			c.fn = k.w.prog.LookupMethod(types.NewPointer(k.w.prog.ImportedPackage("os").Type("File").Type()), nil, ci.method.Name())
			if c.fn != nil {
				c.method, c.args = nil, append([]*Term{ci.recv}, ci.args...)
				if ci.method.Name() == "Write" {
					bs, ok := x.constBytes(st, ci.args[0])
					if !ok {
						x.fail("writes %v", ci.args[0])
					}
					return k.write(x, st, ci.recv, bs, s, at, eio, ci.site), true
				}
				return k.call(x, st, &c, s, at, eio)
			}
		}
	case nm == "io.ReadFull", nm == "io.ReadAtLeast":
		if h, ok := k.handle(unIface(st.f.rw(ci.args[0]))); ok {
			room, ok := st.constOf(st.f.rw(toSlice(st.f.rw(ci.args[1])).args[2]))
			if !ok || nm != "io.ReadFull" {
				x.fail("reads into %v", ci.args[1])
			}
			if refuses() {
				return ret(st, tZero, eio), true
			}
			text := k.read(st, h, room)
			fill(ci.args[1], text)
			if int64(len(text)) < room {
				return ret(st, mkInt(int64(len(text))), tok("EOF")), true
			}
			return ret(st, mkInt(int64(len(text))), tNil), true
		}
	case nm == "io.LimitReader", nm == "bytes.NewReader":
		T := k.w.prog.ImportedPackage(map[bool]string{true: "io", false: "bytes"}[nm == "io.LimitReader"]).Type(map[bool]string{true: "LimitedReader", false: "Reader"}[nm == "io.LimitReader"]).Type()
		fs := []string{"R", "N"}
		if nm == "bytes.NewReader" {
			fs = []string{"s", "i"}
		}
		o := x.objWith(st, "reader", T, zeroVal(T))
		for i, a := range ci.args {
			st.store(addrPath(o, mkFld(fieldIdx(T, fs[i]))), a)
		}
		if nm == "bytes.NewReader" {
			return ret(st, o), true
		}
		return ret(st, mkIface(types.NewPointer(T), o)), true
	case nm == "io/ioutil.ReadAll", nm == "io.ReadAll":
		if refuses() {
			return ret(st, zeroVal(types.NewSlice(byteT)), eio), true
		}
		return ret(st, bytesOf(k.rest(x, st, ci.args[0])), tNil), true
	case nm == "fmt.Fprintf":
		dest := unIface(st.f.rw(ci.args[0]))
		vs, ok := x.elems(st, ci.args[2])
		f, okf := x.constBytes(st, ci.args[1])
		if _, okh := k.handle(dest); !ok || !okf || !okh {
			return nil, false
		}
		var a []any
		for _, v := range vs {
			n, ok := st.constOf(unIface(st.f.rw(v)))
			if !ok {
				x.fail("prints %v", v)
			}
			a = append(a, n)
		}
		return k.write(x, st, dest, []byte(fmt.Sprintf(string(f), a...)), s, at, eio, ci.site), true
	case nm == "bytes.Index", nm == "bytes.LastIndex", nm == "bytes.HasPrefix", nm == "bytes.HasSuffix", nm == "bytes.Contains", nm == "bytes.Equal":
		return searchBytes(x, st, ci, strings.TrimPrefix(nm, "bytes.")), true
	case nm == "bytes.IndexByte", nm == "bytes.LastIndexByte":
		bs, ok := x.constBytes(st, ci.args[0])
		c, okc := st.constOf(ci.args[1])
		if ok && okc {
			i := strings.IndexByte(string(bs), byte(c))
			if nm == "bytes.LastIndexByte" {
				i = strings.LastIndexByte(string(bs), byte(c))
			}
			return ret(st, mkInt(int64(i))), true
		}
	case strings.HasPrefix(nm, "(encoding/binary.") && (strings.HasSuffix(nm, "ndian).PutUint64") || strings.HasSuffix(nm, "ndian).Uint64")):
		big := strings.Contains(nm, "bigEndian")
		p := st.f.rw(toSlice(ci.args[1]))
		byteAt := func(i int) *Term {
			if !big {
				i = 7 - i
			}
			return addrPath(p.args[0], linK(p.args[1], int64(i)))
		}
		if strings.HasSuffix(nm, "PutUint64") {
			v, ok := st.constOf(st.f.rw(ci.args[2]))
			if !ok {
				x.fail("writes %v", ci.args[2])
			}
			for i := 0; i < 8; i++ {
				st.store(byteAt(i), mkInt(v>>(8*(7-i))&0xff))
			}
			return ret(st), true
		}
		v := int64(0)
		for i := 0; i < 8; i++ {
			b, ok := st.constOf(st.f.rw(st.load(byteAt(i))))
			if !ok {
				x.fail("reads unknown bytes")
			}
			v = v<<8 | b
		}
		return ret(st, mkInt(v)), true
	case nm == "(time.Time).AppendFormat":
		t := st.f.rw(ci.args[0])
		text := "?"
		if t.op == OApp && t.name == "now" {
			n, _ := st.constOf(t.args[0])
			text = stamp(n)
		}
		return ret(st, x.appendVal(st, ci.args[1], bytesOf(text), arrT(byteT))), true
	case nm == "(*time.Time).UnmarshalText":
		bs, ok := x.constBytes(st, ci.args[1])
		if !ok {
			x.fail("unmarshals %v", ci.args[1])
		}
		var n int64
		if _, err := fmt.Sscanf(string(bs), "2026-01-02T03:04:%02d.5Z", &n); err == nil && string(bs) == stamp(n) {
			T := ci.fn.Signature.Recv().Type().(*types.Pointer).Elem()
			st.store(ci.args[0], mkApp("now", T, mkInt(n)))
			return ret(st, tNil), true
		}
		return ret(st, newErr(mkStr("not a time"))), true

	// what is encoded is marked by "\x02", a number and "\x03", written in two parts
	case nm == "encoding/gob.NewEncoder", nm == "encoding/gob.NewDecoder":
		T := ci.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		n, _ := st.constOf(st.gInt("gobs"))
		st.setG("gobs", mkInt(n+1))
		o := x.objWith(st, fmt.Sprint("gob", n), T, zeroVal(T))
		st.setG(fmt.Sprint("gobio:", o), st.f.rw(ci.args[0]))
		return ret(st, o), true
	case nm == "(*encoding/gob.Encoder).Encode":
		n, _ := st.constOf(st.gInt("values"))
		st.setG("values", mkInt(n+1))
		v := st.f.rw(ci.args[1])
		if T, ok := v.ref.(types.Type); v.op == OIface && ok {
			if _, ptr := T.Underlying().(*types.Pointer); ptr && v.args[0] != tok("the-client") {
				v = mkIface(T.Underlying().(*types.Pointer).Elem(), st.load(v.args[0]))
			}
		}
		isClient := v == tok("the-client")
		st.setG(fmt.Sprint("value", n), v)
		if isClient && failed("encode client") || !isClient && failed("encode") {
			return ret(st, newErr(mkStr("cannot encode"))), true
		}
		to := st.g(fmt.Sprint("gobio:", ci.args[0]))
		if to == nil {
			x.fail("encodes with %v", ci.args[0])
		}
		outs := []Out{{st: st, ret: []*Term{tZero, tNil}}}
		for _, part := range []string{fmt.Sprint("\x02", n), "\x03"} {
			var next []Out
			for _, o := range outs {
				if o.panicked || !o.st.isTrue(mkEqv(o.ret[1], tNil)) {
					next = append(next, o)
					continue
				}
				st := o.st
				b := x.elemSlice(st, byteT, elemsOf(part)...)
				if _, ok := k.handle(unIface(to)); ok {
					next = append(next, k.write(x, st, unIface(to), []byte(part), s, at, eio, ci.site)...)
					continue
				}
				T, _ := to.ref.(types.Type)
				if to.op != OIface || T == nil {
					x.fail("encodes to %v", to)
				}
				if T.String() == "*bytes.Buffer" {
					if bufAppend(x, st, to.args[0], b) == nil {
						next = append(next, ret(st, mkInt(int64(len(part))), tNil)...)
					}
					continue
				}
				next = append(next, x.exec(st, k.w.promotedOf(T.(*types.Pointer).Elem(), "Write"), []*Term{to.args[0], b}, nil)...)
			}
			outs = next
		}
		for i := range outs {
			if !outs[i].panicked {
				outs[i].ret = outs[i].ret[1:]
			}
		}
		return outs, true
	case nm == "(*encoding/gob.Decoder).Decode":
		key := fmt.Sprint("gobio:", ci.args[0])
		from := st.g(key)
		if from == nil {
			x.fail("decodes with %v", ci.args[0])
		}
		text := from.name
		if from.op != OStr {
			text = k.rest(x, st, from)
		}
		e := strings.IndexByte(text, 3)
		if e < 0 || text[0] != 2 {
			if text == "" {
				return ret(st, tok("EOF")), true
			}
			return ret(st, newErr(mkStr("cannot decode"))), true
		}
		n, err := strconv.Atoi(text[1:e])
		v := st.g(fmt.Sprint("value", n))
		if err != nil || v == nil {
			x.fail("decodes %q", text)
		}
		st.setG(key, mkStr(text[e+1:]))
		to := st.f.rw(ci.args[1])
		if v == tok("the-client") || to == tok("the-client") {
			if v != to {
				return ret(st, newErr(mkStr("type mismatch"))), true
			}
			st.setG("client", mkInt(int64(n)))
			return ret(st, tNil), true
		}
		T, _ := to.ref.(types.Type)
		if to.op != OIface || T == nil || v.op != OIface || !types.Identical(T.(*types.Pointer).Elem(), v.ref.(types.Type)) {
			return ret(st, newErr(mkStr("type mismatch"))), true
		}
		st.store(to.args[0], v.args[0])
		return ret(st, tNil), true
	}
	return nil, false
}
