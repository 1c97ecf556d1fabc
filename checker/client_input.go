package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C22"] = c22 }

// inRead is one result of reading the input file: so many bytes, or a failure.
type inRead struct {
	n    int
	fail string // "eof", "block" or "err"
	text string // the bytes, rather than any
}

func (r inRead) String() string {
	if r.fail != "" {
		return r.fail
	}
	if r.text != "" {
		return fmt.Sprintf("%q", r.text)
	}
	return fmt.Sprint(r.n)
}

type inCall struct {
	any   bool
	reads []inRead
}

func (c inCall) String() string {
	n := "ReadMore"
	if c.any {
		n = "ReadAny"
	}
	return fmt.Sprint(n, c.reads)
}

// inScripts are histories of calls and what the file gives them.
func inScripts(thorough bool) [][]inCall {
	d := func(n int) inRead { return inRead{n: n} }
	eof, blk, bad := inRead{fail: "eof"}, inRead{fail: "block"}, inRead{fail: "err"}
	more := func(rs ...inRead) inCall { return inCall{false, rs} }
	any := func(rs ...inRead) inCall { return inCall{true, rs} }
	out := [][]inCall{
		{more(d(2))},
		{more(d(1)), more(d(3))},
		{more(blk, d(2)), more(d(1))},
		{more(blk, blk, d(1))},
		{more(d(1)), more(eof)},
		{more(eof), more(d(2))},
		{more(bad), more(d(1))},
		{more(blk, eof)},
		{more(blk, bad)},
		{any(blk)},
		{any(d(2), blk), any(blk), any(d(1), blk)},
		{any(d(3), d(1), blk), any(d(2), d(2), d(1), blk)},
		{any(d(1), eof)},
		{any(eof), any(d(1), blk)},
		{any(d(2), bad), any(d(1), blk)},
		{any(bad)},
		{more(d(1)), any(d(2), blk), more(blk, d(1)), any(blk), more(d(2))},
		{any(d(1), blk), more(eof)},
		{more(eof), any(blk)},
	}
	// keys that look like the start or end of a mark
	tx := func(s string) inRead { return inRead{n: len(s), text: s} }
	out = append(out, []inCall{more(tx("\x1b_")), more(d(1))}, []inCall{any(tx("\x1b_"), d(1), blk), any(tx("\x1b\\"), blk), any(blk)},
		[]inCall{more(tx("\x1b")), more(tx("_a")), more(tx("\x1b[A"))}, []inCall{more(tx("a\x1b_")), more(eof)}, []inCall{more(tx("\x1b\\")), any(tx("é"), tx("\x1b"), bad)})
	if thorough {
		ends := []inRead{blk, eof, bad}
		for _, a := range []inRead{d(1), d(2), eof, bad} {
			for _, e := range ends {
				out = append(out, []inCall{more(a), any(d(2), d(1), e), more(d(1))}, []inCall{any(d(1), e), more(blk, a), any(e)},
					[]inCall{any(e), more(a), any(d(1), d(1), d(1), e)})
			}
		}
	}
	return out
}

// c22: reading input and recording it.
func c22(r *Run) {
	w := r.w
	r.rule("read", "after a read the input holds what it held before followed by every byte that was read, each once and in order, and the count is theirs", 30)
	r.rule("outcome", "end of input and failures are reported and tracked, a read that would block is not: reading more goes on until there is something to report, and reads no further", 40)
	r.rule("record", "recording writes, for each call, when it was, its failure, and exactly the bytes it read", 30)
	r.rule("record-error", "a recording that fails is reported", 4)
	r.rule("replay", "replaying a recording gives back the reads: each with its time, failure and bytes", 20)
	r.rule("message", "other messages in a recording are passed through, in order", 3)
	inT, frmT := w.typ("", "Input"), w.typ("", "InputFrame")
	readMore, readAny := w.methodOf(inT, "ReadMore"), w.methodOf(inT, "ReadAny")
	atEOF, setRec := w.methodOf(inT, "AtEOF"), w.methodOf(inT, "SetRecording")
	replay := w.fn("", "ReadInputReplay")
	inErrT := w.typ("", "InputError")
	iF, iMin := fieldIdx(inT, "File"), fieldIdx(inT, "MinReadSize")
	fT, fE, fB, fM := fieldIdx(frmT, "T"), fieldIdx(frmT, "E"), fieldIdx(frmT, "B"), fieldIdx(frmT, "M")
	timeT := structOf(frmT).Field(fT).Type()
	pathErr := w.prog.ImportedPackage("os")
	if pathErr == nil {
		panic(anchorErr{"package os not found", false})
	}
	fsPkg := w.prog.ImportedPackage("io/fs")
	if fsPkg == nil || fsPkg.Type("PathError") == nil {
		panic(anchorErr{"io/fs.PathError not found", false})
	}
	pathErrT := fsPkg.Type("PathError").Type()
	errnoT := w.spkg["syscall"].Pkg.Scope().Lookup("Errno").Type()
	errno := func(name string) *Term {
		c := w.spkg["syscall"].Const(name)
		k, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
		return mkIface(errnoT, mkInt(k))
	}
	eofObj := globalObj(w.prog.ImportedPackage("io").Var("EOF"))
	eof := tok("EOF")
	file, dest := tok("input-file"), tok("recording")
	stamp := func(k int) string { return fmt.Sprintf("2026-01-02T03:04:%02d.5Z", k) }
	now := func(k int) *Term { return mkApp("now", timeT, mkInt(int64(k))) }
	recFails := tok("recording failed")

	// setup of the state and hooks for a script
	type env struct {
		in      *Term
		badErr  *Term // an error of a read
		script  []inRead
		recFail bool
	}
	setup := func(x *X, st *State) *env {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		e := &env{}
		st.setMem(eofObj, eof)
		mkErr := func(e *Term) *Term {
			v := withF(pathErrT, zeroVal(pathErrT), fieldIdx(pathErrT, "Err"), e)
			return mkIface(types.NewPointer(pathErrT), x.objWith(st, "patherr", pathErrT, v))
		}
		e.badErr = mkErr(errno("EIO"))
		block := mkErr(errno("EAGAIN"))
		e.in = x.objWith(st, "input", inT, withF(inT, zeroVal(inT), iF, file, iMin, mkInt(3)))
		x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
			if v.op == OApp && v.name == "tok" {
				return 0
			}
			return -1
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			nm := ci.name()
			switch {
			case nm == "(*os.File).Read":
				i := st.gInt("reads")
				k, _ := st.constOf(i)
				st.setG("reads", linK(i, 1))
				x.check(st, "outcome", "reads", ci.args[0] == file, ci.site.Pos(), "reads %v", ci.args[0])
				if int(k) >= len(e.script) {
					x.check(st, "outcome", "reads", false, ci.site.Pos(), "reads again after %v", e.script)
					return []Out{{st: st, panicked: true, pv: mkStr("stop")}}, true
				}
				rd := e.script[k]
				switch rd.fail {
				case "eof":
					return ret(st, tZero, eof), true
				case "block":
					return ret(st, tZero, block), true
				case "err":
					return ret(st, tZero, e.badErr), true
				}
				p := st.f.rw(toSlice(ci.args[1]))
				n := int64(rd.n)
				x.check(st, "read", "room", st.f.prove(linK(p.args[2], -n)), ci.site.Pos(), "reads into %v bytes", p.args[2])
				for j := int64(0); j < n; j++ {
					c, _ := st.constOf(st.gInt("bytes"))
					b := mkAtom(fmt.Sprint("byte", c), byteT)
					if rd.text != "" {
						b = mkInt(int64(rd.text[j]))
					} else if !st.assumeGe(linK(b, -0x20)) || !st.assumeGe(linK(linNeg(b), 0x5A)) {
						x.fail("cannot bound a byte")
					}
					st.setG(fmt.Sprint("arg", c), b)
					st.setG("bytes", linK(st.gInt("bytes"), 1))
					st.store(addrPath(p.args[0], linK(p.args[1], j)), b)
				}
				return ret(st, mkInt(n), tNil), true
			case nm == "(*os.File).Fd":
				return ret(st, mkInt(7)), true
			case nm == "syscall.Getpid":
				return ret(st, mkInt(9)), true
			case nm == "syscall.Syscall", nm == "syscall.Syscall6", nm == "syscall.RawSyscall":
				return ret(st, mkInt(2), tZero, tZero), true
			case nm == "time.Now":
				c := st.gInt("now")
				k, _ := st.constOf(c)
				st.setG("now", linK(c, 1))
				st.setG(fmt.Sprint("nowAt", k), st.gInt("reads"))
				return ret(st, now(int(k))), true
			case nm == "(time.Time).AppendFormat":
				t := st.f.rw(ci.args[0])
				if t.op != OApp || t.name != "now" {
					return ret(st, x.appendVal(st, ci.args[1], x.elemSlice(st, byteT, mkInt('?')), arrT(byteT))), true
				}
				var els []*Term
				for _, c := range []byte(stamp(int(t.args[0].k))) {
					els = append(els, mkInt(int64(c)))
				}
				f := st.f.rw(ci.args[2])
				if f.op != OStr || f.name != "2006-01-02T15:04:05.999999999Z07:00" {
					els = append(els, mkInt('?'))
				}
				return ret(st, x.appendVal(st, ci.args[1], x.elemSlice(st, byteT, els...), arrT(byteT))), true
			case nm == "(time.Time).IsZero":
				t := st.f.rw(ci.args[0])
				if t.op == OApp && t.name == "now" {
					return ret(st, tFalse), true
				}
				if t == zeroVal(timeT) {
					return ret(st, tTrue), true
				}
			case nm == "(*time.Time).UnmarshalText":
				bs, ok := x.elems(st, ci.args[1])
				if !ok {
					x.fail("unmarshals unknown text %v", ci.args[1])
				}
				s := ""
				for _, b := range bs {
					if k, ok := st.constOf(st.f.rw(b)); ok {
						s += string(rune(k))
					} else {
						s += "?"
					}
				}
				var k int
				if n, err := fmt.Sscanf(s, "2026-01-02T03:04:%02d.5Z", &k); n == 1 && err == nil && s == stamp(k) {
					st.store(ci.args[0], now(k))
					return ret(st, tNil), true
				}
				return ret(st, newErr(mkStr("not a time"))), true
			case ci.mname() == "Error" && len(ci.args) <= 1:
				v := ci.recv
				if v == nil && len(ci.args) == 1 {
					v = ci.args[0]
				}
				switch {
				case v == eof:
					return ret(st, mkStr("EOF")), true
				case v == e.badErr, v == e.badErr.args[0]:
					return ret(st, mkStr("read tty: input/output error")), true
				}
			case nm == "(*bytes.Buffer).Grow":
				return growModel(x, st, ci.args[0], ci.args[1], 0), true
			case nm == "(*bytes.Buffer).WriteTo":
				b, off := bufFields(st, ci.args[0])
				s := toSlice(b)
				to := ci.args[1]
				if to.op == OIface {
					to = to.args[0]
				}
				x.check(st, "record", "destination", to == dest, ci.site.Pos(), "writes to %v", to)
				content := x.contents(st, mkSlice(s.args[0], linAdd(s.args[1], off), linSub(s.args[2], off), linSub(s.args[3], off)))
				if e.recFail {
					st.setG("recfailed", tOne)
					return ret(st, tZero, recFails), true
				}
				recordTo(st, content)
				st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
				st.store(addrPath(ci.args[0], mkFld(1)), tZero)
				return ret(st, linSub(s.args[2], off), tNil), true
			case ci.method != nil && ci.method.Name() == "Write" && ci.recv == dest:
				if e.recFail {
					st.setG("recfailed", tOne)
					return ret(st, tZero, recFails), true
				}
				recordTo(st, x.contents(st, ci.args[0]))
				return ret(st, lenOf(ci.args[0]), tNil), true
			case nm == "io/ioutil.ReadAll", nm == "io.ReadAll":
				return ret(st, st.g("stored"), tNil), true
			case nm == "bytes.Index", nm == "bytes.LastIndex", nm == "bytes.HasPrefix", nm == "bytes.HasSuffix", nm == "bytes.Contains", nm == "bytes.Equal":
				return searchBytes(x, st, ci, strings.TrimPrefix(nm, "bytes.")), true
			}
			return nil, false
		}
		return e
	}
	noErr := func(st *State, e *Term) bool { return st.isTrue(mkEqv(e, tNil)) }

	type want struct {
		t   int // which call of time.Now
		err string
		b   []*Term
	}
	// play runs a script; f gets the final states
	play := func(x *X, st *State, e *env, calls []inCall, rec bool, nm string, f func(st *State, frames []want)) {
		// some bytes are left over from before, of which the first was taken
		left := x.elemSlice(st, byteT, mkInt('x'), mkAtom("left0", byteT), mkAtom("left1", byteT))
		ibuf := addrPath(e.in, fieldPath(inT, "buf")...)
		bufAppend(x, st, ibuf, left)
		st.store(addrPath(ibuf, mkFld(1)), tOne)
		for _, o := range x.exec(st, setRec, []*Term{e.in, map[bool]*Term{true: dest, false: tNil}[rec]}, nil) {
			var step func(st *State, i int, frames []want)
			step = func(st *State, i int, frames []want) {
				if i == len(calls) {
					f(st, frames)
					return
				}
				c := calls[i]
				at := fmt.Sprintf("%v: call %d", calls, i+1)
				e.script = nil
				for _, c := range calls[:i+1] {
					e.script = append(e.script, c.reads...)
				}
				before, fn := st.fork(), readMore
				if c.any {
					fn = readAny
				}
				old, off := bufFields(st, ibuf)
				olds, ok := x.elems(st, old)
				o0, ok0 := st.constOf(off)
				if !ok || !ok0 {
					x.fail("unknown buffer")
				}
				pre := olds[o0:]
				nb, _ := st.constOf(st.gInt("bytes"))
				wasEOF := st.gInt("eof") == tOne
				prevRec := recorded(st)
				for _, o := range x.exec(st, fn, []*Term{e.in}, nil) {
					if o.panicked {
						if o.pv == nil || o.pv.op != OStr || o.pv.name != "stop" {
							x.check(o.st, "read", at, false, fn.Pos(), "panics with %v", o.pv)
						}
						continue
					}
					st := o.st
					last := c.reads[len(c.reads)-1]
					var got []*Term
					for _, r := range c.reads {
						for j := 0; j < r.n; j++ {
							b := mkAtom(fmt.Sprint("byte", nb+int64(len(got))), byteT)
							if r.text != "" {
								b = mkInt(int64(r.text[j]))
							}
							got = append(got, b)
						}
					}
					rd, _ := st.constOf(st.gInt("reads"))
					br, _ := st.constOf(before.gInt("reads"))
					x.check(st, "outcome", at, int(rd-br) == len(c.reads), fn.Pos(), "reads %d times, not %v", rd-br, c.reads)
					b, off := bufFields(st, ibuf)
					bs, ok := x.elems(st, b)
					o1, ok1 := st.constOf(off)
					wantB := append(append([]*Term(nil), pre...), got...)
					ok = ok && ok1 && len(bs[o1:]) == len(wantB)
					if ok {
						for j, b := range bs[o1:] {
							ok = ok && st.eq(b, wantB[j])
						}
					}
					x.check(st, "read", at, ok, fn.Pos(), "the input holds %v from %v, want %v", bs, off, wantB)
					x.check(st, "read", at+": count", st.eq(o.ret[0], mkInt(int64(len(got)))), fn.Pos(), "counts %v bytes of %d", o.ret[0], len(got))
					if e.recFail && rec {
						if st.gInt("recfailed") == tOne {
							x.check(st, "record-error", at, st.isTrue(mkNot(mkEqv(o.ret[1], tNil))), fn.Pos(), "a failed recording returns %v", o.ret[1])
						}
						return
					}
					switch last.fail {
					case "eof":
						x.check(st, "outcome", at, st.eq(o.ret[1], eof), fn.Pos(), "end of input returns %v", o.ret[1])
						st.setG("eof", tOne)
					case "err":
						x.check(st, "outcome", at, st.eq(o.ret[1], e.badErr), fn.Pos(), "a failed read returns %v", o.ret[1])
						st.setG("eof", tZero)
					default:
						x.check(st, "outcome", at, noErr(st, o.ret[1]), fn.Pos(), "returns %v", o.ret[1])
						st.setG("eof", tZero)
					}
					for _, q := range x.exec(st.fork(), atEOF, []*Term{e.in}, nil) {
						x.check(q.st, "outcome", at+": at the end", q.st.eq(q.ret[0], mkBool(last.fail == "eof")), fn.Pos(), "at the end of input is %v", q.ret[0])
					}
					fr := frames
					if rec {
						wf := want{err: map[string]string{"eof": "EOF", "err": "read tty: input/output error"}[last.fail], b: got}
						tk, _ := st.constOf(st.gInt("now"))
						wf.t = int(tk) - 1
						added := recorded(st)[len(prevRec):]
						if last.fail == "eof" && wasEOF && len(added) == 0 {
							// a repeated end of input need not be recorded
						} else {
							exp := byteStr("\x1b_recTime:" + stamp(wf.t) + "\x1b\\")
							if wf.err != "" {
								exp = append(exp, byteStr("\x1b_recReadErr:"+wf.err+"\x1b\\")...)
							}
							exp = append(exp, got...)
							ok := len(added) == len(exp)
							for j := range exp {
								ok = ok && st.eq(added[j], exp[j])
							}
							x.check(st, "record", at, ok, fn.Pos(), "records %s, want %s", showBytes(added), showBytes(exp))
							when := st.gInt(fmt.Sprint("nowAt", wf.t))
							wantWhen := linK(mkInt(rd), 0)
							if c.any {
								wantWhen = mkInt(br)
							}
							x.check(st, "record", at+": time", st.eq(when, wantWhen), fn.Pos(), "takes the time after %v reads, want %v", when, wantWhen)
							fr = append(append([]want(nil), frames...), wf)
						}
					} else {
						x.check(st, "record", at+": not recording", len(recorded(st)) == 0, fn.Pos(), "records though not asked to")
					}
					step(st, i+1, fr)
				}
			}
			step(o.st, 0, nil)
		}
	}
	doReplay := func(x *X, st *State, nm string, data []*Term, f func(st *State, frames []*Term)) {
		s := x.elemSlice(st, byteT, data...)
		st.setG("stored", s)
		x.aliasAppend = true
		for _, o := range x.exec(st, replay, []*Term{file}, nil) {
			if o.panicked {
				x.check(o.st, "replay", nm, false, replay.Pos(), "panics with %v", o.pv)
				continue
			}
			x.check(o.st, "replay", nm+": accepted", noErr(o.st, o.ret[1]), replay.Pos(), "returns %v", o.ret[1])
			fs, ok := x.elems(o.st, o.ret[0])
			if !ok {
				x.fail("unknown frames %v", o.ret[0])
			}
			f(o.st, fs)
		}
		x.aliasAppend = false
	}
	sameBytes := func(x *X, st *State, s *Term, want []*Term) bool {
		bs, ok := x.elems(st, s)
		if !ok || len(bs) != len(want) {
			return false
		}
		for i := range bs {
			if !st.eq(bs[i], want[i]) {
				return false
			}
		}
		return true
	}
	for _, calls := range inScripts(r.tier == "thorough") {
		nm := fmt.Sprint(calls)
		r.analyse("reading "+nm, func(x *X) {
			st := newState()
			e := setup(x, st)
			play(x, st, e, calls, false, nm, func(st *State, fr []want) {})
		})
		r.analyse("recording "+nm, func(x *X) {
			st := newState()
			e := setup(x, st)
			play(x, st, e, calls, true, nm, func(st *State, fr []want) {
				doReplay(x, st, nm, recorded(st), func(st *State, got []*Term) {
					x.check(st, "replay", nm, len(got) == len(fr), replay.Pos(), "replays %d reads of %d", len(got), len(fr))
					for i := 0; i < len(got) && i < len(fr); i++ {
						at := fmt.Sprintf("%s: frame %d", nm, i+1)
						g := st.f.rw(got[i])
						x.check(st, "replay", at+": time", st.eq(fieldOf(g, fT, timeT), now(fr[i].t)), replay.Pos(), "has time %v", fieldOf(g, fT, timeT))
						x.check(st, "replay", at+": bytes", sameBytes(x, st, fieldOf(g, fB, nil), fr[i].b), replay.Pos(), "has bytes %v, want %v", fieldOf(g, fB, nil), fr[i].b)
						er := st.f.rw(fieldOf(g, fE, nil))
						if fr[i].err == "" {
							x.check(st, "replay", at+": failure", noErr(st, er), replay.Pos(), "has failure %v", er)
						} else {
							ok := er.op == OIface && er.ref == inErrT && sameBytes(x, st, er.args[0], byteStr(fr[i].err))
							x.check(st, "replay", at+": failure", ok, replay.Pos(), "has failure %v, want %s", er, fr[i].err)
						}
						ms, ok := x.elems(st, fieldOf(g, fM, nil))
						x.check(st, "replay", at+": no message", ok && len(ms) == 0, replay.Pos(), "has message %v", ms)
					}
				})
			})
		})
	}
	for _, calls := range inScripts(false) {
		nm := fmt.Sprint(calls)
		r.analyse("failing to record "+nm, func(x *X) {
			st := newState()
			e := setup(x, st)
			e.recFail = true
			play(x, st, e, calls[:1], true, nm, func(st *State, fr []want) {})
		})
	}
	// other messages
	for _, c := range []struct {
		text string
		want [][2]string // bytes, message
	}{
		{"\x1b_hello\x1b\\", [][2]string{{"", "hello"}}},
		{"ab\x1b_hello\x1b\\cd", [][2]string{{"ab", ""}, {"", "hello"}, {"cd", ""}}},
		{"\x1b_one\x1b\\\x1b_two\x1b\\\x1b[A", [][2]string{{"", "one"}, {"", "two"}, {"\x1b[A", ""}}},
		{"\x1b\x1b_m\x1b\\\x1b", [][2]string{{"\x1b", ""}, {"", "m"}, {"\x1b", ""}}},
		{"a\x1b_part", [][2]string{{"a\x1b_part", ""}}},
	} {
		nm := fmt.Sprintf("%q", c.text)
		r.analyse("replaying "+nm, func(x *X) {
			st := newState()
			setup(x, st)
			mark := byteStr("\x1b_recTime:" + stamp(0) + "\x1b\\")
			doReplay(x, st, nm, append(mark, byteStr(c.text)...), func(st *State, got []*Term) {
				// the frames without anything, a mere mark, do not matter
				var fs []*Term
				for _, g := range got {
					b, _ := x.elems(st, fieldOf(g, fB, nil))
					m, _ := x.elems(st, fieldOf(g, fM, nil))
					if len(b)+len(m) > 0 {
						fs = append(fs, g)
					}
				}
				x.check(st, "message", nm, len(fs) == len(c.want), replay.Pos(), "gives %d frames, want %q", len(fs), c.want)
				for i := 0; i < len(fs) && i < len(c.want); i++ {
					x.check(st, "message", fmt.Sprintf("%s: frame %d", nm, i+1), sameBytes(x, st, fieldOf(fs[i], fB, nil), byteStr(c.want[i][0])) && sameBytes(x, st, fieldOf(fs[i], fM, nil), byteStr(c.want[i][1])), replay.Pos(), "has bytes %v and message %v, want %q", fieldOf(fs[i], fB, nil), fieldOf(fs[i], fM, nil), c.want[i])
				}
			})
		})
	}
}

func byteStr(s string) []*Term {
	var out []*Term
	for i := 0; i < len(s); i++ {
		out = append(out, mkInt(int64(s[i])))
	}
	return out
}

func showBytes(bs []*Term) string {
	var sb strings.Builder
	for _, b := range bs {
		if b.op == OConst {
			if q := fmt.Sprintf("%q", string(rune(b.k))); true {
				sb.WriteString(q[1 : len(q)-1])
			}
			continue
		}
		fmt.Fprintf(&sb, "<%v>", b)
	}
	return sb.String()
}

// recordTo appends contents to what was recorded.
func recordTo(st *State, content *Term) {
	es, ok := catElems(catNorm(st, content))
	if !ok {
		panic(fmt.Sprintf("records unknown contents %v", content))
	}
	st.setG("recorded", mkApp("bytes", nil, append(recorded(st), es...)...))
}

func recorded(st *State) []*Term {
	if g := st.g("recorded"); g != nil {
		return append([]*Term(nil), g.args...)
	}
	return nil
}

// searchBytes models searching known-length contents for known-length ones.
func searchBytes(x *X, st *State, ci *CallInfo, what string) []Out {
	a, ok := x.elems(st, ci.args[0])
	b, ok2 := x.elems(st, ci.args[1])
	if !ok || !ok2 {
		x.fail("search in contents of unknown length")
	}
	at := func(st *State, i int) []*State { // states in which b is, and is not, at i
		yes, no := st.fork(), []*State(nil)
		for j := range b {
			n := yes.fork()
			if n.assume(mkEq0(linSub(a[i+j], b[j])), false) {
				no = append(no, n)
			}
			if !yes.assume(mkEq0(linSub(a[i+j], b[j])), true) {
				yes = nil
				break
			}
		}
		return append([]*State{yes}, no...)
	}
	var idx []int
	boolean := false
	switch what {
	case "Index", "Contains":
		for i := 0; i+len(b) <= len(a); i++ {
			idx = append(idx, i)
		}
		boolean = what == "Contains"
	case "LastIndex":
		for i := len(a) - len(b); i >= 0; i-- {
			idx = append(idx, i)
		}
	case "HasPrefix":
		boolean = true
		if len(b) <= len(a) {
			idx = []int{0}
		}
	case "HasSuffix":
		boolean = true
		if len(b) <= len(a) {
			idx = []int{len(a) - len(b)}
		}
	case "Equal":
		boolean = true
		if len(b) == len(a) {
			idx = []int{0}
		}
	}
	var outs []Out
	cur := []*State{st}
	for _, i := range idx {
		var next []*State
		for _, s := range cur {
			rs := at(s, i)
			if rs[0] != nil {
				v := mkInt(int64(i))
				if boolean {
					v = tTrue
				}
				outs = append(outs, Out{st: rs[0], ret: []*Term{v}})
			}
			next = append(next, rs[1:]...)
		}
		cur = next
	}
	for _, s := range cur {
		v := mkInt(-1)
		if boolean {
			v = tFalse
		}
		outs = append(outs, Out{st: s, ret: []*Term{v}})
	}
	return outs
}
