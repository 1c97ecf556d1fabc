package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C15"] = c15 }

// vop is one operation on a writer that tracks what it is given.
type vop struct {
	nm     string
	direct bool // updates the tracked state itself
	args   func(x *X, st *State) []*Term
	enc    func(x *X, st *State, cur *Term) (n []*Term, after *Term) // bytes appended, cursor after (direct)
}

// accountHook replaces Process by recording what it is handed: ghost "seen"
// is everything handed over, less what it left unconsumed; "proc" who got it.
func accountHook(process *ssa.Function, partial bool) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn != process {
			return nil, false
		}
		p := ci.args[1]
		st.setG("proc", ci.args[0])
		st.setG("handed", x.contents(st, p))
		full := st.fork()
		full.setG("left", mkCat(nil))
		outs := ret(full, lenOf(p))
		if partial && p.op == OSlice {
			q := st.fork()
			m := freshVal("consumed", intT)
			if q.assumeGe(m) && q.assumeGe(linK(linSub(lenOf(p), m), -1)) {
				q.setG("left", x.contents(q, mkSlice(p.args[0], linAdd(p.args[1], m), linSub(p.args[2], m), linSub(p.args[3], m))))
				outs = append(outs, ret(q, m)...)
			}
		}
		return outs, true
	}
}

func catJoin(st *State, cs ...*Term) *Term {
	var ps []*Term
	for _, c := range cs {
		if c == nil {
			continue
		}
		c = catNorm(st, c)
		if c.op == OCat {
			ps = append(ps, c.args...)
		} else {
			ps = append(ps, c)
		}
	}
	return catSplit(st, catNorm(st, mkCat(ps)))
}

// catSplit takes chunks of joined contents apart where the facts place their
// ends; runs of single elements stay together.
func catSplit(st *State, c *Term) *Term {
	if c.op != OCat {
		return c
	}
	var out []*Term
	for _, p := range c.args {
		if p.op != OChunk || p.args[0].op != OCat {
			out = append(out, p)
			continue
		}
		off, n := p.args[1], p.args[2]
		parts := p.args[0].args
		for len(parts) > 0 {
			k := 1
			for parts[0].op == OElem && k < len(parts) && parts[k].op == OElem {
				k++
			}
			run := parts[:k]
			l := catLen(mkCat(run))
			if st.f.prove(linSub(off, l)) { // before the chunk
				off, parts = linSub(off, l), parts[k:]
				continue
			}
			if !st.f.prove(linSub(l, off)) || !st.f.prove(linSub(n, linSub(l, off))) {
				break
			}
			take := linSub(l, off)
			switch {
			case st.eq(off, tZero):
				out = append(out, run...)
			case k == 1 && run[0].op == OChunk:
				out = append(out, mkChunk(run[0].args[0], linAdd(run[0].args[1], off), take))
			default:
				out = append(out, mkChunk(mkCat(run), off, take))
			}
			off, n, parts = tZero, linSub(n, take), parts[k:]
		}
		if len(parts) > 0 && st.f.decide(mkEq0(n)) != 1 {
			out = append(out, mkChunk(mkCat(parts), off, n))
		}
	}
	return catNorm(st, mkCat(out))
}

// writeErrs are the errors a failing write is given.
func (w *World) writeErrs() (again, hard *Term) {
	en := w.prog.ImportedPackage("syscall").Type("Errno").Type()
	return mkIface(en, mkInt(11)), mkIface(en, mkInt(5))
}

// bufWriteHook gives bytes.Buffer.WriteTo its outcomes: all written, or fewer
// with an error; ghost "gave" is what was there to write, "wrote" how much was.
func bufWriteHook(again, hard *Term) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn == nil || ci.fn.String() != "(*bytes.Buffer).WriteTo" {
			return nil, false
		}
		for _, o := range models["(*bytes.Buffer).Bytes"](x, st, ci) {
			st.setG("gave", x.contents(st, o.ret[0]))
		}
		var outs []Out
		for i, o := range models["(*bytes.Buffer).WriteTo"](x, st, ci) {
			if i == 0 {
				o.st.setG("werr", tNil)
				o.st.setG("wkind", tNil)
				o.st.setG("wrote", o.ret[0])
				outs = append(outs, o)
				continue
			}
			if g := st.g("gave"); g.op == OCat && len(g.args) == 0 {
				continue // nothing to write cannot fail
			}
			pe := x.prog.ImportedPackage("os").Type("SyscallError").Type()
			pt := structOf(pe)
			for i, e := range []*Term{again, hard, again} {
				s := o.st.fork()
				s.setG("wkind", e)
				if i == 2 { // as files report it
					na := append([]*Term(nil), zeroVal(pe).args...)
					for f := 0; f < pt.NumFields(); f++ {
						if pt.Field(f).Name() == "Err" {
							na[f] = e
						}
					}
					e = mkIface(types.NewPointer(pe), x.objWith(s, "wrapped", pe, mkStruct(pe, na...)))
				}
				s.setG("werr", e)
				s.setG("wrote", o.ret[0])
				outs = append(outs, ret(s, o.ret[0], e)...)
			}
		}
		return outs, true
	}
}

func c15(r *Run) {
	w := r.w
	r.rule("once", "every byte written is handed to the tracked state exactly once, in order: by processing it, or by an operation updating the state itself", 100)
	r.rule("incomplete", "what processing leaves unconsumed is handed over again, with what follows", 6)
	r.rule("written", "exactly the bytes written come out, in order", 60)
	r.rule("count", "operations report the number of bytes they added", 60)
	r.rule("flush", "after a successful write the real state is the current one; after one that would block the rest stays to be written and the real state is unknown; after any other failure all is dropped and unknown", 30)
	r.rule("reset", "a reset drops what is unwritten and returns to the real state", 10)
	r.rule("discard", "discarding drops exactly the processed bytes", 4)

	g := newGeom(w)
	process := w.fn("", "Process")
	curT, vcT, vsT, bufT := w.typ("", "Cursor"), w.typ("", "VirtualCursor"), w.typ("", "VirtualScreen"), w.typ("", "Buffer")
	seqT := w.typ("ansi", "Seq")
	seqAppend := w.methodOf(seqT, "AppendTo")
	attrAppend := w.methodOf(w.typ("ansi", "SGRAttr"), "AppendTo")
	esc := w.typ("ansi", "Escape")
	with := w.methodOf(esc, "With")
	attrT := w.typ("ansi", "SGRAttr")
	cm := func(n string) *ssa.Function { return w.methodOf(curT, n) }
	const cup, cuf = 0xEFC8, 0xEFC3
	again, hard := w.writeErrs()
	arr := func(x *X, st *State, fn *ssa.Function, args ...*Term) *Term {
		outs := x.exec(st.fork(), fn, args, nil)
		if len(outs) != 1 || outs[0].panicked {
			x.fail("%s of constants has %d outcomes", fn, len(outs))
		}
		return x.contents(outs[0].st, outs[0].ret[0])
	}
	encSeq := func(x *X, st *State, s *Term) []*Term {
		return arr(x, st, seqAppend, s, tNil).args
	}
	encAttr := func(x *X, st *State, a *Term) []*Term {
		if st.eq(a, tZero) {
			return nil
		}
		return arr(x, st, attrAppend, a, tNil).args
	}
	mkSeq := func(x *X, st *State, id int64, args string) *Term {
		a := tNil
		if args != "" {
			var els []*Term
			for _, b := range []byte(args) {
				els = append(els, mkInt(int64(b)))
			}
			a = x.elemSlice(st, byteT, els...)
		}
		outs := x.exec(st, with, []*Term{mkInt(id), a}, nil)
		if len(outs) != 1 || outs[0].panicked {
			x.fail("building a constant sequence has %d outcomes", len(outs))
		}
		return outs[0].ret[0]
	}
	// apply one Cursor method to a copy of cur: what it returns, and leaves
	onCursor := func(x *X, st *State, cur *Term, m string, args ...*Term) (*Term, *Term) {
		s := st.fork()
		p := x.objWith(s, "copy", curT, cur)
		outs := x.exec(s, cm(m), append([]*Term{p}, args...), nil)
		if len(outs) != 1 || outs[0].panicked {
			x.fail("Cursor.%s of constants has %d outcomes", m, len(outs))
		}
		return outs[0].ret[0], outs[0].st.load(p)
	}
	bT, rT := byteT, types.Typ[types.Int32]
	str := mkAtom("text", types.Typ[types.String])
	by := symSlice("bytes", byteT)
	b0 := mkAtom("b", bT)
	_ = rT
	const red, blueB = 1<<32 | 1<<7, 1<<58 | 4<<33 // foreground 1, background 4
	nSeq := 0
	freshBytes := func() *Term { nSeq++; return symSlice(fmt.Sprint("bytes", nSeq), byteT) }
	_ = freshBytes
	chunkOf := func(v *Term) []*Term { return []*Term{chunkP(v)} }

	writes := []vop{
		{"Write", false, func(x *X, st *State) []*Term { return []*Term{by} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return x.contents(st, by).args, nil }},
		{"WriteString", false, func(x *X, st *State) []*Term { return []*Term{str} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return chunkOf(str), nil }},
		{"WriteRune", false, func(x *X, st *State) []*Term { return []*Term{mkInt(0x2801)} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return strP("\u2801"), nil }},
		{"WriteByte", false, func(x *X, st *State) []*Term { return []*Term{b0} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return []*Term{elemP(b0)}, nil }},
		{"WriteESC", false, func(x *X, st *State) []*Term { return []*Term{x.elemSlice(st, esc, mkInt(cup), mkInt(cuf))} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return strP("\x1b[H\x1b[C"), nil }},
		{"WriteSeq", false, func(x *X, st *State) []*Term {
			return []*Term{x.elemSlice(st, seqT, mkSeq(x, st, cup, "2;3"), zeroVal(seqT), mkSeq(x, st, cuf, "7"))}
		}, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return strP("\x1b[2;3H\x1b[7C"), nil }},
	}
	sgr := vop{"WriteSGR", true, func(x *X, st *State) []*Term {
		return []*Term{x.elemSlice(st, attrT, mkInt(red), mkInt(red|2), mkInt(red|2), mkInt(blueB))}
	}, func(x *X, st *State, cur *Term) ([]*Term, *Term) {
		var out []*Term
		for _, a := range []int64{red, red | 2, red | 2, blueB} {
			var d *Term
			d, cur = onCursor(x, st, cur, "MergeSGR", mkInt(a))
			out = append(out, encAttr(x, st, d)...)
		}
		return out, cur
	}}
	viaSeq := func(nm, m string, args ...*Term) vop {
		return vop{nm, true, func(x *X, st *State) []*Term { return args }, func(x *X, st *State, cur *Term) ([]*Term, *Term) {
			s, after := onCursor(x, st, cur, m, args...)
			return encSeq(x, st, s), after
		}}
	}
	pt := func(x, y int64) *Term { return g.Pt(mkInt(x), mkInt(y)) }
	iPoint, iAttr, iVis := fieldIdx(curT, "Point"), fieldIdx(curT, "Attr"), fieldIdx(curT, "Visible")
	mkCur := func(p *Term, a int64, vis bool) *Term {
		na := append([]*Term(nil), zeroVal(curT).args...)
		na[iPoint], na[iAttr], na[iVis] = p, mkInt(a), mkBool(vis)
		return mkStruct(curT, na...)
	}
	applyTo := func(nm string, cs *Term) vop {
		return vop{nm, true, func(x *X, st *State) []*Term { return []*Term{cs} }, func(x *X, st *State, cur *Term) ([]*Term, *Term) {
			var out []*Term
			if st.eq(fieldOf(cs, iVis, types.Typ[types.Bool]), tTrue) {
				var s, d *Term
				s, cur = onCursor(x, st, cur, "To", fieldOf(cs, iPoint, g.pt))
				out = append(out, encSeq(x, st, s)...)
				d, cur = onCursor(x, st, cur, "MergeSGR", fieldOf(cs, iAttr, attrT))
				out = append(out, encAttr(x, st, d)...)
				s, cur = onCursor(x, st, cur, "Show")
				return append(out, encSeq(x, st, s)...), cur
			}
			s, cur := onCursor(x, st, cur, "Hide")
			return encSeq(x, st, s), cur
		}}
	}
	cursorOps := append(append([]vop{}, writes...), sgr,
		viaSeq("To", "To", pt(4, 2)), viaSeq("To", "To", pt(5, 2)), viaSeq("Show", "Show"), viaSeq("Hide", "Hide"),
		applyTo("Apply", mkCur(pt(3, 9), red, true)), applyTo("Apply", mkCur(pt(1, 1), blueB, false)))
	screenOps := append(append([]vop{}, writes...), sgr)
	screenSGR := func(x *X, st *State, cur *Term) ([]*Term, *Term) { return sgr.enc(x, st, cur) }
	screenOps[len(screenOps)-1].enc = screenSGR

	type kind struct {
		nm   string
		t    types.Type
		cur  func(st *State, obj *Term) *Term // the tracked cursor
		ops  []vop
		real bool
	}
	ivc := fieldPath(vcT, "Cursor")
	ivs := fieldPath(vsT, "Screen", "Cursor")
	ivr := fieldPath(vcT, "Real")
	kinds := []kind{
		{"VirtualCursor", vcT, func(st *State, obj *Term) *Term { return st.load(addrPath(obj, ivc...)) }, cursorOps, true},
		{"VirtualScreen", vsT, func(st *State, obj *Term) *Term { return st.load(addrPath(obj, ivs...)) }, screenOps, false},
	}
	// step runs one operation and judges it; then calls next
	step := func(x *X, st *State, k kind, obj *Term, hist string, op vop, next func(st *State)) {
		fn := w.methodOf(k.t, op.nm)
		args := append([]*Term{obj}, op.args(x, st)...)
		before := k.cur(st, obj)
		left := st.g("left")
		st.setG("handed", nil)
		st.setG("proc", nil)
		enc, after := op.enc(x, st, before)
		nb := tZero
		for _, p := range enc {
			if p.op == OElem {
				nb = linK(nb, 1)
			} else {
				nb = linAdd(nb, p.args[2])
			}
		}
		for _, o := range x.exec(st, fn, args, nil) {
			if o.panicked {
				x.check(o.st, "once", hist, false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			news := mkCat(enc)
			handed := o.st.g("handed")
			if handed != nil {
				handed = catJoin(o.st, handed)
			}
			now := k.cur(o.st, obj)
			all := catJoin(o.st, left, news)
			fullyHanded := handed != nil && sameBytes(o.st, handed, all)
			if catEmpty(all) {
				fullyHanded = handed == nil || catEmpty(handed)
			}
			if fullyHanded && !catEmpty(all) {
				pr := o.st.g("proc")
				x.check(o.st, "once", hist+": to the tracked state", pr != nil && pr.op == OIface && pr.args[0].op == OAddr && pr.args[0].args[0] == obj.args[0], fn.Pos(), "processed into %v", pr)
			}
			if op.direct && (handed == nil || catEmpty(handed)) {
				x.check(o.st, "once", hist, o.st.eq(now, after) || sameStruct(o.st, now, after), fn.Pos(), "the tracked cursor becomes %v, the bytes written make it %v", now, after)
			} else {
				x.check(o.st, "once", hist, fullyHanded && sameStruct(o.st, now, before), fn.Pos(), "wrote %s after leaving %s unprocessed; processed %s, and changed the cursor from %v to %v", elemsStr(news), elemsStr(catJoin(o.st, left)), elemsStr(catJoin(o.st, handed)), before, now)
			}
			if len(o.ret) > 0 && isIntTerm(o.ret[0]) && op.nm != "Apply" && op.nm != "WriteByte" {
				x.check(o.st, "count", hist, o.st.eq(o.ret[0], nb), fn.Pos(), "reports %v bytes, wrote %v", o.ret[0], nb)
			}
			o.st.setG("written", catJoin(o.st, o.st.g("written"), news))
			next(o.st)
		}
	}
	flushHook := bufWriteHook(again, hard)
	hooks := func(x *X, partial bool) {
		acc := accountHook(process, partial)
		x.precise, x.noMerge = true, true
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			if outs, ok := acc(x, st, ci); ok {
				return outs, true
			}
			return flushHook(x, st, ci)
		}
	}
	// flushing checks what comes out
	flush := func(x *X, st *State, k kind, obj *Term, hist string, next func(st *State, e *Term)) {
		fn := w.methodOf(k.t, "WriteTo")
		cur := k.cur(st, obj)
		st.setG("gave", nil)
		for _, o := range x.exec(st, fn, []*Term{obj, tok("file")}, nil) {
			if o.panicked {
				x.check(o.st, "flush", hist, false, fn.Pos(), "panics with %v", o.pv)
				continue
			}
			gave, wrote, e := o.st.g("gave"), o.st.g("wrote"), o.st.g("werr")
			if gave == nil || e == nil {
				gave, wrote, e = mkCat(nil), tZero, tNil
			}
			want := catJoin(o.st, o.st.g("written"))
			x.check(o.st, "written", hist, sameBytes(o.st, gave, want), fn.Pos(), "writes out %s, was given %s", elemsStr(gave), elemsStr(want))
			x.check(o.st, "flush", hist+": report", o.st.eq(o.ret[0], wrote) && o.st.isTrue(mkEqv(o.ret[1], e)), fn.Pos(), "reports %v, wrote %v with error %v", o.ret, wrote, e)
			now, real := k.cur(o.st, obj), o.st.load(addrPath(obj, ivr...))
			zero := zeroVal(curT)
			kind := o.st.g("wkind")
			if gave == nil || e == tNil {
				kind = tNil
			}
			switch kind {
			case tNil:
				x.check(o.st, "flush", hist+": success", sameStruct(o.st, now, cur) && sameStruct(o.st, real, cur), fn.Pos(), "after writing everything, the cursor is %v and the real one %v, both should be %v", now, real, cur)
				o.st.setG("written", nil)
			case again:
				x.check(o.st, "flush", hist+": would block", sameStruct(o.st, now, cur) && sameStruct(o.st, real, zero), fn.Pos(), "after writing some, the cursor is %v (was %v) and the real one %v", now, cur, real)
				o.st.setG("written", catDrop(x, o.st, want, wrote))
			default:
				x.check(o.st, "flush", hist+": failure", sameStruct(o.st, now, zero) && sameStruct(o.st, real, zero), fn.Pos(), "after a failed write, the cursor is %v and the real one %v", now, real)
				o.st.setG("written", nil)
			}
			next(o.st, e)
		}
	}
	done := func(*State) {}
	for _, k := range kinds {
		for i, a := range k.ops {
			for j, b := range k.ops {
				hist := fmt.Sprintf("%s: %s.%d then %s.%d", k.nm, a.nm, i, b.nm, j)
				r.analyse(hist, func(x *X) {
					hooks(x, false)
					st := newState()
					obj := x.objWith(st, "writer", k.t, zeroVal(k.t))
					step(x, st, k, obj, hist, a, func(st *State) {
						step(x, st, k, obj, hist, b, func(st *State) {
							step(x, st, k, obj, hist+" then Write", k.ops[0], func(st *State) {
								if k.real {
									flush(x, st, k, obj, hist, func(*State, *Term) {})
								}
							})
						})
					})
				})
			}
			hist := fmt.Sprintf("%s: %s.%d", k.nm, a.nm, i)
			if !a.direct {
				r.analyse(hist+" in pieces", func(x *X) {
					hooks(x, true)
					st := newState()
					obj := x.objWith(st, "writer", k.t, zeroVal(k.t))
					step(x, st, k, obj, hist+" in pieces", a, func(st *State) {
						l := st.g("left")
						fn := w.methodOf(k.t, "Write")
						for _, o := range x.exec(st, fn, []*Term{obj, by}, nil) {
							want := catJoin(o.st, l, x.contents(o.st, by))
							h := o.st.g("handed")
							x.check(o.st, "incomplete", hist, !o.panicked && h != nil && sameBytes(o.st, h, want), fn.Pos(), "with %s left unprocessed, processing gets %s", elemsStr(catJoin(o.st, l)), elemsStr(catJoin(o.st, h)))
						}
					})
				})
			}
			if !k.real {
				continue
			}
			r.analyse(hist+" written out", func(x *X) {
				hooks(x, false)
				st := newState()
				obj := x.objWith(st, "writer", k.t, zeroVal(k.t))
				step(x, st, k, obj, hist, a, func(st *State) {
					flush(x, st, k, obj, hist+" written", func(st *State, e *Term) {
						h := fmt.Sprintf("%s written with error %v", hist, e)
						step(x, st.fork(), k, obj, h+" then Write", k.ops[0], func(st *State) {
							flush(x, st, k, obj, h+", Write, written", func(*State, *Term) {})
						})
						// reset after something more
						step(x, st, k, obj, h+" then To", viaSeq("To", "To", pt(7, 7)), func(st *State) {
							fn := w.methodOf(k.t, "Reset")
							real := st.load(addrPath(obj, ivr...))
							for _, o := range x.exec(st, fn, []*Term{obj}, nil) {
								x.check(o.st, "reset", h, !o.panicked && sameStruct(o.st, k.cur(o.st, obj), real) && sameStruct(o.st, o.st.load(addrPath(obj, ivr...)), real), fn.Pos(), "the cursor becomes %v, the real one %v, which was %v", k.cur(o.st, obj), o.st.load(addrPath(obj, ivr...)), real)
								o.st.setG("written", nil)
								step(x, o.st, k, obj, h+", Reset, Write", k.ops[0], func(st *State) {
									flush(x, st, k, obj, h+", Reset, Write, written", func(*State, *Term) {})
								})
							}
						})
					})
				})
			})
		}
	}
	_ = done
	c15buffer(r, bufT, process, writes, vop{"WriteSGR", false, func(x *X, st *State) []*Term {
		return []*Term{x.elemSlice(st, attrT, mkInt(red), tZero, mkInt(1), mkInt(blueB))}
	}, func(x *X, st *State, cur *Term) ([]*Term, *Term) { return strP("\x1b[31m\x1b[0m\x1b[44m"), nil }}, hooks, again)
}

// catDrop is the content c without its first n bytes.
func catDrop(x *X, st *State, c, n *Term) *Term {
	return mkCat([]*Term{mkChunk(c, n, linSub(catLen(c), n))})
}

func catEmpty(c *Term) bool { return c != nil && c.op == OCat && len(c.args) == 0 }

// sameStruct compares values field by field under the facts.
func sameStruct(st *State, a, b *Term) bool {
	a, b = st.f.rw(a), st.f.rw(b)
	if a == b || st.eq(a, b) {
		return true
	}
	if a.op != OStruct || b.op != OStruct || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if !sameStruct(st, a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// c15buffer: the plain buffer, processed and discarded by its user.
func c15buffer(r *Run, bufT types.Type, process *ssa.Function, writes []vop, sgr vop, hooks func(x *X, partial bool), again *Term) {
	w := r.w
	bm := func(n string) *ssa.Function { return w.methodOf(bufT, n) }
	by := symSlice("bytes", byteT)
	proc := tok("processor")
	for i, op := range append(append([]vop{}, writes...), sgr) {
		hist := fmt.Sprintf("Buffer: %s.%d", op.nm, i)
		r.analyse(hist, func(x *X) {
			hooks(x, true)
			st := newState()
			obj := x.objWith(st, "buffer", bufT, zeroVal(bufT))
			var written *Term
			write := func(st *State, op vop, next func(st *State)) {
				enc, _ := op.enc(x, st, nil)
				fn := bm(op.nm)
				st.setG("handed", nil)
				for _, o := range x.exec(st, fn, append([]*Term{obj}, op.args(x, st)...), nil) {
					if o.panicked {
						x.check(o.st, "written", hist, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					if op.nm != "WriteByte" {
						x.check(o.st, "count", hist, o.st.eq(o.ret[0], catLen(mkCat(enc))), fn.Pos(), "reports %v bytes, wrote %s", o.ret[0], elemsStr(mkCat(enc)))
					}
					x.check(o.st, "once", hist+": writing processes nothing", o.st.g("handed") == nil, fn.Pos(), "processes %v", o.st.g("handed"))
					o.st.setG("written", catJoin(o.st, o.st.g("written"), mkCat(enc)))
					next(o.st)
				}
			}
			_ = written
			bytesAre := func(st *State, rule, h string, want *Term) {
				fn := bm("Bytes")
				for _, o := range x.exec(st.fork(), fn, []*Term{obj}, nil) {
					if o.panicked {
						x.check(o.st, rule, h, false, fn.Pos(), "panics")
						continue
					}
					got := x.contents(o.st, o.ret[0])
					x.check(o.st, rule, h, sameBytes(o.st, got, want), fn.Pos(), "holds %s, want %s", elemsStr(got), elemsStr(catJoin(o.st, want)))
				}
				fn = bm("Len")
				for _, o := range x.exec(st.fork(), fn, []*Term{obj}, nil) {
					x.check(o.st, rule, h+": length", !o.panicked && o.st.eq(o.ret[0], catLen(want)), fn.Pos(), "has length %v, want %v", o.ret, catLen(want))
				}
			}
			doProcess := func(st *State, h string, want *Term, next func(st *State)) {
				fn := bm("Process")
				st.setG("handed", nil)
				for _, o := range x.exec(st, fn, []*Term{obj, proc}, nil) {
					if o.panicked {
						x.check(o.st, "once", h, false, fn.Pos(), "panics with %v", o.pv)
						continue
					}
					got := o.st.g("handed")
					if got != nil {
						got = catJoin(o.st, got)
					}
					ok := got != nil && sameBytes(o.st, got, want) || catEmpty(want) && (got == nil || catEmpty(got))
					x.check(o.st, "once", h, ok, fn.Pos(), "processes %s, want %s", elemsStr(catJoin(o.st, got)), elemsStr(catJoin(o.st, want)))
					next(o.st)
				}
			}
			write(st, op, func(st *State) {
				all := st.g("written")
				bytesAre(st, "written", hist, all)
				doProcess(st, hist+" processed", all, func(st *State) {
					left := st.g("left")
					bytesAre(st, "written", hist+" processed", all)
					// more, processed again
					write(st.fork(), writes[0], func(st *State) {
						bytesAre(st, "written", hist+" processed, Write", st.g("written"))
						doProcess(st, hist+" processed, Write, processed", catJoin(st, left, x.contents(st, by)), func(*State) {})
					})
					// discarded
					fn := bm("Discard")
					for _, o := range x.exec(st.fork(), fn, []*Term{obj}, nil) {
						if o.panicked {
							x.check(o.st, "discard", hist, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						bytesAre(o.st, "discard", hist, left)
						write(o.st, writes[0], func(st *State) {
							doProcess(st, hist+" discarded, Write, processed", catJoin(st, left, x.contents(st, by)), func(*State) {})
						})
					}
					// skipped
					fn = bm("Skip")
					write(st.fork(), writes[0], func(st *State) {
						if !catEmpty(left) {
							return
						}
						for _, o := range x.exec(st, fn, []*Term{obj, lenOf(by)}, nil) {
							write(o.st, writes[1], func(st *State) {
								enc, _ := writes[1].enc(x, st, nil)
								doProcess(st, hist+" skipped, WriteString, processed", mkCat(enc), func(*State) {})
							})
						}
					})
					// reset
					fn = bm("Reset")
					for _, o := range x.exec(st.fork(), fn, []*Term{obj}, nil) {
						bytesAre(o.st, "reset", hist, mkCat(nil))
						write(o.st, writes[0], func(st *State) {
							doProcess(st, hist+" reset, Write, processed", x.contents(st, by), func(*State) {})
						})
					}
					// written out, in part or whole
					fn = bm("WriteTo")
					for _, o := range x.exec(st.fork(), fn, []*Term{obj, tok("file")}, nil) {
						if o.panicked {
							x.check(o.st, "flush", hist, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						gave, wrote, e := o.st.g("gave"), o.st.g("wrote"), o.st.g("werr")
						if gave == nil {
							continue
						}
						x.check(o.st, "written", hist+" written out", sameBytes(o.st, gave, all) && o.st.eq(o.ret[0], wrote) && o.st.isTrue(mkEqv(o.ret[1], e)), fn.Pos(), "writes %s of %s, reports %v", elemsStr(gave), elemsStr(all), o.ret)
						if !catEmpty(left) {
							continue
						}
						write(o.st, writes[0], func(st *State) {
							doProcess(st, hist+" processed, written out, Write, processed", x.contents(st, by), func(*State) {})
						})
					}
				})
			})
		})
	}
	_ = strings.Join
}

func sameBytes(st *State, a, b *Term) bool { return sameCat(st, catJoin(st, a), catJoin(st, b)) }
