package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C28"] = c28 }

// c28: background work does not disturb the frames it is done between.
func c28(r *Run) {
	r.rule("shared", "memory that a background goroutine shares with others, and that either writes, is accessed under a common lock", 20)
	r.rule("own", "what a background goroutine works on under a lock is not also reachable from elsewhere", 4)
	r.rule("waits", "no goroutine waits for another, or for its own lock, while it holds a lock", 8)
	r.rule("order", "locks are taken in one order", 1)
	r.rule("live", "starting, notifying and stopping never wait for ever, and a worker that is stopped ends", 60)
	r.rule("single", "a worker has ended by the time Stop returns, and no two run at once", 60)
	r.rule("written", "what is logged while a file is set is written to it once, in order, and all of it before it is closed or Stop returns", 20)
	r.rule("notified", "what was logged before a Notify is written once the worker has had its turn", 4)
	r.rule("reported", "a failure to write is reported by a later Notify, Stop or SetFile, and no other is", 60)
	r.rule("memory", "the log in memory is what was logged and not yet read, with the place of every line's end", 60)
	r.rule("closed", "a file that is replaced is closed once, and not written to afterwards", 30)
	r.rule("all", "all background workers are started, notified and stopped, until the first failure; all are stopped", 20)

	bgLocks(r)
	bgLogs(r)
	bgTelemetry(r)
	bgAll(r)
}

// bgLocks compares what the goroutines of the platform access, and under which locks.
func bgLocks(r *Run) {
	w := r.w
	pkg := w.spkg[w.pkgPath("x/platform")]
	if pkg == nil {
		panic(anchorErr{"package x/platform not found", true})
	}
	logger := w.methodOf(w.typ("x/platform", "LogSink"), "Write")
	var gos []*ssa.Go
	goFns := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for _, fn := range w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && fn.Package() == pkg {
					gos = append(gos, g)
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
				if f := c.Common().StaticCallee(); f != nil {
					if _, isGo := in.(*ssa.Go); !isGo {
						called[f] = true
					}
				}
			}
		}
	}
	sort.Slice(gos, func(i, j int) bool { return gos[i].Pos() < gos[j].Pos() })
	for _, g := range gos {
		if f := g.Call.StaticCallee(); f != nil {
			goFns[f] = true
		}
	}

	r.analyse("locks", func(x *X) {
		type thread struct {
			name string
			lw   *lockWalk
		}
		var threads []thread
		for _, g := range gos {
			lw := newLockWalk(w)
			lw.logger = logger
			f := g.Call.StaticCallee()
			var e thEnv
			if f != nil {
				e = lw.envOf(thEnv{}, f, &g.Call)
			} else if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				f = mc.Fn.(*ssa.Function)
				e = lw.envOf(thEnv{}, f, &g.Call)
			} else {
				x.fail("go %v", g.Call.Value)
			}
			end := lw.walk(f, nil, e)
			x.check(nil, "waits", where(f)+": ends", len(end) == 0, g.Pos(), "ends while it holds %v", end)
			threads = append(threads, thread{f.RelString(nil), lw})
		}
		main := newLockWalk(w)
		main.logger = logger
		main.before = map[ssa.Instruction]bool{}
		for _, g := range gos {
			for _, b := range g.Parent().Blocks {
				for _, in := range b.Instrs {
					if in != ssa.Instruction(g) && !mayFollow(g, in) {
						main.before[in] = true
					}
				}
			}
		}
		main.skip = func(fn *ssa.Function) bool { return goFns[fn] && !called[fn] }
		var roots []*ssa.Function
		for _, fn := range w.funcs {
			if fn.Package() != pkg || fn.Parent() != nil || fn.Synthetic != "" || goFns[fn] && !called[fn] || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			if token.IsExported(fn.Name()) && !called[fn] || !called[fn] || invoked[fn.Name()] {
				// an unexported type's methods are reached through what exports it
				roots = append(roots, fn)
			} else if token.IsExported(fn.Name()) {
				rt := fn.Signature.Recv()
				if rt == nil || token.IsExported(strings.TrimLeft(typeName(rt.Type()), "*platform.")) {
					roots = append(roots, fn)
				}
			}
		}
		for _, fn := range roots {
			end := main.walk(fn, nil, thEnv{chain: map[ssa.Value]string{}})
			x.check(nil, "waits", where(fn)+": ends", len(end) == 0, fn.Pos(), "returns while it holds %v", end)
		}
		for f := range main.funcs {
			r.fns[f.String()] = true
		}
		threads = append(threads, thread{"the frame loop", main})

		n := len(threads)
		for i, a := range threads[:n-1] {
			byKey := map[string][]thAccess{}
			for _, ac := range a.lw.accesses {
				byKey[ac.key] = append(byKey[ac.key], ac)
			}
			for _, b := range threads[i+1:] {
				for _, k := range sortedKeys(b.lw.accesses) {
					bc := b.lw.accesses[k]
					for _, ac := range byKey[bc.key] {
						if !ac.write && !bc.write {
							continue
						}
						common := false
						for _, l := range ac.locks {
							for _, m := range bc.locks {
								common = common || sameLock(l, m)
							}
						}
						at, name, other := bc, b.name, ac
						verb := "reads"
						if at.write {
							verb = "writes"
						}
						x.check(nil, "shared", fmt.Sprintf("%s in %s and %s", bc.key, where(ac.fn), where(bc.fn)), common, at.pos,
							"%s %s %s under %v, and %s accesses it under %v (%s)", name, verb, bc.key, at.locks, a.name, other.locks, posStr(w.prog, other.pos))
					}
				}
			}
			// what it works on is only reachable from where the lock protects it
			keys := map[string]bool{}
			for k := range byKey {
				if strings.HasSuffix(k, "[]") {
					keys[strings.TrimSuffix(k, "[]")] = true
				}
			}
			for _, k := range sortedKeys(keys) {
				why := main.fresh[k]
				if why == "" {
					why = a.lw.fresh[k]
				}
				x.check(nil, "own", k+" in "+a.name, why == "", token.NoPos, "%s works on its elements, and %s", a.name, why)
			}
		}
		edges := map[[2]string]token.Pos{}
		for _, t := range threads {
			for in := range t.lw.sites {
				bad := ""
				for _, is := range t.lw.issues {
					if is.pos == in.Pos() && is.fn == in.Parent() {
						bad = is.what
					}
				}
				x.check(nil, "waits", where(in.Parent())+": "+opName(in), bad == "", in.Pos(), "%s: %s %s", t.name, where(in.Parent()), bad)
			}
			for _, k := range sortedKeys(t.lw.issues) {
				is := t.lw.issues[k]
				x.check(nil, "waits", where(is.fn), false, is.pos, "%s: %s %s", t.name, where(is.fn), is.what)
			}
			for e, p := range t.lw.order {
				edges[[2]string{chainLast(e[0]), chainLast(e[1])}] = p
				if chainLast(e[0]) == chainLast(e[1]) { // of different owners
					edges[e] = p
				}
			}
		}
		ok := true
		for e, p := range edges {
			if q, back := edges[[2]string{e[1], e[0]}]; back && e[0] != e[1] {
				ok = false
				x.check(nil, "order", e[0]+" and "+e[1], false, p, "%s is locked while %s is held, and at %s the other way around", e[1], e[0], posStr(w.prog, q))
			}
		}
		x.check(nil, "order", "all locks", ok, token.NoPos, "locks are taken in several orders")
	})
}

func opName(in ssa.Instruction) string {
	switch in := in.(type) {
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok {
			return b.Name()
		}
		if f := in.Common().StaticCallee(); f != nil {
			return f.Name()
		}
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")
}

// A bgKit is the world that the life of a background worker is interpreted in.
type bgKit struct {
	w     *World
	x     *X
	s     *sched
	nm    string
	fails map[int]int // the file writes that fail, and what they still write
	eio   *Term
	loose bool // what is to be written is judged elsewhere
	// what there is to do when the log package is used
	logf func(x *X, st *State, msg string) []Out
}

func (k *bgKit) str(st *State, key string) string {
	if v := st.g(key); v != nil && v.op == OStr {
		return v.name
	}
	return ""
}
func (k *bgKit) num(st *State, key string) int64 {
	n, _ := st.constOf(st.gInt(key))
	return n
}
func (k *bgKit) list(st *State, key string) []*Term {
	if v := st.g(key); v != nil && v.op == OApp {
		return v.args
	}
	return nil
}
func (k *bgKit) setList(st *State, key string, l []*Term) { st.setG(key, mkApp("list", nil, l...)) }

func (k *bgKit) check(st *State, rule, at string, ok bool, pos token.Pos, format string, a ...any) {
	x := k.x
	if k.s.cur != nil {
		x = k.s.cur.x
	}
	x.check(st, rule, k.nm+": "+at, ok, pos, format, a...)
	if !ok && rule == "live" {
		k.s.dead = true
	}
}

func (k *bgKit) me() *Term {
	if k.s.cur != nil {
		return mkInt(int64(k.s.cur.id))
	}
	return mkInt(-1)
}

func newBgKit(w *World, x *X, nm string, at, slice int) *bgKit {
	k := &bgKit{w: w, x: x, nm: nm, eio: tok("write failed"), fails: map[int]int{}}
	k.s = &sched{x: x, at: at, slice: slice}
	k.s.check = k.check
	x.precise, x.noMerge = true, true
	x.unrollSt = 4000
	x.h.call = k.call
	x.h.sel = k.sel
	x.h.goStmt = k.goStmt
	x.h.chanop = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, op string, ch, v *Term) {
		if op == "close" {
			c := st.f.rw(ch)
			open := c.op == OApp && c.name == "chan" && st.gInt("closed:"+c.String()) == tZero
			k.check(st, "live", where(fn)+": close", open, in.Pos(), "closes %v, which is nil or closed", c)
			st.setG("closed:"+c.String(), tOne)
		}
	}
	return k
}

func (k *bgKit) goStmt(x *X, st *State, ci *CallInfo) {
	fn := ci.fn
	var binds []*Term
	if fn == nil || ci.clos != nil {
		if ci.clos == nil || ci.clos.op != OClosure {
			x.fail("go %v", ci.clos)
		}
		fn = ci.clos.ref.(*ssa.Function)
		binds = ci.clos.args
	}
	k.check(st, "single", where(ci.caller), k.s.live() == 0, ci.site.Pos(), "starts another worker while one is running")
	args := append([]*Term(nil), ci.args...)
	for i := range args {
		args[i] = st.f.rw(args[i])
	}
	k.s.start(fn, args, binds, where(fn))
}

func (k *bgKit) sel(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) {
	st = k.s.point(st)
	pick := func(st *State) *selPick {
		for i, c := range cases {
			ch := st.f.rw(c.ch)
			if ch == tNil || ch.op != OApp || ch.name != "chan" {
				continue
			}
			q := k.list(st, "q:"+ch.String())
			closed := st.gInt("closed:"+ch.String()) != tZero
			if c.v != nil {
				if closed {
					k.check(st, "live", where(in.Parent())+": send", false, in.Pos(), "sends to a closed channel")
					continue
				}
				room, ok := st.constOf(ch.args[1])
				if !ok {
					x.fail("a channel of unknown room")
				}
				if n := st.g("recv:" + ch.String()); n != nil && n != tZero && n != k.me() {
					room++
				}
				if int64(len(q)) < room {
					n := st.fork()
					k.setList(n, "q:"+ch.String(), append(append([]*Term(nil), q...), st.f.rw(c.v)))
					return &selPick{st: n, idx: i}
				}
				continue
			}
			if len(q) > 0 {
				n := st.fork()
				k.setList(n, "q:"+ch.String(), q[1:])
				return &selPick{st: n, idx: i, v: q[0], ok: tTrue}
			}
			if closed {
				if t := k.s.cur; t != nil {
					if t.spins++; t.spins > 40 {
						k.check(st, "live", where(in.Parent())+": ends", false, in.Pos(), "goes on for ever once it is stopped")
						panic(schKilled{})
					}
				}
				return &selPick{st: st.fork(), idx: i, v: zeroVal(chElem(ch)), ok: tFalse}
			}
		}
		return nil
	}
	if !blocking {
		if p := pick(st); p != nil {
			return []selPick{*p}, true
		}
		return []selPick{{st: st, idx: -1}}, true
	}
	var got *selPick
	setRecv := func(st *State, v *Term) {
		for _, c := range cases {
			if ch := st.f.rw(c.ch); c.v == nil && ch.op == OApp {
				st.setG("recv:"+ch.String(), v)
			}
		}
	}
	st, ok := k.s.wait(st, in.Pos(), func(st *State) bool {
		if got = pick(st); got == nil {
			setRecv(st, k.me())
		}
		return got != nil
	})
	if !ok || k.s.dead {
		if !ok && !k.s.dead {
			k.check(st, "live", where(in.Parent())+": waits", false, in.Pos(), "%s waits for ever", where(in.Parent()))
		}
		return nil, true
	}
	setRecv(got.st, tZero)
	k.check(got.st, "live", where(in.Parent())+": waits", true, in.Pos(), "")
	return []selPick{*got}, true
}

// write is a write to a file.
func (k *bgKit) write(st *State, file, b *Term, site ssa.Instruction) []Out {
	bs, ok := k.x.constBytes(st, b)
	if !ok {
		k.x.fail("writes unknown data %v to a file", b)
	}
	f := file.String()
	k.check(st, "closed", "write to "+f, st.gInt("fclosed:"+f) == tZero, site.Pos(), "writes %q to %s, which is closed", bs, f)
	n := k.num(st, "writes")
	st.setG("writes", mkInt(n+1))
	res := tNil
	if m, fails := k.fails[int(n)]; fails {
		if m < len(bs) {
			bs = bs[:m]
		}
		res = k.eio
		st.setG("failed", tOne)
		st.setG("everfailed", tOne)
	}
	have := k.str(st, "file:"+f) + string(bs)
	st.setG("file:"+f, mkStr(have))
	want := k.str(st, "want:"+f)
	k.check(st, "written", "to "+f, k.loose || strings.HasPrefix(want, unmarked(have)), site.Pos(), "%s is %q, and what was logged is %q", f, have, want)
	return ret(st, mkInt(int64(len(bs))), res)
}

// unmarked is a text without what SetFile itself logs, which may be in either file.
func unmarked(s string) string {
	for {
		i := strings.Index(s, "{")
		if i < 0 {
			return s
		}
		j := strings.Index(s[i:], "}\n")
		if j < 0 {
			return s[:i]
		}
		s = s[:i] + s[i+j+2:]
	}
}

func (k *bgKit) call(x *X, st *State, ci *CallInfo) ([]Out, bool) {
	nm := ci.name()
	switch {
	case nm == "(*sync.Mutex).Lock":
		st = k.s.point(st)
		key := "lock:" + ci.args[0].String()
		free := func(st *State) bool { return st.gInt(key) == tZero }
		if !free(st) && st.g(key) == k.me() {
			k.check(st, "live", where(ci.caller)+": lock", false, ci.site.Pos(), "locks what it holds already")
			return nil, true
		}
		st, ok := k.s.wait(st, ci.site.Pos(), free)
		k.check(st, "live", where(ci.caller)+": lock", ok, ci.site.Pos(), "waits for ever for a lock")
		if !ok {
			return nil, true
		}
		st.setG(key, k.me())
		return ret(st), true
	case nm == "(*sync.Mutex).Unlock":
		key := "lock:" + ci.args[0].String()
		k.check(st, "live", where(ci.caller)+": unlock", st.g(key) == k.me(), ci.site.Pos(), "unlocks what it does not hold")
		st.setG(key, tZero)
		return ret(st), true
	case nm == "(*os.File).Write", nm == "(*os.File).WriteString":
		return k.write(k.s.point(st), ci.args[0], ci.args[1], ci.site), true
	case nm == "(*os.File).Name":
		return ret(st, mkStr(ci.args[0].String())), true
	case nm == "(*os.File).Sync":
		return ret(st, tNil), true
	case nm == "(*os.File).Close":
		f := ci.args[0].String()
		k.check(st, "closed", f, st.gInt("fclosed:"+f) == tZero, ci.site.Pos(), "closes %s again", f)
		st.setG("fclosed:"+f, tOne)
		return ret(st, tNil), true
	case strings.HasPrefix(nm, "log.Print") && k.logf != nil:
		n := k.num(st, "lines")
		st.setG("lines", mkInt(n+1))
		return k.logf(x, st, fmt.Sprintf("{%d}\n", n)), true
	case nm == "(*bytes.Buffer).Grow":
		return growModel(x, st, ci.args[0], ci.args[1], 0), true
	case nm == "(*bytes.Buffer).WriteTo":
		st = k.s.point(st)
		b, off := bufFields(st, ci.args[0])
		s := toSlice(b)
		if b == tNil || s.args[0].op == ONil {
			return ret(st, tZero, tNil), true
		}
		done := func(st *State) {
			st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
			st.store(addrPath(ci.args[0], mkFld(1)), tZero)
		}
		rest := mkSlice(s.args[0], linAdd(s.args[1], off), linSub(s.args[2], off), linSub(s.args[3], off))
		if n, ok := st.constOf(st.f.rw(rest.args[2])); ok && n == 0 {
			done(st)
			return ret(st, tZero, tNil), true
		}
		dest := st.f.rw(ci.args[1])
		if dest.op == OIface {
			dest = dest.args[0]
		}
		outs := k.write(st, dest, rest, ci.site)
		for _, o := range outs {
			if o.ret[1] == tNil {
				done(o.st)
			} else {
				o.st.store(addrPath(ci.args[0], mkFld(1)), linAdd(off, o.ret[0]))
			}
		}
		return outs, true
	case nm == "(*bytes.Buffer).Read":
		b, off := bufFields(st, ci.args[0])
		s := toSlice(b)
		var have int64
		if b != tNil && s.args[0].op != ONil {
			have, _ = st.constOf(st.f.rw(linSub(s.args[2], off)))
		}
		p := st.f.rw(toSlice(ci.args[1]))
		room, ok := st.constOf(st.f.rw(p.args[2]))
		if !ok {
			x.fail("reads into %v", p)
		}
		if have == 0 {
			if s.args[0].op != ONil {
				st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
			}
			st.store(addrPath(ci.args[0], mkFld(1)), tZero)
			if room == 0 {
				return ret(st, tZero, tNil), true
			}
			return ret(st, tZero, tok("EOF")), true
		}
		if have > room {
			have = room
		}
		for j := int64(0); j < have; j++ {
			v := st.load(addrPath(s.args[0], linK(linAdd(s.args[1], off), j)))
			st.store(addrPath(p.args[0], linK(p.args[1], j)), v)
		}
		st.store(addrPath(ci.args[0], mkFld(1)), linK(off, have))
		return ret(st, mkInt(have), tNil), true
	case nm == "bytes.IndexByte", nm == "bytes.LastIndexByte":
		bs, ok := x.constBytes(st, ci.args[0])
		c, okc := st.constOf(ci.args[1])
		if ok && okc {
			i := strings.IndexByte(string(bs), byte(c))
			if nm == "bytes.LastIndexByte" {
				i = strings.LastIndexByte(string(bs), byte(c))
			}
			return ret(st, mkInt(int64(i))), true
		}
	}
	return nil, false
}

// A bgScript is a history of a worker: each word is an operation.
func bgLogScripts(thorough bool) []string {
	out := []string{
		"w:a! stat",
		"w:ab w:c! w:d stat", "w:a!b!c stat w:!! stat", "w:x r9 stat w:y! stat", "w:x!y r1 stat r1 stat r1 stat w:z stat", "w:abc!de r2 stat r3 stat w:f! stat r9 stat",
		"w: stat r0 r4 stat", "w:a! r1 stat r1 stat w:b stat r5 w:! stat",
		"set1 w:a! stop w:b! stat", "set1 w:a! notify drain w:b! notify stop stat",
		"w:p! set1 w:a! w:b notify notify drain w:c! stop stop w:d! stat",
		"set1 start w:a! notify stop start w:b! notify drain stop w:c! set0 w:d! stat",
		"start w:a! notify stop set1 w:b! start notify w:c! stop",
		"set1 w:a! notify set2 w:b! notify stop stat", "set1 w:a! set1 w:b! set0 set0 w:c! stat", "set1 w:a! stop w:b! set2 w:c! notify drain w:d! set0 w:e! set1b w:f! stop",
		"set1 set2 set0 w:a! stop", "set1 notify notify stop", "stop notify start stop stop",
		"set1 w:a! notify w:b! stop start w:c! stop start stop w:d! start w:e! notify set0",
		// failing writes
		"F0:0 set1 w:a! notify drain w:b! N stop stat", "F0:1 set1 w:ab! stop start w:c! stop stat", "F0:0,1:0 set1 w:a! notify drain w:b! notify drain stop", "F0:0,1:0,2:0 set1 w:a! notify drain w:b! N stop",
		"F1:0 set1 w:a! notify drain w:b! notify drain w:c! N stop start w:d! stop", "F0:1 set1 w:abc! notify drain set2 w:d! stop", "F0:0,1:0,2:0,3:0 set1 w:a! notify drain set2", "F0:0 set1 w:a! set0",
		"F1:0 set1 w:a! notify drain w:b! stop", "F0:0 set1 stop w:a! w:b! stop", "F0:1 set1 stop w:abc w:b! start notify w:c! stop", "F1:2 set1 w:a! stop w:bcd! start notify drain w:d! set0",
	}
	if thorough {
		ops := []string{"w:a!", "notify", "drain", "stop", "start", "set1", "set2", "set0"}
		for _, a := range ops {
			for _, b := range ops {
				for _, c := range ops {
					out = append(out, "set1 w:x! "+a+" "+b+" "+c+" w:y! stop w:z! stat")
				}
			}
		}
	}
	return out
}

func bgLogs(r *Run) {
	w := r.w
	lsT := w.typ("x/platform", "LogSink")
	wr, rd, contents := w.methodOf(lsT, "Write"), w.methodOf(lsT, "Read"), w.methodOf(lsT, "Contents")
	start, stop, notify, setFile := w.promotedOf(lsT, "Start"), w.promotedOf(lsT, "Stop"), w.promotedOf(lsT, "Notify"), w.methodOf(lsT, "SetFile")
	logs := mkAddr(globalObj(w.global("x/platform", "Logs")))

	one := func(x *X, script string, at, slice int) int {
		k := newBgKit(w, x, script, at, slice)
		defer k.s.end()
		st := newState()
		st.setMem(globalObj(w.global("x/platform", "Logs")), zeroVal(lsT))
		files := map[string]*Term{"0": tNil, "1": tok("file1"), "2": tok("file2"), "1b": tok("file1b")}
		cur := func(st *State) string { return k.str(st, "cur") }
		log := func(x *X, st *State, msg string) {
			st.setG("mem", mkStr(k.str(st, "mem")+msg))
			if c := cur(st); c != "" && !strings.HasPrefix(msg, "{") {
				st.setG("want:"+c, mkStr(k.str(st, "want:"+c)+msg))
			}
		}
		k.logf = func(x *X, st *State, msg string) []Out {
			log(x, st, msg)
			outs := x.exec(st, wr, []*Term{logs, x.elemSlice(st, byteT, elemsOf(msg)...)}, nil)
			for i := range outs {
				if !outs[i].panicked {
					outs[i].ret = nil
				}
			}
			return outs
		}
		k.s.waits = func(st *State, t *schThread) {
			// it has done all it was notified of
			for _, q := range sortedKeys(st.ghost) {
				if strings.HasPrefix(q, "q:") && len(k.list(st, q)) > 0 {
					return
				}
			}
			if c := cur(st); c != "" && st.gInt("everfailed") == tZero && k.str(st, "due:"+c) != "" {
				have := unmarked(k.str(st, "file:"+c))
				k.check(st, "notified", "turn", strings.HasPrefix(have, k.str(st, "due:"+c)), token.NoPos, "the worker has been notified, and %s is %q, without all of %q", c, have, k.str(st, "due:"+c))
			}
		}
		do := func(fn *ssa.Function, args ...*Term) []*Term {
			outs := x.exec(st, fn, append([]*Term{logs}, args...), nil)
			if len(outs) == 0 && k.s.dead {
				return nil
			}
			if len(outs) != 1 {
				x.fail("%v ends in %d ways", fn, len(outs))
			}
			st = outs[0].st
			if outs[0].panicked {
				k.check(st, "live", where(fn), false, fn.Pos(), "panics with %v", outs[0].pv)
				return nil
			}
			return outs[0].ret
		}
		// reported checks what an operation returned against what failed
		reported := func(op string, fn *ssa.Function, res *Term, final bool) {
			isErr := !st.isTrue(mkEqv(st.f.rw(res), tNil))
			k.check(st, "reported", op+": none but", !isErr || st.gInt("everfailed") != tZero, fn.Pos(), "%s fails with %v, and nothing has", op, res)
			if isErr {
				st.setG("failed", tZero)
			} else if final {
				k.check(st, "reported", op, st.gInt("failed") == tZero, fn.Pos(), "a write has failed, and %s does not say so", op)
			}
		}
		all := func(op string, fn *ssa.Function, c string) {
			if c != "" && st.gInt("everfailed") == tZero {
				have, want := unmarked(k.str(st, "file:"+c)), k.str(st, "want:"+c)
				k.check(st, "written", op+": all", have == want, fn.Pos(), "after %s %s is %q, and what was logged is %q", op, c, have, want)
			}
		}
		ended := func(op string, fn *ssa.Function) {
			if k.s.dead {
				return
			}
			// it may have been told, and not had its turn
			n := 0
			for _, t := range k.s.threads {
				if !t.done && st.gInt(fmt.Sprint("over", t.id)) == tZero {
					n++
				}
			}
			k.check(st, "single", op, n == 0, fn.Pos(), "%s returns while the worker is running", op)
		}
		for _, op := range strings.Fields(script) {
			if k.s.dead {
				break
			}
			arg := strings.ReplaceAll(op[1:], "!", "\n")
			if op[0] == 'w' && strings.HasPrefix(op, "w:") {
				arg = arg[1:]
				log(x, st, arg)
				writes := k.num(st, "writes")
				res := do(wr, x.elemSlice(st, byteT, elemsOf(arg)...))
				if res != nil && st.gInt("failed") != tZero && k.num(st, "writes") > writes && k.s.live() == 0 { // directly
					k.check(st, "reported", "Write", !st.isTrue(mkEqv(st.f.rw(res[1]), tNil)), wr.Pos(), "the write to the file failed, and Write returns %v", res)
					st.setG("failed", tZero)
					st.setG("want:"+cur(st), mkStr(unmarked(k.str(st, "file:"+cur(st)))))
				} else if res != nil {
					k.check(st, "memory", "write", st.eq(res[0], mkInt(int64(len(arg)))) && st.isTrue(mkEqv(res[1], tNil)), wr.Pos(), "writing %q returns %v", arg, res)
				}
				continue
			}
			switch {
			case op[0] == 'F':
				for _, p := range strings.Split(op[1:], ",") {
					var i, n int
					fmt.Sscanf(p, "%d:%d", &i, &n)
					k.fails[i] = n
				}
			case op[0] == 'r':
				n := int64(op[1] - '0')
				p := x.objWith(st, "into", types.NewArray(byteT, n), zeroVal(types.NewArray(byteT, n)))
				sl := mkSlice(p, tZero, mkInt(n), mkInt(n))
				res := do(rd, sl)
				if res == nil {
					break
				}
				m, ok := st.constOf(st.f.rw(res[0]))
				mem := k.str(st, "mem")
				good := ok && (m == n || m == int64(len(mem))) && m <= int64(len(mem))
				if good {
					got, okb := x.constBytes(st, mkSlice(p, tZero, mkInt(m), mkInt(n)))
					good = okb && string(got) == mem[:m]
					if good {
						st.setG("mem", mkStr(mem[m:]))
					}
				}
				k.check(st, "memory", "read", good, rd.Pos(), "reading %d bytes of %q returns %v", n, mem, res)
			case op == "stat":
				res := do(contents)
				if res == nil {
					break
				}
				mem := k.str(st, "mem")
				got, ok := x.constBytes(st, res[0])
				k.check(st, "memory", "contents", ok && string(got) == mem, contents.Pos(), "the contents are %q, and %q was logged", got, mem)
				var want []int64
				for i := range mem {
					if mem[i] == '\n' {
						want = append(want, int64(i))
					}
				}
				if mem != "" && mem[len(mem)-1] != '\n' {
					want = append(want, int64(len(mem)))
				}
				els, ok := x.elems(st, res[1])
				ok = ok && len(els) == len(want)
				for i := range want {
					ok = ok && st.eq(els[i], mkInt(want[i]))
				}
				k.check(st, "memory", "line ends", ok, contents.Pos(), "the lines of %q end at %v", mem, els)
				for i, c := range res[:2] {
					c = st.f.rw(toSlice(c))
					for f := 0; f < structOf(lsT).NumFields(); f++ {
						own := st.f.rw(st.load(addrPath(logs, mkFld(f))))
						if own.op == OSlice || own.op == OStruct {
							sl := own
							if own.op == OStruct && len(own.args) > 0 && own.args[0].op == OSlice {
								sl = own.args[0]
							}
							if sl.op == OSlice && c.args[0].op != ONil {
								k.check(st, "memory", fmt.Sprint("contents are a copy: ", i), sl.args[0] != c.args[0], contents.Pos(), "the contents alias the log's own")
							}
						}
					}
				}
			case op == "start":
				if res := do(start); res != nil {
					reported("Start", start, res[0], false)
				}
			case op == "notify", op == "N":
				if res := do(notify); res != nil {
					if op == "N" {
						k.check(st, "reported", "Notify", st.gInt("failed") == tZero || !st.isTrue(mkEqv(st.f.rw(res[0]), tNil)), notify.Pos(), "a write has failed in the background, and Notify does not say so")
					}
					reported("Notify", notify, res[0], false)
					if c := cur(st); c != "" {
						st.setG("due:"+c, mkStr(k.str(st, "want:"+c)))
					}
				}
			case op == "drain":
				st = k.s.drain(st)
			case op == "stop":
				if res := do(stop); res != nil {
					reported("Stop", stop, res[0], true)
					all("Stop", stop, cur(st))
					ended("Stop", stop)
				}
			case strings.HasPrefix(op, "set"):
				to := files[op[3:]]
				if to != tNil && st.gInt("fclosed:"+to.String()) != tZero { // another of that name
					to = tok(fmt.Sprint(op, " opened at ", k.s.points))
				}
				was := cur(st)
				if to != tNil && was == to.String() {
					if res := do(setFile, to); res != nil {
						reported("SetFile", setFile, res[0], false)
						k.check(st, "closed", was, st.gInt("fclosed:"+was) == tZero, setFile.Pos(), "setting the same file closes it")
					}
					break
				}
				if was != "" {
					st.setG("was", mkStr(was))
				}
				next := ""
				if to != tNil {
					next = to.String()
				}
				// what is logged meanwhile may go to either
				res := do(setFile, to)
				if res == nil {
					break
				}
				if !st.isTrue(mkEqv(st.f.rw(res[0]), tNil)) {
					next = ""
				}
				st.setG("cur", mkStr(next))
				reported("SetFile", setFile, res[0], was != "")
				all("SetFile", setFile, was)
				if was != "" {
					k.check(st, "closed", was+" once", st.gInt("fclosed:"+was) != tZero, setFile.Pos(), "%s is not closed when it is replaced", was)
				}
				if next == "" {
					ended("SetFile", setFile)
				}
			}
		}
		// at last it is stopped
		if !k.s.dead {
			if res := do(stop); res != nil {
				reported("Stop", stop, res[0], true)
				all("Stop", stop, cur(st))
				ended("Stop", stop)
			}
		}
		return k.s.points
	}
	bgSchedules(r, "log", bgLogScripts(r.tier == "thorough"), one)
}

// bgSchedules has the worker take its turns at different points of a history.
func bgSchedules(r *Run, kind string, scripts []string, one func(x *X, script string, at, slice int) int) {
	for _, sc := range scripts {
		r.analyse(kind+": "+sc, func(x *X) {
			n := one(x, sc, -2, 0)
			one(x, sc, -1, 0)
			slices := []int{0}
			if r.tier == "thorough" {
				slices = []int{0, 1, 2, 3, 4, 6}
			}
			for k := 0; k < n && k < 60; k++ {
				for _, s := range slices {
					one(x, sc, k, s)
				}
			}
		})
	}
}

func elemsOf(s string) []*Term {
	var out []*Term
	for i := 0; i < len(s); i++ {
		out = append(out, mkInt(int64(s[i])))
	}
	return out
}

// bgTelemetry: the collector's worker.
func bgTelemetry(r *Run) {
	w := r.w
	r.rule("telemetry", "telemetry data is logged once, in order, as lines of valid JSON, the last of it by the time Stop returns", 30)
	cT := w.typ("x/platform", "telemetryCollector")
	start, stop, notify, create := w.promotedOf(cT, "Start"), w.promotedOf(cT, "Stop"), w.promotedOf(cT, "Notify"), w.methodOf(cT, "create")
	tPath, sPath := fieldPath(cT, "timing"), fieldPath(cT, "stalls")
	timeT := structOf(cT).Field(fieldIdx(cT, "t")).Type()
	durT := w.prog.ImportedPackage("time").Type("Duration").Type()
	ruT := w.typ("x/platform", "rusageEntry")
	now := func(k int64) *Term { return mkApp("now", timeT, mkInt(k)) }

	one := func(x *X, script string, at, slice int) int {
		k := newBgKit(w, x, script, at, slice)
		defer k.s.end()
		st := newState()
		k.loose = true
		coll := x.objWith(st, "collector", cT, zeroVal(cT))
		clock := int64(0)
		st.store(addrPath(coll, fieldPath(cT, "t")...), now(0))
		ruArr := newObj("rusage", types.NewArray(ruT, 4))
		st.setMem(ruArr, zeroVal(types.NewArray(ruT, 4)))
		st.store(addrPath(coll, fieldPath(cT, "rusage", "data")...), mkSlice(mkAddr(ruArr), tZero, mkInt(4), mkInt(4)))
		k.logf = func(x *X, st *State, msg string) []Out { return ret(st) }
		base := x.h.call
		files := map[string]*Term{"a": tok("filea"), "b": tok("fileb")}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			switch nm := ci.name(); {
			case nm == "os.Create", nm == "os.OpenFile":
				n, ok := x.constBytes(st, ci.args[0])
				if !ok {
					x.fail("creates %v", ci.args[0])
				}
				if f := files[string(n)]; f != nil {
					return ret(st, f, tNil), true
				}
				return ret(st, tNil, tok("create failed")), true
			case strings.HasPrefix(nm, "log.Print"):
				if len(ci.args) > 1 {
					if vs, ok := x.elems(st, ci.args[1]); ok && len(vs) == 1 {
						v := st.f.rw(vs[0])
						if v.op == OIface {
							v = v.args[0]
						}
						if els, ok := x.elems(st, v); ok {
							st.setG("logged", mkStr(k.str(st, "logged")+fmt.Sprint(els)+"\n"))
						}
					}
				}
				return ret(st), true
			case nm == "(time.Time).UnixNano":
				return ret(st, timeK(x, st, ci.args[0])), true
			case nm == "(time.Time).Sub":
				return ret(st, linSub(timeK(x, st, ci.args[0]), timeK(x, st, ci.args[1]))), true
			case nm == "(time.Time).IsZero":
				t := st.f.rw(ci.args[0])
				return ret(st, mkBool(t.op != OApp || t.name != "now")), true
			case nm == "fmt.Fprintf":
				vs, ok := x.elems(st, ci.args[2])
				f, okf := x.constBytes(st, ci.args[1])
				if !ok || !okf {
					x.fail("prints %v", ci.args)
				}
				var a []any
				for _, v := range vs {
					v = st.f.rw(v)
					if v.op == OIface {
						v = v.args[0]
					}
					n, ok := st.constOf(v)
					if !ok {
						x.fail("prints %v", v)
					}
					a = append(a, n)
				}
				text := fmt.Sprintf(string(f), a...)
				dest := st.f.rw(ci.args[0])
				if dest.op == OIface {
					dest = dest.args[0]
				}
				if dest.op == OApp && dest.name == "tok" {
					return k.write(k.s.point(st), dest, x.elemSlice(st, byteT, elemsOf(text)...), ci.site), true
				}
				if o := bufAppend(x, st, dest, x.elemSlice(st, byteT, elemsOf(text)...)); o != nil {
					return o, true
				}
				return ret(st, mkInt(int64(len(text))), tNil), true
			}
			return base(x, st, ci)
		}
		do := func(fn *ssa.Function, args ...*Term) []*Term {
			outs := x.exec(st, fn, append([]*Term{coll}, args...), nil)
			if len(outs) == 0 && k.s.dead {
				return nil
			}
			if len(outs) != 1 {
				x.fail("%v ends in %d ways", fn, len(outs))
			}
			st = outs[0].st
			if outs[0].panicked {
				k.check(st, "live", where(fn), false, fn.Pos(), "panics with %v", outs[0].pv)
				return nil
			}
			return outs[0].ret
		}
		// set sets data to be logged, as a frame does
		var given []string
		last := map[string]string{}
		set := func(what string, ns string, path []*Term) {
			var els []*Term
			for _, n := range strings.Split(ns, ",") {
				var v int64
				if n != "" {
					fmt.Sscan(n, &v)
					els = append(els, mkInt(v))
				}
			}
			st.store(addrPath(coll, path...), x.elemSlice(st, durT, els...))
			given = append(given, what+"["+ns+"]")
			last[what] = ns
		}
		// lines checks what has been written, all of it when final
		lines := func(op string, final bool) {
			var got []string
			for _, f := range []string{"a", "b"} {
				text := k.str(st, "file:"+files[f].String())
				if text != "" && st.gInt("everfailed") == tZero {
					k.check(st, "telemetry", op+": whole lines", strings.HasSuffix(text, "\n"), token.NoPos, "the file is %q", text)
				}
				for _, ln := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
					if ln == "" {
						continue
					}
					var d struct {
						T            *int64
						Name         string
						Data, Stalls []any
					}
					err := json.Unmarshal([]byte(ln), &d)
					k.check(st, "telemetry", op+": JSON", st.gInt("everfailed") != tZero || err == nil && d.T != nil && d.Name != "", token.NoPos, "%q is not a record: %v", ln, err)
					if err != nil {
						continue
					}
					if d.Name == "timing" || d.Name == "stalls" {
						v := d.Data
						if d.Name == "stalls" {
							v = d.Stalls
						}
						got = append(got, d.Name+strings.ReplaceAll(fmt.Sprint(v), " ", ","))
					}
				}
			}
			for _, ln := range strings.Split(k.str(st, "logged"), "\n") {
				if ln != "" {
					got = append(got, "log"+strings.ReplaceAll(ln, " ", ","))
				}
			}
			for _, what := range []string{"timing", "stalls"} {
				// what was written is some of what was given, in order
				i, ok := 0, true
				for _, g := range got {
					if !strings.HasPrefix(g, what) {
						continue
					}
					for i < len(given) && given[i] != g {
						i++
					}
					ok = ok && i < len(given)
					i++
				}
				k.check(st, "telemetry", op+": "+what, ok, token.NoPos, "%q was written, and %q was given", got, given)
				if v, set := last[what]; set && final && st.gInt("everfailed") == tZero {
					found := false
					for _, g := range got {
						found = found || g == what+"["+v+"]" || g == "log["+v+"]"
					}
					k.check(st, "telemetry", op+": last "+what, found, token.NoPos, "%s [%s] was not written: %q", what, v, got)
				}
			}
		}
		for _, op := range strings.Fields(script) {
			if k.s.dead {
				break
			}
			switch {
			case op[0] == 'F':
				for _, p := range strings.Split(op[1:], ",") {
					var i, n int
					fmt.Sscanf(p, "%d:%d", &i, &n)
					k.fails[i] = n
				}
			case strings.HasPrefix(op, "t:"):
				set("timing", op[2:], tPath)
			case strings.HasPrefix(op, "s:"):
				set("stalls", op[2:], sPath)
			case op == "sec":
				clock += 1500000000
				st.store(addrPath(coll, fieldPath(cT, "t")...), now(clock))
				// with resource usage of the last seconds
				n := int64(6)
				arr := newObj("rusage", types.NewArray(ruT, n))
				st.setMem(arr, zeroVal(types.NewArray(ruT, n)))
				for j := int64(0); j < n-1; j++ {
					v := zeroVal(ruT)
					v = withF(ruT, v, fieldIdx(ruT, "t"), now(clock-(n-2-j)*600000000))
					st.store(addrPath(mkAddr(arr), mkInt(j)), v)
				}
				ru := fieldPath(cT, "rusage", "data")
				st.store(addrPath(coll, ru...), mkSlice(mkAddr(arr), tZero, mkInt(n), mkInt(n)))
				st.store(addrPath(coll, fieldPath(cT, "rusage", "i")...), mkInt(n-1))
			case strings.HasPrefix(op, "create"):
				res := do(create, mkStr(op[6:]))
				if res == nil {
					break
				}
				okc := st.isTrue(mkEqv(st.f.rw(res[0]), tNil))
				k.check(st, "reported", "create", okc == (files[op[6:]] != nil), create.Pos(), "creating %q returns %v", op[6:], res)
			case op == "start":
				if res := do(start); res != nil {
					k.check(st, "reported", "Start", st.isTrue(mkEqv(st.f.rw(res[0]), tNil)), start.Pos(), "Start fails with %v, and nothing has", res)
				}
			case op == "notify":
				if res := do(notify); res != nil {
					isErr := !st.isTrue(mkEqv(st.f.rw(res[0]), tNil))
					k.check(st, "reported", "Notify: none but", !isErr || st.gInt("everfailed") != tZero, notify.Pos(), "Notify fails with %v, and nothing has", res)
					if isErr {
						st.setG("failed", tZero)
					}
					lines("Notify", false)
				}
			case op == "drain":
				st = k.s.drain(st)
				lines("drain", true)
			case op == "stop":
				if res := do(stop); res != nil {
					isErr := !st.isTrue(mkEqv(st.f.rw(res[0]), tNil))
					k.check(st, "reported", "Stop", isErr == (st.gInt("failed") != tZero), stop.Pos(), "Stop returns %v, failed %v", res, st.g("failed"))
					st.setG("failed", tZero)
					k.check(st, "single", "Stop", k.s.live() == 0, stop.Pos(), "Stop returns while the worker is running")
					lines("Stop", true)
				}
			}
		}
		if !k.s.dead {
			k.check(st, "live", "done", true, token.NoPos, "")
		}
		return k.s.points
	}
	scripts := []string{
		"start t:5,7 notify stop", "createa start t:5,7 notify stop", "createa start t:5,7 notify drain s:3 notify drain t:1 s: notify drain stop",
		"createa start t:5 notify t:6 notify t:7 notify stop start s:8 notify stop", "start t:5 notify drain s:3,4,5 notify stop start t:2 notify drain createb t:6 notify drain stop",
		"createa start sec notify drain sec t:9 notify drain notify stop", "createbad start t:1 notify stop", "createa start t:1 notify drain createb t:2 notify drain createbad t:3 notify drain stop",
		"F0:3 createa start t:5 notify drain stop", "F0:0,1:0 createa start t:5 notify drain t:6 notify drain stop start t:7 notify stop", "start stop", "stop start notify notify stop stop",
	}
	bgSchedules(r, "telemetry", scripts, one)
}

func timeK(x *X, st *State, t *Term) *Term {
	t = st.f.rw(t)
	if t.op == OApp && t.name == "now" {
		return t.args[0]
	}
	return mkInt(-1 << 40)
}

// bgAll: the workers of a platform.
func bgAll(r *Run) {
	w := r.w
	bT, wT := w.typ("x/platform", "BackgroundWorkers"), w.typ("x/platform", "BackgroundWorker")
	for _, op := range [][2]string{{"Enter", "Start"}, {"Exit", "Stop"}, {"Notify", "Notify"}} {
		fn := w.methodOf(bT, op[0])
		for n := 0; n <= 3; n++ {
			for fails := 0; fails < 1<<n; fails++ {
				nm := fmt.Sprintf("%s of %d workers, failing %b", op[0], n, fails)
				r.analyse(nm, func(x *X) {
					x.precise, x.noMerge = true, true
					st := newState()
					var ws []*Term
					for i := 0; i < n; i++ {
						ws = append(ws, tok(fmt.Sprint("worker ", i)))
					}
					called := func(st *State) []*Term {
						if v := st.g("called"); v != nil && v.op == OApp {
							return v.args
						}
						return nil
					}
					x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
						if ci.method == nil {
							return nil, false
						}
						for i, t := range ws {
							if ci.recv == t {
								x.check(st, "all", nm, ci.method.Name() == op[1], ci.site.Pos(), "%s is called", ci.method.Name())
								st.setG("called", mkApp("list", nil, append(append([]*Term(nil), called(st)...), t)...))
								if fails>>i&1 != 0 {
									return ret(st, tok(fmt.Sprint("failure ", i))), true
								}
								return ret(st, tNil), true
							}
						}
						return nil, false
					}
					bg := withF(bT, zeroVal(bT), fieldIdx(bT, "workers"), x.elemSlice(st, wT, ws...))
					var recv *Term = bg
					if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); isP {
						recv = x.objWith(st, "bg", bT, bg)
					}
					args := []*Term{recv}
					if len(fn.Params) > 1 {
						args = append(args, tok("term"))
					}
					for _, o := range x.exec(st, fn, args, nil) {
						if o.panicked {
							x.check(o.st, "all", nm, false, fn.Pos(), "panics with %v", o.pv)
							continue
						}
						got := called(o.st)
						res := o.st.f.rw(o.ret[0])
						if op[0] == "Exit" {
							each := len(got) == n
							for _, t := range ws {
								c := 0
								for _, g := range got {
									if g == t {
										c++
									}
								}
								each = each && c == 1
							}
							x.check(o.st, "all", nm, each, fn.Pos(), "stops %v", got)
							ok := fails == 0 && res == tNil
							for j := 0; j < len(got) && !ok; j++ { // the first that failed
								for i, t := range ws {
									if got[j] == t && fails>>i&1 != 0 {
										ok, j = res == tok(fmt.Sprint("failure ", i)), len(got)
										break
									}
								}
							}
							x.check(o.st, "all", nm+": result", ok, fn.Pos(), "returns %v", res)
							continue
						}
						want, first := ws, tNil
						for i := range ws {
							if fails>>i&1 != 0 {
								want, first = ws[:i+1], tok(fmt.Sprint("failure ", i))
								break
							}
						}
						same := len(got) == len(want)
						for i := range want {
							same = same && got[i] == want[i]
						}
						x.check(o.st, "all", nm, same && res == first, fn.Pos(), "calls %v and returns %v", got, res)
					}
				})
			}
		}
	}
}
