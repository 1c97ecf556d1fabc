package main

// C31: configuration of a platform, and the profiles it takes.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C31"] = c31 }

// cfConfig is a value of each field of a Config.
type cfConfig struct {
	s [5]string // LogFileName, CPUProfileName, TraceFileName, MemProfileName, TelemetryLogFileName
	b [2]bool   // StartTiming, LogTiming
}

var (
	cfStrs  = []string{"LogFileName", "CPUProfileName", "TraceFileName", "MemProfileName", "TelemetryLogFileName"}
	cfBools = []string{"StartTiming", "LogTiming"}
	cfFlags = map[string]string{"logfile": "LogFileName", "cpuprofile": "CPUProfileName", "memprofile": "MemProfileName",
		"tracefile": "TraceFileName", "timing": "StartTiming", "timing.log": "LogTiming"}
)

func (c cfConfig) String() string {
	var l []string
	for i, s := range c.s {
		if s != "" {
			l = append(l, cfStrs[i]+":"+s)
		}
	}
	for i, b := range c.b {
		if b {
			l = append(l, cfBools[i])
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

// merge is what applying o after c configures.
func (c cfConfig) merge(o cfConfig) cfConfig {
	for i := range c.s {
		if c.s[i] == "" {
			c.s[i] = o.s[i]
		}
	}
	for i := range c.b {
		c.b[i] = c.b[i] || o.b[i]
	}
	return c
}

// cfCase is one way to make a platform.
type cfCase struct {
	opts   []cfConfig // given as options
	rate   int64      // FrameRate option, in front of them
	parsed bool       // flags were parsed already
	flags  cfConfig   // what the command line says
	fail   int        // which file operation fails (from 1)
}

func (c cfCase) String() string {
	s := fmt.Sprint(c.opts)
	if c.rate > 0 {
		s += fmt.Sprintf(" %d fps", c.rate)
	}
	if c.parsed {
		s += " parsed"
	}
	if c.flags != (cfConfig{}) {
		s += fmt.Sprint(" flags", c.flags)
	}
	if c.fail > 0 {
		s += fmt.Sprintf(" failing %d", c.fail)
	}
	return s
}

func c31(r *Run) {
	r.rule("merge", "configuration given earlier wins for names; timing is on if any says so", 40)
	r.rule("flags", "each flag sets its field, and has the field's present value as default", 12)
	r.rule("parse", "the command line is parsed once, when it was not and no configuration was given", 8)
	r.rule("files", "each file that is named is created once, and no other", 20)
	r.rule("logs", "messages logged while the platform runs are in the log file when it has ended", 4)
	r.rule("telemetry", "telemetry goes to the file named for it", 4)
	r.rule("timing", "timing is measured and logged as configured", 20)
	r.rule("rate", "frames are shown at the rate asked for", 4)
	r.rule("ticker", "a ticker ticks while it is entered, and nothing waits for one that is not", 30)
	r.rule("result", "the first failure is returned, and nothing runs after it", 20)
	r.rule("started", "profiles are started into emptied files", 100)
	r.rule("flushed", "profiles are written out when they are stopped", 100)
	r.rule("misuse", "no file is used after it was closed, and no profile is started twice", 100)

	k := newConfKit(r)
	k.merges()
	k.addFlags()
	for _, c := range cfCases(r.tier == "thorough") {
		k.makes(c)
	}
	depth := 3
	if r.tier == "thorough" {
		depth = 4
	}
	for _, kind := range []string{"cpu", "trace", "heap"} {
		for _, named := range []bool{true, false} {
			k.profiles(kind, named, depth)
		}
	}
	k.together()
	k.tickers()
}

func cfCases(thorough bool) []cfCase {
	full := cfConfig{s: [5]string{"log", "cpu", "trace", "mem", "tel"}, b: [2]bool{true, true}}
	none := cfConfig{}
	one := func(i int, s string) cfConfig {
		var c cfConfig
		c.s[i] = s
		return c
	}
	out := []cfCase{
		{parsed: true},
		{},
		{opts: []cfConfig{none}},
		{opts: []cfConfig{full}},
		{opts: []cfConfig{full}, parsed: true},
		{flags: full},
		{flags: full, parsed: true},
		{flags: cfConfig{b: [2]bool{true, false}}},
		{flags: cfConfig{b: [2]bool{false, true}}},
		{opts: []cfConfig{{b: [2]bool{true, false}}}},
		{opts: []cfConfig{{b: [2]bool{false, true}}}},
		{opts: []cfConfig{none, {b: [2]bool{true, false}}}},
		{opts: []cfConfig{none}, flags: full},
		{opts: []cfConfig{one(0, "a"), full}},
		{opts: []cfConfig{one(1, "a"), one(1, "b")}},
		{rate: 30, parsed: true},
		{rate: 120, flags: full},
		{rate: 1, opts: []cfConfig{full}},
		{rate: 25},
	}
	for i := range cfStrs {
		out = append(out, cfCase{opts: []cfConfig{one(i, "n")}}, cfCase{opts: []cfConfig{one(i, "n")}, fail: 1})
		if i < 4 {
			out = append(out, cfCase{flags: one(i, "n")}, cfCase{flags: one(i, "n"), fail: 1})
		}
	}
	for f := 1; f <= 5; f++ {
		out = append(out, cfCase{opts: []cfConfig{full}, fail: f})
		if thorough {
			if f < 5 {
				out = append(out, cfCase{flags: full, fail: f})
			}
			out = append(out, cfCase{rate: 10, opts: []cfConfig{full}, parsed: true, fail: f})
		}
	}
	if thorough {
		for i := range cfStrs {
			for j := range cfStrs {
				out = append(out, cfCase{opts: []cfConfig{one(i, "a"), one(j, "b")}}, cfCase{opts: []cfConfig{one(i, "a"), one(j, "b"), full}, fail: 2})
			}
		}
		for rate := int64(2); rate <= 100; rate += 7 {
			out = append(out, cfCase{rate: rate, parsed: true})
		}
	}
	return out
}

// confKit runs platform code against files and profilers that are models.
type confKit struct {
	r            *Run
	w            *World
	cfgT, platT  types.Type
	in, out, run *Term
}

func newConfKit(r *Run) *confKit {
	w := r.w
	return &confKit{r: r, w: w, cfgT: w.typ("x/platform", "Config"), platT: w.typ("x/platform", "Platform"),
		in: tok("input-file"), out: tok("output-file"), run: mkAtom("runfn", nil)}
}

func (k *confKit) val(c cfConfig) *Term {
	v := zeroVal(k.cfgT)
	for i, n := range cfStrs {
		v = withF(k.cfgT, v, fieldIdx(k.cfgT, n), mkStr(c.s[i]))
	}
	for i, n := range cfBools {
		v = withF(k.cfgT, v, fieldIdx(k.cfgT, n), mkBool(c.b[i]))
	}
	return v
}

// diff says how a Config value differs from what it should be.
func (k *confKit) diff(st *State, v *Term, want cfConfig) string {
	v = st.f.rw(v)
	for i, n := range cfStrs {
		f := st.f.rw(fieldOf(v, fieldIdx(k.cfgT, n), types.Typ[types.String]))
		if f != mkStr(want.s[i]) {
			return fmt.Sprintf("%s is %v, want %q", n, f, want.s[i])
		}
	}
	for i, n := range cfBools {
		f := st.f.rw(fieldOf(v, fieldIdx(k.cfgT, n), types.Typ[types.Bool]))
		if !st.eq(f, mkBool(want.b[i])) {
			return fmt.Sprintf("%s is %v, want %v", n, f, want.b[i])
		}
	}
	return ""
}

// merges decides Config.Merge, a field at a time and all at once.
func (k *confKit) merges() {
	merge := k.w.methodOf(k.cfgT, "Merge")
	k.r.analyse("Config.Merge", func(x *X) {
		strs := []string{"", "a", "b"}
		var pairs [][2]cfConfig
		for _, others := range []string{"", "o"} {
			for f := 0; f < 5; f++ {
				for _, a := range strs {
					for _, b := range strs {
						var c, d cfConfig
						for i := range c.s {
							c.s[i], d.s[i] = others, ""
						}
						c.s[f], d.s[f] = a, b
						pairs = append(pairs, [2]cfConfig{c, d})
						for i := range c.s {
							if i != f {
								c.s[i], d.s[i] = "", others
							}
						}
						pairs = append(pairs, [2]cfConfig{c, d})
					}
				}
			}
			for n := 0; n < 16; n++ {
				c, d := cfConfig{s: [5]string{others}}, cfConfig{s: [5]string{others}}
				c.b, d.b = [2]bool{n&1 != 0, n&2 != 0}, [2]bool{n&4 != 0, n&8 != 0}
				pairs = append(pairs, [2]cfConfig{c, d})
			}
		}
		for _, p := range pairs {
			st := newState()
			obj := x.objWith(st, "cfg", k.cfgT, k.val(p[0]))
			for _, o := range x.exec(st, merge, []*Term{obj, k.val(p[1])}, nil) {
				why := fmt.Sprintf("panics with %v", o.pv)
				if !o.panicked {
					why = k.diff(o.st, o.st.load(obj), p[0].merge(p[1]))
				}
				x.check(o.st, "merge", fmt.Sprintf("%v.Merge(%v)", p[0], p[1]), why == "", merge.Pos(), "%s", why)
			}
		}
	})
}

// addFlags decides Config.AddFlags.
func (k *confKit) addFlags() {
	add := k.w.methodOf(k.cfgT, "AddFlags")
	for _, prefix := range []string{"", "platform.", "x"} {
		for _, c := range []cfConfig{{}, {s: [5]string{"log", "cpu", "trace", "mem", "tel"}}, {s: [5]string{"l", "", "t", ""}, b: [2]bool{true, false}}, {b: [2]bool{false, true}}, {b: [2]bool{true, true}}} {
			k.r.analyse(fmt.Sprintf("AddFlags(%q) of %v", prefix, c), func(x *X) {
				at := fmt.Sprintf("%q of %v", prefix, c)
				st := newState()
				obj := x.objWith(st, "cfg", k.cfgT, k.val(c))
				k.hooks(x, cfCase{})
				for _, o := range x.exec(st, add, []*Term{obj, tok("flags"), mkStr(prefix)}, nil) {
					st := o.st
					if o.panicked {
						x.check(st, "flags", at, false, add.Pos(), "panics with %v", o.pv)
						continue
					}
					why := k.diff(st, st.load(obj), c)
					x.check(st, "flags", at+": defaults", why == "", add.Pos(), "before flags are parsed %s", why)
					reg := list(st, "flags")
					want := 6
					if prefix == "" {
						want = 4
					}
					x.check(st, "flags", at, len(reg) == want, add.Pos(), "%d flags are added, not %d", len(reg), want)
					for _, f := range reg {
						nm, ok := strings.CutPrefix(f.args[0].name, prefix)
						field, known := cfFlags[nm]
						x.check(st, "flags", at+" "+nm, ok && known && !(prefix == "" && strings.HasPrefix(nm, "timing")), add.Pos(), "adds a flag %q", f.args[0].name)
						if !known {
							continue
						}
						n, w := st.fork(), c
						for i, s := range cfStrs {
							if s == field {
								n.store(f.args[1], mkStr("given"))
								w.s[i] = "given"
							}
						}
						for i, s := range cfBools {
							if s == field {
								n.store(f.args[1], mkBool(!c.b[i]))
								w.b[i] = !c.b[i]
							}
						}
						why := k.diff(n, n.load(obj), w)
						x.check(st, "flags", at+" "+nm+": sets", why == "", add.Pos(), "once it is given %s", why)
					}
				}
			})
		}
	}
}

func list(st *State, k string) []*Term {
	if v := st.g(k); v != nil && v.op == OApp {
		return v.args
	}
	return nil
}

// cfFile is the name of a file.
func cfFile(f *Term) (string, bool) { return cfTok(f, "file") }

// cfProfile is the name of a pprof profile.
func cfProfile(f *Term) (string, bool) { return cfTok(f, "profile") }

func cfTok(f *Term, kind string) (string, bool) {
	if f == nil || f.op != OApp || f.name != "tok" {
		return "", false
	}
	l := strings.Split(f.args[0].name, "\x00")
	if len(l) < 2 || l[0] != kind {
		return "", false
	}
	return l[1], true
}

func setList(st *State, k string, l []*Term) { st.setG(k, mkApp("list", nil, l...)) }

// hooks are models of files, flags and profilers.
func (k *confKit) hooks(x *X, c cfCase) {
	x.precise, x.noMerge = true, true
	x.unrollSt = 4000
	at := func(st *State) string { return gStr(st, "at") }
	// fails says whether an operation that can fail does so now
	fails := func(st *State) bool {
		n := linK(st.gInt("op"), 1)
		st.setG("op", n)
		f := st.g("fail")
		if from := st.g("failfrom"); from != nil && from != tZero {
			a, _ := st.constOf(n)
			b, _ := st.constOf(from)
			if a < b {
				return false
			}
		} else if f == nil || f != n {
			return false
		}
		if st.gInt("failed") == tZero {
			st.setG("failed", n)
		}
		return true
	}
	boom := func(st *State) *Term { return tok(fmt.Sprint("operation failed: ", st.gInt("op"))) }
	key := func(f *Term) string { return fmt.Sprint("file:", f) }
	used := func(st *State, f *Term, ci *CallInfo, what string) {
		if _, ok := cfFile(f); !ok {
			x.check(st, "misuse", at(st)+": "+what, false, ci.site.Pos(), "%s of %v", what, f)
			return
		}
		x.check(st, "misuse", at(st)+": "+what, st.g("closed:"+key(f)) == nil, ci.site.Pos(), "%s of %v, which is closed", what, f)
	}
	content := func(st *State, f *Term) string { return gStr(st, key(f)) }
	setContent := func(st *State, f *Term, s string) { st.setG(key(f), mkStr(s)) }
	x.h.chanop = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, op string, ch, v *Term) {}
	x.h.sel = func(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) {
		for i, c := range cases {
			ch := st.f.rw(c.ch)
			if ch != tNil && ch.op == OApp && ch.name == "chan" && types.Identical(chElem(ch), errT) && blocking {
				return []selPick{{st: st, idx: i, v: tNil, ok: tFalse}}, true
			}
		}
		if !blocking {
			return []selPick{{st: st, idx: -1}}, true
		}
		x.fail("waits")
		return nil, true
	}
	x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
		if v.op == OApp && v.name == "tok" {
			return 0
		}
		return -1
	}
	fileOf := func(st *State, v *Term) *Term {
		v = st.f.rw(v)
		if v.op == OIface {
			v = st.f.rw(v.args[0])
		}
		return v
	}
	x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		nm := ci.name()
		arg := func(i int) *Term { return st.f.rw(ci.args[i]) }
		switch {
		case ci.fn == nil && ci.method == nil && ci.clos == k.run:
			x.check(st, "result", at(st)+": runs", st.gInt("mustfail") == tZero, ci.site.Pos(), "the application runs although its platform could not be made")
			st.setG("ran", tOne)
			st.setG("platform", ci.args[0])
			return ret(st, tNil), true
		case nm == "os.Create", nm == "os.OpenFile" && len(ci.args) == 3:
			name := arg(0)
			if name.op != OStr {
				x.fail("creates %v", name)
			}
			if fails(st) {
				return ret(st, tNil, boom(st)), true
			}
			n := int64(len(list(st, "created")))
			f := tok(fmt.Sprintf("file\x00%s\x00%d", name.name, n))
			setList(st, "created", append(append([]*Term(nil), list(st, "created")...), f))
			setContent(st, f, "")
			return ret(st, f, tNil), true
		case nm == "(*os.File).Name":
			if n, ok := cfFile(arg(0)); ok {
				return ret(st, mkStr(n)), true
			}
		case nm == "(*os.File).Close":
			used(st, arg(0), ci, "close")
			st.setG("closed:"+key(arg(0)), tOne)
			return ret(st, tNil), true
		case nm == "(*os.File).Seek":
			used(st, arg(0), ci, "seek")
			if fails(st) {
				return ret(st, tZero, boom(st)), true
			}
			pos := tOne
			if arg(1) == tZero && arg(2) == tZero {
				pos = tZero
			}
			st.setG("pos:"+key(arg(0)), pos)
			return ret(st, tZero, tNil), true
		case nm == "(*os.File).Truncate":
			used(st, arg(0), ci, "truncate")
			if fails(st) {
				return ret(st, boom(st)), true
			}
			if arg(1) == tZero {
				setContent(st, arg(0), "")
			} else if n, ok := st.constOf(arg(1)); ok && n >= 0 {
				setContent(st, arg(0), strings.Repeat("?", int(n)))
			} else {
				x.fail("truncates to %v", ci.args)
			}
			return ret(st, tNil), true
		case nm == "(*os.File).Sync":
			used(st, arg(0), ci, "sync")
			if fails(st) {
				return ret(st, boom(st)), true
			}
			st.setG("synced:"+key(arg(0)), mkStr(content(st, arg(0))))
			return ret(st, tNil), true
		case nm == "(*os.File).Write":
			used(st, arg(0), ci, "write")
			bs, ok := x.constBytes(st, ci.args[1])
			if !ok {
				x.fail("writes %v", ci.args[1])
			}
			setContent(st, arg(0), content(st, arg(0))+string(bs))
			return ret(st, mkInt(int64(len(bs))), tNil), true
		case nm == "runtime/pprof.StartCPUProfile", nm == "runtime/trace.Start":
			kind := map[bool]string{true: "cpu", false: "trace"}[strings.HasSuffix(nm, "Profile")]
			f := fileOf(st, ci.args[0])
			used(st, f, ci, "start "+kind)
			x.check(st, "misuse", at(st)+": once", st.g("on:"+kind) == nil || st.g("on:"+kind) == tNil, ci.site.Pos(), "the %s profile is started while it runs", kind)
			if fails(st) {
				return ret(st, boom(st)), true
			}
			x.check(st, "started", at(st), content(st, f) == "" && (st.g("pos:"+key(f)) == nil || st.g("pos:"+key(f)) == tZero), ci.site.Pos(), "the %s profile is started into a file that has %q in it", kind, content(st, f))
			st.setG("on:"+kind, f)
			st.setG("pos:"+key(f), tOne)
			return ret(st, tNil), true
		case nm == "runtime/pprof.StopCPUProfile", nm == "runtime/trace.Stop":
			kind := map[bool]string{true: "cpu", false: "trace"}[strings.HasSuffix(nm, "Profile")]
			if f := st.g("on:" + kind); f != nil && f != tNil {
				used(st, f, ci, "stop "+kind)
				setContent(st, f, content(st, f)+kind)
				st.setG("on:"+kind, tNil)
			}
			return ret(st), true
		case nm == "runtime/pprof.Lookup":
			if arg(0).op != OStr {
				x.fail("looks up %v", arg(0))
			}
			return ret(st, tok("profile\x00"+arg(0).name)), true
		case nm == "(*runtime/pprof.Profile).Name":
			if n, ok := cfProfile(arg(0)); ok {
				return ret(st, mkStr(n)), true
			}
		case nm == "runtime/pprof.WriteHeapProfile", nm == "(*runtime/pprof.Profile).WriteTo":
			name, f := "heap", fileOf(st, ci.args[0])
			if strings.HasPrefix(nm, "(") {
				n, ok := cfProfile(arg(0))
				if !ok {
					x.fail("writes profile %v", arg(0))
				}
				name = n
				f = fileOf(st, ci.args[1])
			}
			used(st, f, ci, "write")
			if fails(st) {
				return ret(st, boom(st)), true
			}
			p := st.g("pos:" + key(f))
			x.check(st, "started", at(st), content(st, f) == "" && (p == nil || p == tZero), ci.site.Pos(), "the %s profile is written to a file that has %q in it", name, content(st, f))
			setContent(st, f, content(st, f)+name)
			st.setG("pos:"+key(f), tOne)
			return ret(st, tNil), true
		case nm == "flag.Parsed":
			return ret(st, mkBool(st.gInt("parsed") != tZero)), true
		case nm == "(*flag.FlagSet).StringVar", nm == "(*flag.FlagSet).BoolVar":
			if arg(2).op != OStr {
				x.fail("flag %v", arg(2))
			}
			st.store(ci.args[1], ci.args[3])
			setList(st, "flags", append(append([]*Term(nil), list(st, "flags")...), mkApp("flag", nil, arg(2), ci.args[1])))
			return ret(st), true
		case nm == "flag.Parse", nm == "(*flag.FlagSet).Parse":
			x.check(st, "parse", at(st)+": once", st.gInt("parsed") == tZero, ci.site.Pos(), "flags are parsed although they were")
			st.setG("parsed", tOne)
			for _, f := range list(st, "flags") {
				field := cfFlags[strings.TrimPrefix(f.args[0].name, "platform.")]
				for i, s := range cfStrs {
					if s == field && c.flags.s[i] != "" {
						st.store(f.args[1], mkStr(c.flags.s[i]))
					}
				}
				for i, s := range cfBools {
					if s == field && c.flags.b[i] {
						st.store(f.args[1], tTrue)
					}
				}
			}
			return ret(st, tNil)[:1:1], true
		case nm == "os/signal.Notify", nm == "os/signal.Stop", strings.HasPrefix(nm, "log.Print"):
			return ret(st), true
		case nm == "time.NewTicker":
			st.setG("rate", st.f.rw(ci.args[0]))
			return ret(st, tok("ticker")), true
		case nm == "(*bytes.Buffer).Write":
			if outs := bufAppend(x, st, ci.args[0], toSlice(ci.args[1])); outs != nil {
				return outs, true
			}
			return ret(st, toSlice(ci.args[1]).args[2], tNil), true
		case nm == "bytes.IndexByte", nm == "bytes.LastIndexByte":
			bs, ok := x.constBytes(st, ci.args[0])
			c, okc := st.constOf(arg(1))
			if ok && okc {
				i := strings.IndexByte(string(bs), byte(c))
				if nm == "bytes.LastIndexByte" {
					i = strings.LastIndexByte(string(bs), byte(c))
				}
				return ret(st, mkInt(int64(i))), true
			}
		case nm == "(*bytes.Buffer).Grow":
			return growModel(x, st, ci.args[0], ci.args[1], 0), true
		case nm == "(*bytes.Buffer).WriteTo":
			b, off := bufFields(st, ci.args[0])
			if b == tNil {
				return ret(st, tZero, tNil), true
			}
			s := toSlice(b)
			bs, ok := x.constBytes(st, mkSlice(s.args[0], linAdd(s.args[1], off), linSub(s.args[2], off), linSub(s.args[3], off)))
			if !ok {
				x.fail("writes %v", s)
			}
			f := fileOf(st, ci.args[1])
			if len(bs) > 0 {
				used(st, f, ci, "write")
				setContent(st, f, content(st, f)+string(bs))
			}
			st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(s.args[0], s.args[1], tZero, s.args[3]))
			st.store(addrPath(ci.args[0], mkFld(1)), tZero)
			return ret(st, mkInt(int64(len(bs))), tNil), true
		case strings.HasPrefix(nm, "(*os.File).") || strings.HasPrefix(nm, "runtime/pprof.") || strings.HasPrefix(nm, "runtime/trace."):
			x.fail("calls %s", nm)
		}
		return nil, false
	}
}

// start is a state in which nothing has happened yet.
func (k *confKit) start(at string) *State {
	st := newState()
	st.setMem(globalObj(k.w.global("x/platform", "Logs")), zeroVal(k.w.typ("x/platform", "LogSink")))
	st.setG("at", mkStr(at))
	return st
}

// options are the Options of a case.
func (k *confKit) options(x *X, st *State, c cfCase) (*State, *Term) {
	optT := k.w.typ("x/platform", "Option")
	var els []*Term
	if c.rate > 0 {
		fr := k.w.fn("x/platform", "FrameRate")
		for _, o := range x.exec(st, fr, []*Term{mkInt(c.rate)}, nil) {
			if o.panicked {
				x.fail("FrameRate panics with %v", o.pv)
			}
			st, els = o.st, []*Term{o.ret[0]}
		}
	}
	for _, o := range c.opts {
		els = append(els, mkIface(k.cfgT, k.val(o)))
	}
	if len(els) == 0 {
		return st, tNil
	}
	return st, x.elemSlice(st, optT, els...)
}

// makes decides what New makes of its options and the command line, and what
// becomes of it when the platform runs.
func (k *confKit) makes(c cfCase) {
	w := k.w
	newP, run := w.fn("x/platform", "New"), w.fn("x/platform", "Run")
	at := fmt.Sprint(c)
	eff := cfConfig{}
	parses := !c.parsed && len(c.opts) == 0
	if parses {
		eff = c.flags
		eff.s[4] = "" // there is no flag for it
	}
	for _, o := range c.opts {
		eff = eff.merge(o)
	}
	setup := func(x *X) (*State, *Term) {
		k.hooks(x, c)
		st := k.start(at)
		st.setG("parsed", tZero)
		if c.parsed {
			st.setG("parsed", tOne)
		}
		if c.fail > 0 {
			st.setG("fail", mkInt(int64(c.fail)))
			st.setG("mustfail", tOne)
		}
		return k.options(x, st, c)
	}
	if c.fail > 0 {
		k.r.analyse("Run: "+at, func(x *X) {
			st, opts := setup(x)
			for _, o := range x.exec(st, run, []*Term{k.in, k.out, k.run, opts}, nil) {
				ok := !o.panicked && st.f.rw(o.ret[0]) != tNil
				x.check(o.st, "result", at+": Run", ok, run.Pos(), "Run returns %v after a failure (panics with %v)", o.ret, o.pv)
			}
		})
	}
	k.r.analyse("New: "+at, func(x *X) {
		st, opts := setup(x)
		for _, o := range x.exec(st, newP, []*Term{k.in, k.out, opts}, nil) {
			st := o.st
			if o.panicked {
				x.check(st, "result", at, false, newP.Pos(), "panics with %v", o.pv)
				continue
			}
			failed := st.gInt("failed") != tZero
			err := st.f.rw(o.ret[1])
			x.check(st, "result", at, (err != tNil) == failed, newP.Pos(), "New returns %v", o.ret)
			if failed || err != tNil {
				continue
			}
			p := st.f.rw(o.ret[0])
			x.check(st, "parse", at, (st.gInt("parsed") != tZero) == (parses || c.parsed), newP.Pos(), "flags are parsed: %v", st.gInt("parsed"))
			cfg := addrPath(p, fieldPath(k.platT, "Config")...)
			why := k.diff(st, st.load(cfg), eff)
			x.check(st, "merge", at, why == "", newP.Pos(), "of the configuration %s", why)

			want := map[string]int{}
			for _, s := range eff.s {
				if s != "" {
					want[s]++
				}
			}
			var extra []string
			for _, f := range list(st, "created") {
				n, _ := cfFile(f)
				if want[n]--; want[n] < 0 {
					extra = append(extra, n)
				}
			}
			missing := 0
			for _, n := range want {
				missing += max(n, 0)
			}
			x.check(st, "files", at, missing == 0 && len(extra) == 0, newP.Pos(), "files %v are created", list(st, "created"))

			tel := fieldPath(k.platT, "Telemetry", "TelemetryState")
			telT := w.typ("x/platform", "TelemetryState")
			get := func(n string) bool {
				return st.isTrue(st.load(addrPath(p, append(append([]*Term(nil), tel...), mkFld(fieldIdx(telT, n)))...)))
			}
			x.check(st, "timing", at, (get("TimingEnabled") || get("LogTiming")) == (eff.b[0] || eff.b[1]), newP.Pos(), "timing is measured: %v", get("TimingEnabled"))
			x.check(st, "timing", at+": logged", get("LogTiming") == eff.b[1], newP.Pos(), "timing is logged: %v", get("LogTiming"))

			// where telemetry goes
			collT := w.typ("x/platform", "telemetryCollector")
			coll := addrPath(p, fieldPath(k.platT, "Telemetry", "coll")...)
			for _, q := range x.exec(st.fork(), w.promotedOf(collT, "file"), []*Term{coll}, nil) {
				ok := !q.panicked
				if ok {
					f := q.st.f.rw(q.ret[0])
					n, isFile := cfFile(f)
					ok = f == tNil && eff.s[4] == "" || isFile && n == eff.s[4]
				}
				x.check(q.st, "telemetry", at, ok, newP.Pos(), "telemetry goes to %v, want %q", q.ret, eff.s[4])
			}

			steps := func(st *State, what string, f *ssa.Function, args ...*Term) *State {
				outs := x.exec(st, f, args, nil)
				if len(outs) != 1 {
					x.fail("%s goes %d ways", what, len(outs))
				}
				ok := !outs[0].panicked && (len(outs[0].ret) == 0 || outs[0].st.f.rw(outs[0].ret[len(outs[0].ret)-1]) == tNil)
				x.check(outs[0].st, "result", at+": "+what, ok, f.Pos(), "%s returns %v (panics with %v)", what, outs[0].ret, outs[0].pv)
				if !ok {
					return nil
				}
				return outs[0].st
			}
			// the ticker
			tick := w.typ("x/platform", "Ticker")
			if n := steps(st.fork(), "ticker", w.promotedOf(tick, "Enter"), addrPath(p, fieldPath(k.platT, "ticker")...), tNil); n != nil {
				rate := c.rate
				if rate == 0 {
					rate = 60
				}
				d, ok := n.constOf(n.g("rate"))
				x.check(n, "rate", at, ok && d > 0 && d*rate <= 1000000000 && (d+1)*rate > 1000000000, newP.Pos(), "a frame is shown every %v ns, not %d times a second", n.g("rate"), rate)
			}
			// running
			bgT, logT := w.typ("x/platform", "BackgroundWorkers"), w.typ("x/platform", "LogSink")
			bg := addrPath(p, fieldPath(k.platT, "bg")...)
			logs := mkAddr(globalObj(w.global("x/platform", "Logs")))
			if n := steps(st.fork(), "workers start", w.promotedOf(bgT, "Enter"), bg, tNil); n != nil {
				n = steps(n, "a message", w.promotedOf(logT, "Write"), logs, x.elemSlice(n, byteT, mkInt('h'), mkInt('i'), mkInt('\n')))
				if n != nil {
					n = steps(n, "workers stop", w.promotedOf(bgT, "Exit"), bg, tNil)
				}
				if n != nil {
					for _, f := range list(n, "created") {
						name, _ := cfFile(f)
						s := gStr(n, fmt.Sprint("file:", f))
						ok := s == map[bool]string{true: "hi\n"}[name == eff.s[0]]
						x.check(n, "logs", at+": "+name, ok, newP.Pos(), "after a message %q holds %q", name, s)
					}
				}
			}
			// the profiles
			enter, exit := w.promotedOf(k.cfgT, "Enter"), w.promotedOf(k.cfgT, "Exit")
			if n := steps(st.fork(), "Enter", enter, cfg, tNil); n != nil {
				for i, kind := range []string{"cpu", "trace"} {
					f := n.g("on:" + kind)
					name, isFile := cfFile(f)
					ok := (f == nil || f == tNil) && eff.s[1+i] == "" || isFile && name == eff.s[1+i]
					x.check(n, "started", at+": "+kind, ok, enter.Pos(), "the %s profile goes to %v, want %q", kind, f, eff.s[1+i])
				}
				if n = steps(n, "Exit", exit, cfg, tNil); n != nil {
					for i, kind := range []string{"cpu", "trace", "heap"} {
						for _, f := range list(n, "created") {
							if name, _ := cfFile(f); name == eff.s[1+i] {
								x.check(n, "flushed", at+": "+kind, k.flushed(n, f, kind), exit.Pos(), "at the end %q holds %q", name, gStr(n, fmt.Sprint("file:", f)))
							}
						}
					}
				}
			}
		}
	})
}

// flushed says that a file holds a profile for good.
func (k *confKit) flushed(st *State, f *Term, kind string) bool {
	key := fmt.Sprint("file:", f)
	return gStr(st, key) == kind && gStr(st, "synced:"+key) == kind
}

// prepare makes a platform with named profiles, or not.
func (k *confKit) prepare(x *X, named bool) (*State, *Term) {
	w := k.w
	c := cfConfig{}
	if named {
		c.s = [5]string{"", "cpu", "trace", "heap", ""}
	}
	cs := cfCase{opts: []cfConfig{c}}
	k.hooks(x, cs)
	st := k.start("New")
	st, opts := k.options(x, st, cs)
	outs := x.exec(st, w.fn("x/platform", "New"), []*Term{k.in, k.out, opts}, nil)
	if len(outs) != 1 || outs[0].panicked || outs[0].st.f.rw(outs[0].ret[1]) != tNil {
		x.fail("New: %v", outs)
	}
	st = outs[0].st
	return st, addrPath(st.f.rw(outs[0].ret[0]), fieldPath(k.platT, "Config")...)
}

// profiles decides what becomes of one profile in every short history.
func (k *confKit) profiles(kind string, named bool, depth int) {
	w := k.w
	ctxT := w.typ("x/platform", map[string]string{"cpu": "cpuProfileContext", "trace": "traceProfileContext", "heap": "pprofProfileContext"}[kind])
	enter, exit := w.promotedOf(k.cfgT, "Enter"), w.promotedOf(k.cfgT, "Exit")
	start, stop, create := w.promotedOf(ctxT, "start"), w.promotedOf(ctxT, "stop"), w.promotedOf(ctxT, "create")
	isActive, file := w.promotedOf(ctxT, "isActive"), w.promotedOf(ctxT, "file")
	for _, first := range "EXSTC" {
		k.r.analyse(fmt.Sprintf("%s profile, named %v: %c…", kind, named, first), func(x *X) {
			st0, cfg := k.prepare(x, named)
			var ctx *Term
			switch kind {
			case "heap":
				list := addrPath(cfg, fieldPath(k.cfgT, "pprofProfiles")...)
				if !named {
					v := withF(ctxT, zeroVal(ctxT), fieldIdx(ctxT, "profile"), tok("profile\x00heap"))
					st0.store(list, x.elemSlice(st0, ctxT, v))
				}
				s := toSlice(st0.load(list))
				ctx = addrPath(s.args[0], s.args[1])
			default:
				ctx = addrPath(cfg, fieldPath(k.cfgT, kind+"Profile")...)
			}
			one := func(st *State, f *ssa.Function) *Term {
				outs := x.exec(st.fork(), f, []*Term{ctx}, nil)
				if len(outs) != 1 || outs[0].panicked {
					x.fail("%v: %v", f, outs)
				}
				return outs[0].st.f.rw(outs[0].ret[0])
			}
			isOn := func(st *State) bool {
				if kind == "heap" {
					return st.isTrue(one(st, isActive))
				}
				v := st.g("on:" + kind)
				return v != nil && v != tNil
			}
			var walk func(st *State, hist string, left int)
			walk = func(st *State, hist string, left int) {
				ops := "EXSTC"
				if hist == "" {
					ops = string(first)
				}
				for _, op := range ops {
					for fail := 0; fail <= 5; fail++ {
						n := st.fork()
						h := fmt.Sprintf("%s%c", hist, op)
						if fail > 0 {
							h += fmt.Sprint(fail)
						}
						at := fmt.Sprintf("%s %v %s", kind, named, h)
						n.setG("at", mkStr(at))
						n.setG("op", tZero)
						n.setG("failed", tZero)
						n.setG("fail", mkInt(int64(fail)))
						was, old := isOn(st), one(st, file)
						made := len(list(st, "created"))
						var outs []Out
						switch op {
						case 'E':
							outs = x.exec(n, enter, []*Term{cfg, tNil}, nil)
						case 'X':
							outs = x.exec(n, exit, []*Term{cfg, tNil}, nil)
						case 'S':
							outs = x.exec(n, start, []*Term{ctx}, nil)
						case 'T':
							outs = x.exec(n, stop, []*Term{ctx}, nil)
						case 'C':
							outs = x.exec(n, create, []*Term{ctx, mkStr("new")}, nil)
						}
						ran := false
						for _, o := range outs {
							n := o.st
							if o.panicked {
								x.check(n, "result", at, false, enter.Pos(), "panics with %v", o.pv)
								continue
							}
							failed := n.gInt("failed") != tZero
							if fail > 0 && !failed {
								continue // there are not that many operations
							}
							ran = true
							err := n.f.rw(o.ret[0])
							x.check(n, "result", at, (err != tNil) == failed, enter.Pos(), "returns %v", err)
							on, f := isOn(n), one(n, file)
							x.check(n, "result", at+": active", n.isTrue(one(n, isActive)) == on, isActive.Pos(), "the profile is active, by its own account: %v", one(n, isActive))
							switch {
							case op == 'E' && !failed:
								x.check(n, "started", at+": on", on == (f != tNil || was), enter.Pos(), "after Enter the profile is on: %v, with file %v", on, f)
							case op == 'S' && !failed:
								x.check(n, "started", at+": on", on && f != tNil && (old == tNil || f == old), start.Pos(), "after start the profile is on: %v, with file %v", on, f)
							case op == 'C' && !failed:
								all := list(n, "created")
								name, _ := cfFile(f)
								ok := on && len(all) == made+1 && f == all[made] && name == "new"
								ok = ok && (old == tNil || n.g("closed:"+fmt.Sprint("file:", old)) != nil)
								x.check(n, "started", at+": on", ok, create.Pos(), "after create the profile is on: %v, with file %v", on, f)
							case op == 'X', op == 'T':
								x.check(n, "flushed", at+": off", !on, exit.Pos(), "after it is stopped the profile is still on")
							}
							if was && (op == 'X' || op == 'T' || op == 'C') {
								ok := k.flushed(n, old, kind)
								if failed {
									ok = kind == "heap" || gStr(n, fmt.Sprint("file:", old)) == kind
								}
								x.check(n, "flushed", at, ok, exit.Pos(), "after it is stopped the profile's file %v holds %q", old, gStr(n, fmt.Sprint("file:", old)))
							}
							if left > 1 {
								walk(n, h+" ", left-1)
							}
						}
						if fail > 0 && !ran {
							break
						}
					}
				}
			}
			walk(st0, "", depth)
		})
	}
}

// together decides that one profile failing doesn't keep others from being
// written.
func (k *confKit) together() {
	w := k.w
	enter, exit := w.promotedOf(k.cfgT, "Enter"), w.promotedOf(k.cfgT, "Exit")
	k.r.analyse("profiles together", func(x *X) {
		st0, cfg := k.prepare(x, true)
		for round := 0; round < 2; round++ {
			for fe := 0; fe < 12; fe++ {
				for fx := 0; fx < 12; fx++ {
					if fe > 0 && fx > 0 {
						continue
					}
					at := fmt.Sprintf("round %d, Enter failing %d, Exit failing %d", round+1, fe, fx)
					st := st0.fork()
					st.setG("at", mkStr(at))
					do := func(f *ssa.Function, fail int) *Term {
						st.setG("op", tZero)
						st.setG("failed", tZero)
						st.setG("fail", mkInt(int64(fail)))
						outs := x.exec(st, f, []*Term{cfg, tNil}, nil)
						if len(outs) != 1 {
							x.fail("%v goes %d ways", f, len(outs))
						}
						st = outs[0].st
						if outs[0].panicked {
							x.check(st, "result", at, false, f.Pos(), "panics with %v", outs[0].pv)
							return tNil
						}
						err := st.f.rw(outs[0].ret[0])
						x.check(st, "result", at, (err != tNil) == (st.gInt("failed") != tZero), f.Pos(), "returns %v", err)
						return err
					}
					entered := do(enter, fe) == tNil
					if entered && fe == 0 && fx > 0 {
						// everything fails from here: the first failure is told
						n := st.fork()
						n.setG("op", tZero)
						n.setG("failed", tZero)
						n.setG("failfrom", mkInt(int64(fx)))
						for _, o := range x.exec(n, exit, []*Term{cfg, tNil}, nil) {
							ok := !o.panicked
							if f := o.st.gInt("failed"); ok && f != tZero {
								ok = o.st.f.rw(o.ret[0]) == tok(fmt.Sprint("operation failed: ", f))
							}
							x.check(o.st, "result", at+" and after", ok, exit.Pos(), "returns %v, and the first to fail was operation %v", o.ret, o.st.gInt("failed"))
							for _, kind := range []string{"cpu", "trace"} {
								v := o.st.g("on:" + kind)
								x.check(o.st, "flushed", at+" and after: off", v == nil || v == tNil, exit.Pos(), "the %s profile is still on at the end", kind)
							}
						}
					}
					if entered == (fe > 0) {
						continue
					}
					ended := do(exit, fx) == tNil
					good := 0
					for _, f := range list(st, "created") {
						if name, _ := cfFile(f); k.flushed(st, f, name) {
							good++
						}
					}
					for _, kind := range []string{"cpu", "trace"} {
						v := st.g("on:" + kind)
						x.check(st, "flushed", at+": off", v == nil || v == tNil, exit.Pos(), "the %s profile is still on at the end", kind)
					}
					if entered {
						want := 3
						if !ended {
							want = 2
						}
						x.check(st, "flushed", at, good >= want, exit.Pos(), "only %d profiles are written out", good)
					}
					if entered && ended && fe == 0 && fx == 0 && round == 0 {
						st0 = st
					}
				}
			}
		}
	})
}

// tickers decides Ticker in every short history.
func (k *confKit) tickers() {
	w := k.w
	tT := w.typ("x/platform", "Ticker")
	enter, exit, wait := w.promotedOf(tT, "Enter"), w.promotedOf(tT, "Exit"), w.promotedOf(tT, "Wait")
	tick := w.prog.ImportedPackage("time").Type("Ticker").Type()
	fC := fieldIdx(tick, "C")
	timeT := wait.Signature.Results().At(0).Type()
	now := mkApp("now", timeT, tOne)
	k.r.analyse("Ticker", func(x *X) {
		x.precise, x.noMerge = true, true
		running := func(st *State) []*Term { return list(st, "running") }
		key := func(c *Term) string { return fmt.Sprint("closed:", c) }
		var waits []*Term
		x.h.chanop = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, op string, ch, v *Term) {
			if op == "close" {
				x.check(st, "ticker", gStr(st, "at")+": close", st.f.rw(ch) != tNil, in.Pos(), "closes no channel, which panics")
				st.setG(key(st.f.rw(ch)), tOne)
			}
		}
		x.h.sel = func(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) {
			waits = nil
			var picks []selPick
			for i, c := range cases {
				ch := st.f.rw(c.ch)
				waits = append(waits, ch)
				for _, r := range running(st) {
					if r == ch {
						picks = append(picks, selPick{st: st.fork(), idx: i, v: now, ok: tTrue})
					}
				}
			}
			if len(picks) == 0 {
				x.check(st, "ticker", gStr(st, "at")+": waits", false, in.Pos(), "waits for ever")
			}
			return picks, true
		}
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			switch ci.name() {
			case "time.NewTicker":
				d, ok := st.constOf(st.f.rw(ci.args[0]))
				x.check(st, "ticker", gStr(st, "at")+": rate", ok && d > 0 && d <= 1000000000/60 && d > 1000000000/60-1000, ci.site.Pos(), "ticks every %v ns", ci.args[0])
				n := linK(st.gInt("n"), 1)
				st.setG("n", n)
				c := mkApp("chan", structOf(tick).Field(fC).Type(), linNeg(n), tOne)
				setList(st, "running", append(append([]*Term(nil), running(st)...), c))
				return ret(st, x.objWith(st, "ticker", tick, withF(tick, zeroVal(tick), fC, c))), true
			case "(*time.Ticker).Stop":
				if st.f.rw(ci.args[0]) == tNil {
					return []Out{{st: st, panicked: true, pv: tok("stops no ticker")}}, true
				}
				c := st.load(addrPath(ci.args[0], mkFld(fC)))
				var keep []*Term
				for _, r := range running(st) {
					if r != c {
						keep = append(keep, r)
					}
				}
				setList(st, "running", keep)
				return ret(st), true
			}
			return nil, false
		}
		var walk func(st *State, hist string, on bool)
		walk = func(st *State, hist string, on bool) {
			if len(hist) == 5 {
				return
			}
			obj := st.g("obj")
			for _, op := range "EXW" {
				at := hist + string(op)
				n := st.fork()
				n.setG("at", mkStr(at))
				f, args := map[rune]*ssa.Function{'E': enter, 'X': exit, 'W': wait}[op], []*Term{obj, tNil}
				if op == 'W' {
					args = args[:1]
				}
				waits = nil
				outs := x.exec(n, f, args, nil)
				if len(outs) == 0 && op == 'W' {
					continue
				}
				for _, o := range outs {
					if o.panicked {
						x.check(o.st, "ticker", at, false, f.Pos(), "panics with %v", o.pv)
						continue
					}
					res := o.st.f.rw(o.ret[0])
					now2 := on && op != 'X' || op == 'E'
					want := 0
					if now2 {
						want = 1
					}
					x.check(o.st, "ticker", at+": running", len(running(o.st)) == want, f.Pos(), "%d tickers run", len(running(o.st)))
					if op != 'W' {
						x.check(o.st, "ticker", at, res == tNil, f.Pos(), "returns %v", res)
						walk(o.st, at, now2)
						continue
					}
					ok := on && res == now || !on && o.st.eq(res, zeroVal(timeT))
					x.check(o.st, "ticker", at, ok, f.Pos(), "the next tick is %v", res)
					if on {
						// leaving ends the wait
						ws := waits
						for _, q := range x.exec(st.fork(), exit, []*Term{obj, tNil}, nil) {
							ended := q.panicked
							for _, c := range ws {
								ended = ended || q.st.g(key(c)) != nil
							}
							x.check(q.st, "ticker", at+": ended", ended, exit.Pos(), "leaving doesn't end a wait on %v", ws)
						}
					}
				}
			}
		}
		st := newState()
		st.setG("obj", x.objWith(st, "ticker", tT, zeroVal(tT)))
		walk(st, "", false)
	})
}
