package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C32"] = c32 }

// ovStep is a frame: keys typed, or a control pressed (found by its label on
// the screen of the frame before), and what changes.
type ovStep struct {
	keys    string
	label   string // pressed
	dx      int    // columns off the label's first one
	right   int    // if given, columns off the right edge instead
	times   int    // presses, 1 if 0
	changes string // the setting that changes
	wants   string // what then is on the screen
	lacks   string // what then is not
}

// ovScene is an overlay's state, a screen, and frames.
type ovScene struct {
	w, h   int
	flags  string // settings that are on
	named  bool   // profiles are configured
	nanos  int64
	pprofs string // profiles there are
	fail   bool   // the client fails
	frames []ovStep
}

func (s ovScene) String() string {
	t := fmt.Sprintf("%dx%d %s", s.w, s.h, s.flags)
	if s.named {
		t += " named"
	}
	if s.fail {
		t += " failing"
	}
	if s.pprofs != "" {
		t += " profiles " + s.pprofs
	}
	for _, f := range s.frames {
		switch {
		case f.label != "":
			t += fmt.Sprintf(" press %q", f.label)
			if f.times > 1 {
				t += fmt.Sprint("*", f.times)
			}
		default:
			t += fmt.Sprintf(" %q", f.keys)
		}
	}
	return t
}

var ovFlags = map[string][]string{
	"Visible": {"HUD", "HUDState", "Visible"}, "TimeDetail": {"HUD", "HUDState", "TimeDetail"}, "ProfDetail": {"HUD", "HUDState", "ProfDetail"}, "FPSDetail": {"HUD", "HUDState", "FPSDetail"}, "FPSControl": {"HUD", "HUDState", "FPSControl"},
	"Paused": {"State", "Paused"}, "TimingEnabled": {"Telemetry", "TelemetryState", "TimingEnabled"}, "StallDataEnabled": {"Telemetry", "TelemetryState", "StallDataEnabled"}, "LogTiming": {"Telemetry", "TelemetryState", "LogTiming"}, "LogStallData": {"Telemetry", "TelemetryState", "LogStallData"},
}

var ovNames = []string{"Visible", "TimeDetail", "ProfDetail", "FPSDetail", "FPSControl", "Paused", "TimingEnabled", "StallDataEnabled", "LogTiming", "LogStallData"}

func c32(r *Run) {
	r.rule("live", "the overlay is drawn on a screen of any size, and drawing it ends", 60)
	r.rule("client", "the client is updated once a frame, before the overlay is drawn, with all input but Ctrl-K, and its failure is returned", 60)
	r.rule("hidden", "an overlay that is hidden draws nothing and takes no input", 6)
	r.rule("toggle", "Ctrl-K shows and hides the overlay", 6)
	r.rule("control", "pressing a control changes what it is for, and nothing else", 30)
	r.rule("shown", "the details that are on are shown, and no others", 30)
	r.rule("taken", "presses of controls are struck out, and no other input is", 30)
	for i, s := range ovScenes(r.tier == "thorough") {
		n := len(volTerms)
		ovPlay(r, s)
		if i > 3 {
			dropVol(n)
		}
		if r.bad() > 8 {
			break // it is broken all over
		}
	}
}

func ovScenes(thorough bool) (out []ovScene) {
	add := func(s ovScene) { out = append(out, s) }
	press := func(label, changes string) ovStep { return ovStep{label: label, changes: changes} }
	const W, H = 52, 34
	// hidden and toggled
	for _, keys := range []string{"", "a", "\x0b", "\x0b\x0b", "b\x0bc\x1b[A", "\x0b\x0b\x0b", "\x1b[<0;3;3M", "\x1b[<0;50;1M\x0b", "\x1b[<0;50;1M\x0b\x0b"} {
		for _, f := range []string{"", "Visible", "TimeDetail FPSDetail"} {
			st := ovStep{keys: keys}
			if strings.Count(keys, "\x0b")%2 == 1 {
				st.changes = "Visible"
			}
			if strings.Contains(keys, "\x1b[<0;50;1M") && (f == "Visible" || st.changes != "") {
				continue
			}
			add(ovScene{w: 50, h: 12, flags: f, frames: []ovStep{st}})
			if keys == "" || keys == "\x0b" {
				add(ovScene{w: 50, h: 12, flags: f, fail: true, frames: []ovStep{st}})
			}
		}
	}
	// sizes
	ws, hs := []int{1, 2, 5, 10, 16, 17, 18, 19, 21, 25, 30, 40, 43, 44}, []int{1, 2, 3, 8, 20}
	states := []string{"Visible", "Visible TimeDetail", "Visible ProfDetail", "Visible FPSDetail TimingEnabled StallDataEnabled", "Visible TimeDetail ProfDetail FPSDetail Paused TimingEnabled LogTiming"}
	for i, wd := range ws {
		for j, ht := range hs {
			for k, f := range states {
				if !thorough && (i+j+k)%5 != 0 && !(k == 4 && (i+j)%2 == 0) {
					continue
				}
				mx, my := 1+(i*7+j)%wd, 1+(j+k)%ht
				st := ovStep{keys: fmt.Sprintf("\x1b[<0;%d;%dM", mx, my), changes: "?"}
				add(ovScene{w: wd, h: ht, flags: f, nanos: int64(i) * 76923076, frames: []ovStep{{}, st}})
			}
		}
	}
	// controls
	ctl := func(flags string, frames ...ovStep) { add(ovScene{w: W, h: H, flags: flags, frames: frames}) }
	ctl("Visible", ovStep{}, press("12:34:56", "TimeDetail"), ovStep{wants: "paused"}, press("12:34:56", "TimeDetail"), ovStep{lacks: "paused"})
	ctl("Visible", ovStep{}, press("FPS:", "FPSDetail"), ovStep{wants: "# Frame Timing:"}, press("FPS:", "FPSDetail"))
	ctl("Visible", ovStep{}, press("⊙", "ProfDetail"), ovStep{wants: "# Profiling Control:"}, press("# Profiling Control:", "ProfDetail"), ovStep{lacks: "Profiling"})
	for _, t := range []int{2, 3} {
		for _, c := range [][2]string{{"12:34:56", "TimeDetail"}, {"FPS:", "FPSDetail"}, {"⊙", "ProfDetail"}} {
			st := ovStep{label: c[0], times: t}
			if t == 3 {
				st.changes = c[1]
			}
			ctl("Visible", ovStep{}, st)
		}
	}
	ctl("Visible TimeDetail", ovStep{wants: "Pause"}, press("[ ", "Paused"), ovStep{wants: "Resume"}, press("[ ", "Paused"), ovStep{wants: "Pause", lacks: "Resume"})
	ctl("Visible FPSDetail", ovStep{}, press("# Frame Control:", "FPSControl"), ovStep{}, press("# Frame Control:", "FPSControl"))
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", named: true, frames: []ovStep{{}, {label: "@All", changes: "on:cpu+trace"}, {}, {label: "@Trace profiler", changes: "off:trace"}, {}, {label: "@All", changes: "off:cpu"}, {}}})
	ctl("Visible TimeDetail", ovStep{wants: "Start"}, press("Start", "recorded:"), ovStep{label: "Start", times: 2})
	for _, other := range []string{"", " Paused", " FPSDetail"} {
		for _, c := range [][2]string{{"Log Timing", "LogTiming"}, {"Log Stalls", "LogStallData"}} {
			ctl("Visible TimeDetail"+other, ovStep{wants: c[0]}, ovStep{label: c[0], right: 9, changes: c[1]}, ovStep{label: c[0], right: 9, changes: c[1]})
			ctl("Visible FPSDetail "+c[1]+other, ovStep{wants: "true"}, ovStep{label: c[0], right: 5, changes: c[1]}, ovStep{label: c[0], right: 9, times: 2})
		}
	}
	for _, flags := range []string{"Visible FPSDetail", "Visible FPSDetail TimeDetail"} {
		ctl(flags, ovStep{lacks: "estimate"}, press("# Frame Timing:", "TimingEnabled"), ovStep{wants: "estimate"}, press("# Frame Timing:", "TimingEnabled"), ovStep{lacks: "estimate"})
		ctl(flags, ovStep{lacks: "max t"}, press("# Output Stalls:", "StallDataEnabled"), ovStep{wants: "max t"}, press("# Output Stalls:", "StallDataEnabled"), ovStep{lacks: "max t"})
	}
	// profiles
	for _, named := range []bool{true, false} {
		for _, row := range []string{"CPU", "Trace"} {
			k := strings.ToLower(row)
			row := "@" + row + " profiler"
			frames := []ovStep{{}, {label: row, changes: "on:" + k}, {}, {label: row, changes: "off:" + k}}
			add(ovScene{w: W, h: H, flags: "Visible ProfDetail", named: named, nanos: 260000000, frames: frames})
		}
	}
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", pprofs: "heap,block,mutex", frames: []ovStep{{wants: "PProf"}, {label: "PProf", right: 6}, {wants: "mutex"}, {label: "block", changes: "added:block"}, {wants: "block"}}})
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", pprofs: "heap,block,mutex", frames: []ovStep{{wants: "PProf"}, {label: "PProf", right: 6}, {wants: "mutex"}, {label: "mutex", changes: "added:mutex"}, {}, {label: "PProf", right: 6}, {wants: "heap"}, {label: "heap", changes: "added:heap"}, {}, {label: "PProf", right: 6}, {wants: "block  ", lacks: "mutex  "}, {wants: "block  ", lacks: "heap  "}}})
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", pprofs: "heap,block,mutex", frames: []ovStep{{wants: "PProf"}, {label: "PProf", right: 6}, {keys: "\x1b[<0;1;9M"}, {lacks: "mutex"}}})
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", pprofs: "heap", named: true, frames: []ovStep{{wants: "PProf"}, {label: "PProf", right: 6}, {}, {keys: "\x1b[<0;1;9M"}}})
	for _, d := range []string{"TimeDetail", "ProfDetail", "FPSDetail", "TimeDetail ProfDetail", "ProfDetail FPSDetail TimingEnabled", "TimeDetail StallDataEnabled TimingEnabled", "TimeDetail FPSControl"} {
		ctl("Visible "+d, ovStep{})
	}
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", frames: []ovStep{{}, {label: "CPU profiler", right: 6}, {}, {label: "CPU profiler", right: 6, changes: "created:prof.cpu"}, {}}})
	add(ovScene{w: W, h: H, flags: "Visible ProfDetail", named: true, frames: []ovStep{{}, {label: "Trace profiler", right: 6}, {keys: "2"}, {keys: "\r", changes: "created:2trace"}, {}}})
	// where telemetry goes
	add(ovScene{w: W, h: H, flags: "Visible TimeDetail", frames: []ovStep{{wants: "Go Log"}, {label: "Go Log"}, {keys: "xy"}, {keys: "\r", changes: "created:xy"}, {wants: "xy", lacks: "Go Log"}}})
	add(ovScene{w: W, h: H, flags: "Visible TimeDetail", frames: []ovStep{{wants: "Go Log"}, {label: "Go Log"}, {keys: "x"}, {keys: "\x1b"}, {wants: "Go Log"}}})
	return out
}

func ovPlay(r *Run, s ovScene) {
	w := r.w
	hudT, ctxT, esT, tsT := w.typ("x/platform", "HUD"), w.typ("x/platform", "Context"), w.typ("x/platform", "Events"), w.typ("", "TermScreen")
	k := newConfKit(r)
	update, decB, mkCtx := w.methodOf(hudT, "Update"), w.methodOf(esT, "DecodeBytes"), w.methodOf(k.platT, "Context")
	tScreen := fieldPath(tsT, "ScreenDiffer", "VirtualScreen", "Screen")
	iType, iEsc := fieldPath(esT, "Type"), fieldPath(esT, "esc")
	kNone := w.constInt("x/platform", "EventNone")
	gk := newGridKit(w)
	nm := fmt.Sprint(s)
	clientIs, failure := tok("client"), tok("client failure")
	r.analyse(nm, func(x *X) {
		st, cfg := k.prepare(x, s.named)
		x.budget = 3000000
		plat := addrPath(cfg.args[0])
		path := func(names ...string) *Term { return addrPath(plat, fieldPath(k.platT, names...)...) }
		conf := x.h.call
		hooks := hudHooks(x, w)
		st.setMem(globalObj(w.global("x/platform", "nullFile")), tok("file\x00/dev/null\x000"))
		dead := false
		var ctx, out, es *Term
		blank := func(st *State) bool {
			cells, ok := gk.cells(x, st, fieldOf(st.f.rw(st.load(addrPath(out, tScreen...))), gk.sGrid, nil))
			for _, c := range cells {
				ok = ok && (c.r == tZero || c.r == mkInt(' '))
			}
			return ok
		}
		types_ := func(st *State) []*Term {
			ts, ok := x.elems(st, st.load(addrPath(es, iType...)))
			if !ok {
				x.fail("unknown events")
			}
			return ts
		}
		var sent []int64 // event types given to the client
		x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			cn := ci.name()
			if ci.method != nil && ci.method.Name() == "Update" && st.f.rw(ci.recv) == clientIs {
				x.check(st, "client", nm+": once", st.gInt("updated") == tZero, ci.site.Pos(), "the client is updated again in a frame")
				x.check(st, "client", nm+": before", blank(st), ci.site.Pos(), "the client finds drawings on the screen")
				st.setG("updated", tOne)
				ts := types_(st)
				ok := len(ts) == len(sent)
				for i := 0; ok && i < len(ts); i++ {
					ok = st.eq(ts[i], mkInt(sent[i]))
				}
				x.check(st, "client", nm+": input", ok, ci.site.Pos(), "the client is given events of types %v, want %v", ts, sent)
				if s.fail {
					return ret(st, failure), true
				}
				return ret(st, tNil), true
			}
			switch cn {
			case "(time.Time).Format":
				return ret(st, mkStr("12:34:56.789012")), true
			case "(time.Time).Nanosecond":
				return ret(st, mkInt(s.nanos)), true
			case "(time.Time).Sub":
				return ret(st, tZero), true
			case "(time.Time).IsZero":
				return ret(st, tFalse), true
			case "(time.Duration).String", "(image.Point).String", "(github.com/jcorbin/anansi/ansi.Point).String":
				return ret(st, mkStr("12345")), true
			case "strconv.Itoa", "strconv.FormatInt":
				return ret(st, mkStr("0")), true
			case "os.Create", "os.OpenFile":
				if n := st.f.rw(ci.args[0]); n.op == OStr && n.name == "auto.rec" { // recording is not part of this
					st.setG("recorded", linK(st.gInt("recorded"), 1))
					return ret(st, tNil, tok("cannot record")), true
				}
			case "runtime/pprof.Profiles":
				var els []*Term
				for _, p := range strings.Split(s.pprofs, ",") {
					if p != "" {
						els = append(els, tok("profile\x00"+p))
					}
				}
				if els == nil {
					return ret(st, tNil), true
				}
				return ret(st, x.elemSlice(st, types.NewPointer(w.prog.ImportedPackage("runtime/pprof").Type("Profile").Type()), els...)), true
			case "fmt.Sprintf":
				if o, ok := hooks(x, st, ci); ok {
					return o, ok
				}
				if f := st.f.rw(ci.args[0]); f.op == OStr { // of what isn't known
					var sb strings.Builder
					for i := 0; i < len(f.name); i++ {
						if f.name[i] != '%' {
							sb.WriteByte(f.name[i])
							continue
						}
						for i++; i < len(f.name) && strings.IndexByte(" .0123456789+-#", f.name[i]) >= 0; i++ {
						}
						sb.WriteByte('0')
					}
					return ret(st, mkStr(sb.String())), true
				}
			}
			if o, ok := hooks(x, st, ci); ok {
				return o, ok
			}
			return conf(x, st, ci)
		}
		x.endless = func(st *State, fn *ssa.Function, header *ssa.BasicBlock) {
			x.check(st, "live", nm, false, fn.Pos(), "a loop in %v does not end", fn)
			dead = true
		}
		x.h.bounds = func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, what string, cond *Term) bool {
			if st.decide(cond) != 1 {
				x.check(st, "live", nm, false, in.Pos(), "%v: %s does not hold", fn, what)
				dead = true
				return false
			}
			return true
		}
		do := func(f *ssa.Function, args ...*Term) ([]*Term, bool) {
			outs := x.exec(st, f, args, nil)
			for _, o := range outs {
				if o.panicked {
					x.check(o.st, "live", nm, false, f.Pos(), "%s panics with %v", f.Name(), o.pv)
					return nil, false
				}
			}
			if dead {
				return nil, false
			}
			if len(outs) != 1 {
				x.fail("%v ends in %d ways", f, len(outs))
			}
			st = outs[0].st
			return outs[0].ret, true
		}
		on := map[string]bool{}
		for _, f := range strings.Fields(s.flags) {
			on[f] = true
			st.store(path(ovFlags[f]...), tTrue)
		}
		rets, ok := do(mkCtx, plat)
		if !ok {
			return
		}
		ctx = x.objWith(st, "ctx", ctxT, st.f.rw(rets[0]))
		es, out = st.f.rw(st.load(addrPath(ctx, fieldPath(ctxT, "Input")...))), st.f.rw(st.load(addrPath(ctx, fieldPath(ctxT, "Output")...)))
		var back []cell
		for i := 0; i < s.w*s.h; i++ {
			back = append(back, constCell(0, 0))
		}
		nProfs, nRec := -1, int64(0)
		var shown []string // rows, each rune one column
		find := func(label string) (int, int, bool) {
			for y, row := range shown {
				if i := strings.Index(row, label); i >= 0 {
					return len([]rune(row[:i])) + 1, y + 1, true
				}
			}
			return 0, 0, false
		}
		for n, fr := range s.frames {
			at := fmt.Sprintf("%s, frame %d", nm, n+1)
			st.setG("updated", tZero)
			text, struck := fr.keys, fr.label != ""
			if fr.label != "" {
				label := strings.TrimPrefix(fr.label, "@")
				px, py, ok := find(label)
				x.check(st, "control", at+": shown", ok, update.Pos(), "%q is not on the screen: %q", label, shown)
				if !ok {
					return
				}
				if label != fr.label { // the spinner of a row
					px += len([]rune(label))
				}
				px += fr.dx
				if fr.right > 0 {
					px = s.w + 1 - fr.right
				}
				text = strings.Repeat(fmt.Sprintf("\x1b[<0;%d;%dM", px, py), max(1, fr.times))
			}
			st.store(addrPath(out, tScreen...), gk.screen(gk.grid(x, st, back, s.w, full(s.w, s.h)), 1, 1, tZero, tFalse))
			st.store(es, zeroVal(esT))
			if text != "" {
				if _, ok := do(decB, es, x.elemSlice(st, byteT, byteStr(text)...)); !ok {
					return
				}
			}
			sent = nil
			escs, _ := x.elems(st, st.load(addrPath(es, iEsc...)))
			for i, t := range types_(st) {
				v, ok := st.constOf(st.f.rw(t))
				if !ok {
					x.fail("unknown events")
				}
				if st.eq(escs[i], mkInt(11)) {
					v = kNone
				}
				sent = append(sent, v)
			}
			rets, ok := do(update, path("HUD"), ctx, clientIs)
			if !ok {
				return
			}
			x.check(st, "live", at, true, update.Pos(), "")
			x.check(st, "client", at+": updated", st.gInt("updated") == tOne, update.Pos(), "the client is not updated")
			err := st.f.rw(rets[0])
			want := tNil
			if s.fail {
				want = failure
			}
			x.check(st, "client", at+": result", err == want, update.Pos(), "Update returns %v, want %v", err, want)
			// settings
			if fr.changes != "?" {
				if _, is := ovFlags[fr.changes]; is {
					on[fr.changes] = !on[fr.changes]
				}
				rule := "control"
				if fr.label == "" {
					rule = "toggle"
				}
				for _, f := range ovNames {
					x.check(st, rule, at+": "+f, st.eq(st.load(path(ovFlags[f]...)), mkBool(on[f])), update.Pos(), "%s is %v", f, st.load(path(ovFlags[f]...)))
				}
				what, name, _ := strings.Cut(fr.changes, ":")
				switch what {
				case "on", "off":
					for _, n := range strings.Split(name, "+") {
						on["profile "+n] = what == "on"
					}
				case "added":
					found := 0
					if what == "recorded" {
						nRec++
					}
					x.check(st, "control", at+": recording", st.eq(st.gInt("recorded"), mkInt(nRec)), update.Pos(), "%v recordings are started", st.gInt("recorded"))
					ps, ok := x.elems(st, st.load(path("Config", "pprofProfiles")))
					for _, p := range ps {
						for _, f := range st.f.rw(p).args {
							if n, is := cfProfile(st.f.rw(f)); is && n == name {
								found++
							}
						}
					}
					x.check(st, "control", at, ok && found == 1, update.Pos(), "the %s profile is there %d times", name, found)
				case "created":
					found := 0
					for _, f := range list(st, "created") {
						if n, _ := cfFile(f); n == name {
							found++
						}
					}
					x.check(st, "control", at, found == 1, update.Pos(), "files %v were created", list(st, "created"))
				}
				for _, name := range []string{"cpu", "trace"} {
					v := st.g("on:" + name)
					if what == "created" { // which starts it
						on["profile "+name] = v != nil && v != tNil
					}
					x.check(st, "control", at+": "+name, (v != nil && v != tNil) == on["profile "+name], update.Pos(), "the %s profile is %v", name, v)
				}
				ps, ok := x.elems(st, st.load(path("Config", "pprofProfiles")))
				if what == "added" {
					nProfs++
				}
				x.check(st, "control", at+": profiles", ok && (nProfs < 0 || len(ps) == nProfs), update.Pos(), "there are %d profiles", len(ps))
				nProfs = len(ps)
				// input
				if on["Visible"] {
					ts := types_(st)
					if struck {
						ok := len(ts) == len(sent)
						for i := 0; ok && i < len(ts); i++ {
							ok = st.eq(ts[i], mkInt(kNone))
						}
						x.check(st, "taken", at, ok, update.Pos(), "presses are left as %v", ts)
					}
				}
			}
			cells, ok := gk.cells(x, st, fieldOf(st.f.rw(st.load(addrPath(out, tScreen...))), gk.sGrid, nil))
			if !ok || len(cells) != len(back) {
				x.fail("unknown cells")
			}
			shown = nil
			drawn := false
			for y := 0; y < s.h; y++ {
				var row []rune
				for _, c := range cells[y*s.w : (y+1)*s.w] {
					v, ok := st.constOf(st.f.rw(c.r))
					if !ok {
						x.fail("unknown cells")
					}
					drawn = drawn || v != 0
					if v == 0 {
						v = ' '
					}
					row = append(row, rune(v))
				}
				shown = append(shown, string(row))
			}
			if !on["Visible"] {
				x.check(st, "hidden", at, !drawn, update.Pos(), "draws %q", shown)
				ts := types_(st)
				ok := len(ts) == len(sent)
				for i := 0; ok && i < len(ts); i++ {
					ok = st.eq(ts[i], mkInt(sent[i]))
				}
				x.check(st, "hidden", at+": input", ok, update.Pos(), "events are left as %v, want %v", ts, sent)
			} else if fr.changes == "" && fr.label == "" {
				x.check(st, "toggle", at+": shown", drawn, update.Pos(), "nothing is drawn")
				if fr.keys != "" && fr.keys != "\x0b" && fr.wants == "" && len(s.frames) == 1 {
					ts := types_(st)
					ok := len(ts) == len(sent)
					for i := 0; ok && i < len(ts); i++ {
						ok = st.eq(ts[i], mkInt(sent[i]))
					}
					x.check(st, "taken", at+": others", ok, update.Pos(), "events are left as %v, want %v", ts, sent)
				}
			}
			if s.w >= 52 && fr.label == "" && fr.changes == "" {
				v := on["Visible"]
				for label, want := range map[string]bool{
					"12:34:56": v, "FPS:": v, "paused": v && on["TimeDetail"], "# Telemetry:": v && (on["TimeDetail"] || on["FPSDetail"]),
					"# Frame Timing:": v && on["FPSDetail"], "# Output Stalls:": v && on["FPSDetail"], "# Profiling Control:": v && on["ProfDetail"],
					"estimate": v && on["FPSDetail"] && on["TimingEnabled"], "max t": v && on["FPSDetail"] && on["StallDataEnabled"],
				} {
					_, _, is := find(label)
					x.check(st, "shown", at+": "+label, is == want, update.Pos(), "%q is shown: %v, in %q", label, is, shown)
				}
			}
			if fr.wants != "" {
				_, _, ok := find(fr.wants)
				x.check(st, "control", at+": shows", ok, update.Pos(), "%q is not shown: %q", fr.wants, shown)
			}
			if fr.lacks != "" {
				_, _, ok := find(fr.lacks)
				x.check(st, "control", at+": shows not", !ok, update.Pos(), "%q is shown: %q", fr.lacks, shown)
			}
		}
	})
}
