package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Run is one property check.
type Run struct {
	w        *World
	id       string
	tier     string
	obls     map[string]*Obl
	fns      map[string]bool
	paths    int
	blocks   int
	steps    int
	loops    int
	rules    map[string]string
	minima   map[string]int
	notes    []string
	assume   []string
	entries  []string
	undec    []string
	detached bool
}

type clientFn func(r *Run)

var clients = map[string]clientFn{}

func key(rule, c string) string { return rule + " @ " + c }

func (r *Run) rule(id, text string, min int) {
	r.rules[id] = text
	r.minima[id] = min
}

// absorb folds the obligations of one engine run.
func (r *Run) absorb(x *X) {
	for _, o := range x.log {
		r.add(o)
	}
	for _, s := range x.soft {
		r.undecided("check", s)
	}
	for f := range x.fnsSet {
		r.fns[f.String()] = true
	}
	r.blocks += x.nBlk
	r.steps += x.steps
	r.loops += x.loops
}
func (r *Run) add(o oblRec) {
	k := key(o.rule, o.construct)
	e := r.obls[k]
	if e == nil {
		e = &Obl{Rule: o.rule, Construct: o.construct, OK: true}
		r.obls[k] = e
	}
	e.N++
	if !o.ok && e.OK {
		e.OK = false
		e.Msg, e.Pos, e.Trace = o.msg, o.pos, o.tr
	}
}
func (r *Run) obl(rule, construct string, ok bool, pos, format string, a ...any) {
	o := oblRec{rule: rule, construct: construct, ok: ok, pos: pos}
	if !ok {
		o.msg = fmt.Sprintf(format, a...)
	}
	r.add(o)
}

// undecided records an entry the analysis could not complete: reported in the
// evidence as not explored, never as held nor as a violation.
func (r *Run) undecided(entry, why string) {
	r.undec = append(r.undec, entry+": "+why)
}

// analyse runs body with an engine; undecided analyses become failed
// obligations.
func (r *Run) analyse(entry string, body func(x *X)) {
	if only := os.Getenv("ENTRY"); only != "" { // for debugging
		if entry != only {
			return
		}
		t0 := time.Now()
		defer func() { fmt.Fprintln(os.Stderr, "ENTRY", entry, time.Since(t0)) }()
	}
	r.entries = append(r.entries, entry)
	x := newX(r.w.prog)
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case undecided:
					r.undecided(entry, e.msg)
				case anchorErr:
					if e.hard {
						r.obl("anchor", e.msg, false, "", "%s", e.msg)
					} else {
						r.undecided(entry, e.msg)
					}
				default:
					if os.Getenv("DBGPANIC") != "" {
						panic(e)
					}
					st := string(debug.Stack())
					if len(st) > 1500 {
						st = st[:1500]
					}
					r.undecided(entry, fmt.Sprintf("internal error: %v\n%s", e, st))
				}
				x.log = nil
			}
		}()
		body(x)
		r.obl("decided", entry, true, "", "")
	}()
	r.absorb(x)
}

type known struct {
	Property, Rule, Construct, What string
}

func loadKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		// finding: property=<id> rule=<rule> construct=<construct> :: what
		if !strings.HasPrefix(ln, "finding:") {
			continue
		}
		head, what, _ := strings.Cut(ln[len("finding:"):], " :: ")
		var k known
		k.What = what
		if i := strings.Index(head, " construct="); i >= 0 {
			k.Construct = strings.TrimSpace(head[i+len(" construct="):])
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Property = v
			}
			if v, ok := strings.CutPrefix(f, "rule="); ok {
				k.Rule = v
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: checker ID [quick|thorough]")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	id := args[0]
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	start := time.Now()
	if id == "dump" {
		dump(args[1:])
		return
	}
	if id == "all" {
		code := 0
		w, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range sortedKeys(clients) {
			if len(args) > 1 && !strings.Contains(args[1], c) {
				continue
			}
			t := time.Now()
			if runOne(w, nil, c, "quick", verif, t) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	}
	w, err := load()
	os.Exit(runOne(w, err, id, tier, verif, start))
}

func runOne(w *World, lerr error, id, tier, verif string, start time.Time) int {
	r := &Run{w: w, id: id, tier: tier, obls: map[string]*Obl{}, fns: map[string]bool{}, rules: map[string]string{}, minima: map[string]int{}}
	if lerr != nil {
		r.obl("load", "/repo", false, "", "cannot load and type-check /repo: %v", lerr)
	} else {
		c, ok := clients[id]
		if !ok {
			fmt.Println("unknown property", id)
			return 2
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if a, ok := e.(anchorErr); ok {
						if a.hard {
							r.obl("anchor", a.msg, false, "", "%s", a.msg)
						} else {
							r.undecided("anchors", a.msg)
						}
						return
					}
					if os.Getenv("DBGPANIC") != "" {
						panic(e)
					}
					r.undecided("checker", fmt.Sprintf("internal error: %v\n%s", e, string(debug.Stack())))
				}
			}()
			c(r)
		}()
	}
	// vacuity
	cnt := map[string]int{}
	for _, o := range r.obls {
		cnt[o.Rule]++
	}
	broken := false
	for _, o := range r.obls {
		if !o.OK {
			broken = true
		}
	}
	for _, k := range sortedKeys(r.minima) {
		if cnt[k] < r.minima[k] && !broken && len(r.undec) == 0 {
			r.obl("vacuity", k, false, "", "rule %s matched %d constructs, fewer than the %d confirmed by hand", k, cnt[k], r.minima[k])
		}
	}
	kn := loadKnown(verif)
	var viol []*Obl
	found := 0
	for _, k := range sortedKeys(r.obls) {
		o := r.obls[k]
		if o.OK {
			continue
		}
		isKnown := false
		for _, f := range kn {
			if f.Property == id && f.Rule == o.Rule && f.Construct == o.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s rule=%s construct=%s %s\n", id, o.Rule, o.Construct, f.What)
				isKnown = true
				found++
				break
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	rep := filepath.Join(ev, id+".report.txt")
	os.Remove(rep)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "VIOLATION property=%s\n  rule: %s (%s)\n  construct: %s\n  at: %s\n  %s\n", id, o.Rule, r.rules[o.Rule], o.Construct, o.Pos, o.Msg)
			for _, t := range o.Trace {
				fmt.Fprintf(&sb, "    path: %s\n", t)
			}
		}
		os.WriteFile(rep, []byte(sb.String()), 0o644)
	}
	r.writeEvidence(ev, viol, found, time.Since(start))
	nOK := 0
	for _, o := range r.obls {
		if o.OK {
			nOK++
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations; %d functions, %d block visits, %.1fs\n", id, len(r.obls), nOK, found, len(viol), len(r.fns), r.blocks, time.Since(start).Seconds())
	for _, u := range r.undec {
		fmt.Printf("UNDECIDED (not explored): %s\n", u)
	}
	if len(r.undec) > 0 && os.Getenv("STRICT") != "" {
		return 3
	}
	if len(viol) > 0 {
		b, _ := os.ReadFile(rep)
		s := string(b)
		if len(s) > 12000 {
			s = s[:12000] + "...\n"
		}
		fmt.Print(s)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return 1
	}
	return 0
}

func (r *Run) writeEvidence(dir string, viol []*Obl, nknown int, d time.Duration) {
	per := map[string]map[string]int{}
	nOK := 0
	for _, o := range r.obls {
		m := per[o.Rule]
		if m == nil {
			m = map[string]int{}
			per[o.Rule] = m
		}
		m["constructs"]++
		m["path_instances"] += o.N
		if o.OK {
			m["discharged"]++
			nOK++
		}
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ruleList := []map[string]any{}
	for _, k := range sortedKeys(per) {
		e := map[string]any{"rule": k, "text": r.rules[k]}
		for a, b := range per[k] {
			e[a] = b
		}
		if m, ok := r.minima[k]; ok {
			e["minimum_constructs"] = m
		}
		ruleList = append(ruleList, e)
	}
	obls := []string{}
	for _, k := range sortedKeys(r.obls) {
		obls = append(obls, k)
	}
	if len(obls) > 400 {
		obls = obls[:400]
	}
	expl := fmt.Sprintf("Abstract interpretation / dataflow over the SSA form of the current /repo source (nothing is executed). %d rules gave %d obligations (rule x construct) on %d analysed functions, %d abstract block visits, %d widened loops; %d discharged, %d recorded known findings, %d violations.",
		len(per), len(r.obls), len(fns), r.blocks, r.loops, nOK, nknown, len(viol))
	m := evidence(r.id, r.tier, expl, len(r.obls), nOK, len(viol), nknown, d, ruleList, fns, obls, r.entries, append(append(r.notes, initNotes...), prefixAll("undecided, not explored: ", r.undec)...))
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644)
}

func prefixAll(p string, xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, p+x)
	}
	return out
}
