package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Out struct {
	st       *State
	ret      []*Term
	panicked bool
	pv       *Term
}

// the analysis gives up (undecided) rather than run past this
var (
	procStart = time.Now()
	deadline  = 700 * time.Second
)

type CallInfo struct {
	site   ssa.CallInstruction
	caller *ssa.Function
	fn     *ssa.Function // static callee when known
	clos   *Term         // closure/func value for dynamic calls
	method *types.Func   // for invoke
	recv   *Term
	args   []*Term // includes receiver for static method calls
	isGo   bool
	isDfr  bool
}

func (ci *CallInfo) name() string {
	switch {
	case ci.fn != nil:
		return ci.fn.String()
	case ci.method != nil:
		return ci.method.FullName()
	}
	return "dynamic"
}
func (ci *CallInfo) resType() types.Type {
	if ci.fn != nil {
		return resOf(ci.fn.Signature)
	}
	if ci.method != nil {
		return resOf(ci.method.Type().(*types.Signature))
	}
	return resOf(ci.site.Common().Signature())
}
func resOf(s *types.Signature) types.Type { return s.Results() }

type Hooks struct {
	call     func(x *X, st *State, ci *CallInfo) ([]Out, bool)
	store    func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, addr, val *Term)
	load     func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, addr *Term)
	bounds   func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, what string, cond *Term) bool
	iface    func(x *X, st *State, ci *CallInfo) *Term // resolve receiver
	chanop   func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, op string, ch, v *Term)
	sel      func(x *X, st *State, in ssa.Instruction, cases []selCase, blocking bool) ([]selPick, bool) // what a channel operation does
	chlen    func(x *X, st *State, ch *Term) *Term                                                       // how many values a channel holds, nil when not known
	appnd    func(x *X, st *State, fn *ssa.Function, in ssa.Instruction, s, e *Term)
	goStmt   func(x *X, st *State, ci *CallInfo)
	progress func(x *X, st *State, fn *ssa.Function, header *ssa.BasicBlock, ok bool)
	noInl    func(fn *ssa.Function) bool
	typeOK   func(x *X, st *State, in *ssa.TypeAssert, v *Term) int // 1 yes 0 no -1 fork
}

// selCase is a channel operation: a receive, or a send of v.
type selCase struct{ ch, v *Term }

// selPick is an outcome: which case (-1 for none of them), and what it received.
type selPick struct {
	st    *State
	idx   int
	v, ok *Term
}

type oblRec struct {
	rule, construct string
	ok              bool
	msg, pos        string
	tr              []string
}

// X is one analysis run.
type X struct {
	prog   *ssa.Program
	h      Hooks
	log    []oblRec
	steps  int
	budget int
	stack  []*ssa.Function
	fnsSet map[*ssa.Function]bool
	learn  *[]*Term
	maxRec int
	merge  int
	loops  int
	paths  int
	nBlk   int

	noMerge     bool // keep every path of loop-free code apart
	precise     bool // a failing check that depends on an approximated value is undecided, not a violation
	soft        []string
	endless     func(st *State, fn *ssa.Function, header *ssa.BasicBlock) // told of loops known not to end
	unrollSt    int                                                       // raised bound on states of an unrolled loop
	only        map[string]bool                                           // the rules that are checked, if not all
	aliasAppend bool                                                      // model append's writes into spare capacity
}

type undecided struct{ msg string }

func (x *X) fail(format string, a ...any) {
	panic(undecided{fmt.Sprintf(format, a...) + x.where()})
}
func (x *X) where() string {
	var ss []string
	for _, f := range x.stack {
		ss = append(ss, f.String())
	}
	return " [in " + strings.Join(ss, " > ") + "]"
}

func newX(prog *ssa.Program) *X {
	return &X{prog: prog, budget: 6000000, fnsSet: map[*ssa.Function]bool{}, maxRec: 2, merge: 10}
}

// check records an obligation instance.
func (x *X) check(st *State, rule, construct string, ok bool, pos token.Pos, format string, a ...any) {
	if x.only != nil && !x.only[rule] {
		return
	}
	r := oblRec{rule: rule, construct: construct, ok: ok}
	if !ok && x.precise {
		why := ""
		for _, v := range a {
			switch v := v.(type) {
			case *Term:
				if st != nil && v != nil {
					v = st.f.rw(v)
				}
				why = approx(v)
			case []*Term:
				for _, t := range v {
					if why == "" {
						why = approx(t)
					}
				}
			}
			if why != "" {
				break
			}
		}
		if why == "" && st != nil {
			for _, f := range st.f.allFacts() {
				if why = approx(f); why != "" {
					break
				}
			}
		}
		if why != "" {
			x.soft = append(x.soft, fmt.Sprintf("%s: %s depends on the approximated value %s", rule, construct, why))
			return
		}
	}
	if !ok {
		r.msg = fmt.Sprintf(format, a...)
		r.pos = posStr(x.prog, pos)
		if st != nil {
			r.tr = st.trace()
		}
	}
	x.log = append(x.log, r)
}

// approx names an approximated value (result or effect of an unmodelled
// call, widened loop variable) occurring in t.
func approx(t *Term) string {
	seen := map[*Term]bool{}
	var f func(t *Term) string
	f = func(t *Term) string {
		if t == nil || seen[t] {
			return ""
		}
		seen[t] = true
		if t.op == OAtom {
			for _, p := range []string{"ret:", "by:", "φ", "mapiter", "mapdel", "conv#", "string#"} {
				if strings.HasPrefix(t.name, p) {
					return t.name
				}
			}
		}
		for _, a := range t.args {
			if w := f(a); w != "" {
				return w
			}
		}
		return ""
	}
	return f(t)
}

type defRec struct {
	ci *CallInfo
	b  string
}

type fst struct {
	st   *State
	env  map[ssa.Value]*Term
	defs []defRec
	und  map[*loopInfo]int // bit0 undecided exit, bit1 decided-stay
}

func (f *fst) fork() *fst {
	e := make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		e[k] = v
	}
	var u map[*loopInfo]int
	if len(f.und) > 0 {
		u = map[*loopInfo]int{}
		for k, v := range f.und {
			u[k] = v
		}
	}
	return &fst{st: f.st.fork(), env: e, defs: f.defs[:len(f.defs):len(f.defs)], und: u}
}

type frame struct {
	x     *X
	fn    *ssa.Function
	info  *fnInfo
	outs  []Out
	binds []*Term
}

type edge struct {
	from, to *ssa.BasicBlock
	fs       *fst
}

// ---- per-function CFG info

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}
type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo // by header
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop of block
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	fnInfos[fn] = in
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		in.rpo[b] = len(post) - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := in.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[w] {
						continue
					}
					l.blocks[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range in.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls {
		for b := range l.blocks {
			if o := in.inner[b]; o != nil && o.blocks[l.header] && o != l {
				if l.parent == nil || len(o.blocks) < len(l.parent.blocks) {
					l.parent = o
				}
			}
		}
		for b := range l.blocks {
			in.inner[b] = l
		}
	}
	// liveness
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.live[s] {
					lv[v] = true
				}
				for _, i := range s.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, p)
				}
				for _, i := range s.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							lv[p.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(lv, v)
				}
				if p, ok := ins.(*ssa.Phi); ok {
					lv[p] = true // phi values live-in (evaluated on edge)
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						lv[*op] = true
					}
				}
			}
			if len(lv) != len(in.live[b]) {
				in.live[b] = lv
				changed = true
			}
		}
	}
	return in
}

// ---- function execution

func (x *X) exec(st *State, fn *ssa.Function, args, binds []*Term) []Out {
	if len(fn.Blocks) == 0 {
		x.fail("no body for %v", fn)
	}
	if len(x.stack) > 60 {
		x.fail("call depth")
	}
	x.fnsSet[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{x: x, fn: fn, info: infoOf(fn), binds: binds}
	fs := &fst{st: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i >= len(args) {
			x.fail("arity mismatch calling %v", fn)
		}
		fs.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fs.env[p] = binds[i]
		}
	}
	ex, back := fr.region(nil, fn.Blocks[0], []*fst{fs})
	if len(ex) > 0 || len(back) > 0 {
		x.fail("internal: stray edges in %v", fn)
	}
	return x.mergeOuts(fr.outs)
}

func (x *X) mergeOuts(outs []Out) []Out {
	if x.noMerge {
		return outs
	}
	if len(outs) <= 3 {
		return outs
	}
	var res []Out
	idx := map[string]int{}
	for _, o := range outs {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%v|", o.panicked)
		for _, r := range o.ret {
			fmt.Fprintf(&sb, "%d,", o.st.f.rw(r).id)
		}
		if o.pv != nil {
			fmt.Fprintf(&sb, "p%d", o.pv.id)
		}
		sb.WriteString(stKey(o.st))
		k := sb.String()
		if j, ok := idx[k]; ok {
			if f, ok := meetFacts(res[j].st.f, o.st.f); ok {
				ns := res[j].st.fork()
				ns.f = f
				res[j].st = ns
				continue
			}
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func stKey(s *State) string {
	var ks []int
	for o, v := range s.mem {
		if v == nil {
			continue
		}
		ks = append(ks, o.id*100003+s.f.rw(v).id)
	}
	sort.Ints(ks)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v#", ks)
	for _, k := range sortedKeys(s.ghost) {
		fmt.Fprintf(&sb, "%s=%d;", k, s.f.rw(s.ghost[k]).id)
	}
	return sb.String()
}

// region executes blocks of loop l (nil: whole function) starting at entry.
func (fr *frame) region(l *loopInfo, entry *ssa.BasicBlock, in []*fst) (exits []edge, backs []*fst) {
	x := fr.x
	pending := map[*ssa.BasicBlock][]*fst{entry: in}
	first := true
	for {
		var b *ssa.BasicBlock
		for c, p := range pending {
			if len(p) > 0 && (b == nil || fr.info.rpo[c] < fr.info.rpo[b]) {
				b = c
			}
		}
		if b == nil {
			return
		}
		sts := pending[b]
		delete(pending, b)
		if len(sts) > x.merge {
			sts = fr.mergeStates(b, sts)
		}
		if len(sts) > 30000 {
			x.fail("state explosion at %v block %d (%d states)", fr.fn, b.Index, len(sts))
		}
		var edges []edge
		inner := fr.info.loops[b]
		if inner != nil && inner != l && !(first && l != nil && b == l.header) {
			for _, s := range sts {
				edges = append(edges, fr.loop(inner, s)...)
			}
		} else {
			for _, s := range sts {
				edges = append(edges, fr.block(b, s)...)
			}
		}
		first = false
		for _, e := range edges {
			switch {
			case l != nil && e.to == l.header:
				backs = append(backs, e.fs)
			case l == nil || l.blocks[e.to]:
				pending[e.to] = append(pending[e.to], e.fs)
			default:
				exits = append(exits, e)
			}
		}
	}
}

func (fr *frame) mergeStates(b *ssa.BasicBlock, sts []*fst) []*fst {
	if fr.x.noMerge {
		return sts
	}
	live := fr.info.live[b]
	var vs []ssa.Value
	for v := range live {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			continue
		}
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	idx := map[string]int{}
	var res []*fst
	for _, s := range sts {
		var sb strings.Builder
		for _, v := range vs {
			if t, ok := s.env[v]; ok {
				fmt.Fprintf(&sb, "%s=%d,", v.Name(), s.st.f.rw(t).id)
			}
		}
		for _, d := range s.defs {
			sb.WriteString(d.b)
		}
		sb.WriteString(stKey(s.st))
		k := sb.String()
		if j, ok := idx[k]; ok {
			if f, ok := meetFacts(res[j].st.f, s.st.f); ok {
				c := res[j].fork()
				c.st.f = f
				for l, u := range s.und {
					if c.und == nil {
						c.und = map[*loopInfo]int{}
					}
					c.und[l] |= u
				}
				res[j] = c
				continue
			}
		}
		idx[k] = len(res)
		res = append(res, s)
	}
	return res
}

// block runs one basic block to its terminator.
func (fr *frame) block(b *ssa.BasicBlock, fs *fst) []edge {
	// prune dead registers
	live := fr.info.live[b]
	for v := range fs.env {
		if !live[v] {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
			default:
				delete(fs.env, v)
			}
		}
	}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	fr.x.nBlk++
	return fr.run(b, i, fs)
}

func (fr *frame) run(b *ssa.BasicBlock, i int, fs *fst) []edge {
	x := fr.x
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps&255 == 0 && time.Since(procStart) > deadline {
			x.fail("time limit reached")
		}
		if x.steps > x.budget {
			x.fail("analysis budget exhausted in %v", fr.fn)
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Jump:
			return []edge{fr.enter(b, b.Succs[0], fs)}
		case *ssa.If:
			return fr.branch(b, in, fs)
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, fr.val(fs, r))
			}
			fr.outs = append(fr.outs, Out{st: fs.st, ret: rs})
			return nil
		case *ssa.Panic:
			pv := fr.val(fs, in.X)
			return fr.doPanic(fs, pv)
		case *ssa.RunDefers:
			outs := fr.runDefers(fs, nil)
			var es []edge
			for k, o := range outs {
				nf := fs
				if k < len(outs)-1 {
					nf = fs.fork()
				}
				nf.st = o.st
				nf.defs = nil
				if o.panicked {
					es = append(es, fr.unwound(nf, o.pv)...)
				} else {
					es = append(es, fr.run(b, i+1, nf)...)
				}
			}
			return es
		case *ssa.Call:
			outs := fr.callInstr(fs, in, &in.Call, in)
			if es, done := fr.cont(b, i, fs, in, outs); done {
				return es
			}
		case *ssa.Select:
			outs := fr.selectInstr(fs, in)
			if es, done := fr.cont(b, i, fs, in, outs); done {
				return es
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW && x.h.sel != nil {
				if outs, ok := fr.recvInstr(fs, in); ok {
					if es, done := fr.cont(b, i, fs, in, outs); done {
						return es
					}
					continue
				}
			}
			if p := fr.simple(fs, in); p != nil {
				return fr.doPanic(fs, p)
			}
		case *ssa.Send:
			if x.h.sel != nil {
				if picks, ok := x.h.sel(x, fs.st, in, []selCase{{fr.val(fs, in.Chan), fr.val(fs, in.X)}}, true); ok {
					var es []edge
					for k, p := range picks {
						nf := fs
						if k < len(picks)-1 {
							nf = fs.fork()
						}
						nf.st = p.st
						es = append(es, fr.run(b, i+1, nf)...)
					}
					return es
				}
			}
			if p := fr.simple(fs, in); p != nil {
				return fr.doPanic(fs, p)
			}
		case *ssa.TypeAssert:
			outs := fr.typeAssert(fs, in)
			if es, done := fr.cont(b, i, fs, in, outs); done {
				return es
			}
		case *ssa.BinOp:
			outs := fr.binop(fs, in)
			if es, done := fr.cont(b, i, fs, in, outs); done {
				return es
			}
		case *ssa.Next:
			outs := fr.nextInstr(fs, in)
			if es, done := fr.cont(b, i, fs, in, outs); done {
				return es
			}
		case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Lookup:
			if !fr.access(fs, in) {
				return fr.doPanic(fs, mkApp("tok", nil, mkStr("runtime-error")))
			}
		case *ssa.Defer:
			ci := fr.callInfo(fs, &in.Call, in)
			ci.isDfr = true
			fs.defs = append(fs.defs[:len(fs.defs):len(fs.defs)], defRec{ci, fmt.Sprintf("D%p", in)})
		case *ssa.Go:
			ci := fr.callInfo(fs, &in.Call, in)
			ci.isGo = true
			if x.h.goStmt != nil {
				x.h.goStmt(x, fs.st, ci)
			}
		default:
			if p := fr.simple(fs, in); p != nil {
				return fr.doPanic(fs, p)
			}
		}
	}
	x.fail("fell off block in %v", fr.fn)
	return nil
}

// cont binds call outcomes and continues; done=false means the single
// outcome was applied to fs in place.
func (fr *frame) cont(b *ssa.BasicBlock, i int, fs *fst, v ssa.Value, outs []Out) ([]edge, bool) {
	if len(outs) == 1 && !outs[0].panicked {
		fs.st = outs[0].st
		fr.bind(fs, v, outs[0].ret)
		return nil, false
	}
	var es []edge
	for _, o := range outs {
		nf := fs.fork()
		nf.st = o.st
		if o.panicked {
			es = append(es, fr.doPanic(nf, o.pv)...)
			continue
		}
		fr.bind(nf, v, o.ret)
		es = append(es, fr.run(b, i+1, nf)...)
	}
	return es, true
}
func (fr *frame) bind(fs *fst, v ssa.Value, ret []*Term) {
	if len(ret) == 1 {
		if t, ok := v.Type().(*types.Tuple); !ok || t.Len() == 1 && false {
			fs.env[v] = ret[0]
			return
		}
		if ret[0].op == OStruct {
			fs.env[v] = ret[0]
			return
		}
	}
	fs.env[v] = mkStruct(v.Type(), ret...)
}

func (fr *frame) doPanic(fs *fst, pv *Term) []edge {
	outs := fr.runDefers(fs, pv)
	var es []edge
	for _, o := range outs {
		nf := fs.fork()
		nf.st = o.st
		nf.defs = nil
		if o.panicked {
			es = append(es, fr.unwound(nf, o.pv)...)
			continue
		}
		// recovered
		if fr.fn.Recover != nil {
			es = append(es, edge{nil, fr.fn.Recover, nf})
			// run the recover block directly
			rest := es[:len(es)-1]
			es = append(rest, fr.block(fr.fn.Recover, nf)...)
		} else {
			var rs []*Term
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, zeroVal(res.At(i).Type()))
			}
			fr.outs = append(fr.outs, Out{st: nf.st, ret: rs})
		}
	}
	return es
}
func (fr *frame) unwound(fs *fst, pv *Term) []edge {
	fr.outs = append(fr.outs, Out{st: fs.st, panicked: true, pv: pv})
	return nil
}

// runDefers executes the deferred calls in LIFO order. pv non-nil when
// unwinding a panic.
func (fr *frame) runDefers(fs *fst, pv *Term) []Out {
	x := fr.x
	type item struct {
		st *State
		pv *Term
	}
	cur := []item{{fs.st, pv}}
	for k := len(fs.defs) - 1; k >= 0; k-- {
		d := fs.defs[k]
		var next []item
		for _, it := range cur {
			save := it.st.g("$panic")
			st := it.st
			if it.pv != nil {
				st.setG("$panic", it.pv)
			} else if save != nil {
				st.setG("$panic", tNil)
			}
			ci := *d.ci
			ci.args = append([]*Term(nil), d.ci.args...)
			for j, o := range x.call(st, &ci) {
				_ = j
				ns := o.st
				npv := it.pv
				if npv != nil && ns.g("$panic") == tNil {
					npv = nil
				}
				if o.panicked {
					npv = o.pv
				}
				if save != nil {
					ns.setG("$panic", save)
				} else if _, ok := ns.ghost["$panic"]; ok {
					ns.setG("$panic", tNil)
					delete(ns.ghost, "$panic")
				}
				next = append(next, item{ns, npv})
			}
		}
		cur = next
	}
	var outs []Out
	for _, it := range cur {
		outs = append(outs, Out{st: it.st, panicked: it.pv != nil, pv: it.pv})
	}
	return outs
}

// enter evaluates phis of to along the edge from->to.
func (fr *frame) enter(from, to *ssa.BasicBlock, fs *fst) edge {
	var vals []*Term
	var phis []*ssa.Phi
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, fr.val(fs, p.Edges[pi]))
	}
	for k, p := range phis {
		fs.env[p] = vals[k]
	}
	return edge{from, to, fs}
}

func (fr *frame) branch(b *ssa.BasicBlock, in *ssa.If, fs *fst) []edge {
	c := fr.val(fs, in.Cond)
	return fr.branchOn(b, c, fs, in)
}

func (fr *frame) branchOn(b *ssa.BasicBlock, c *Term, fs *fst, in *ssa.If) []edge {
	x := fr.x
	c = fs.st.f.rw(c)
	d := fs.st.decide(c)
	if x.learn != nil && c.op != OBool {
		*x.learn = append(*x.learn, c)
	}
	mark := func(f *fst, bit int) {
		for l := fr.info.inner[b]; l != nil; l = l.parent {
			if l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]] {
				if f.und == nil {
					f.und = map[*loopInfo]int{}
				}
				f.und[l] |= bit
			}
		}
	}
	isConst := false
	if _, ok := in.Cond.(*ssa.Const); ok {
		isConst = true
	}
	if d == 1 || d == 0 {
		if !isConst {
			mark(fs, 2)
		}
		return []edge{fr.enter(b, b.Succs[1-d], fs)}
	}
	var es []edge
	// conjunctions split precisely on the false side
	if c.op == OApp && c.name == "and" {
		tf := fs.fork()
		ok := true
		for _, a := range c.args {
			if !tf.st.assume(a, true) {
				ok = false
				break
			}
		}
		if ok {
			mark(tf, 1)
			es = append(es, fr.enter(b, b.Succs[0], tf))
		}
		base := fs
		for k, a := range c.args {
			ff := base.fork()
			if ff.st.assume(a, false) {
				mark(ff, 1)
				es = append(es, fr.enter(b, b.Succs[1], ff))
			}
			if k < len(c.args)-1 {
				base = base.fork()
				if !base.st.assume(a, true) {
					break
				}
			}
		}
		return es
	}
	tf := fs.fork()
	pos := posStr(x.prog, in.Cond.Pos())
	if tf.st.assume(c, true) {
		mark(tf, 1)
		tf.st.note("%s: %v", pos, c)
		es = append(es, fr.enter(b, b.Succs[0], tf))
	}
	ff := fs.fork()
	if ff.st.assume(c, false) {
		mark(ff, 1)
		ff.st.note("%s: not %v", pos, c)
		es = append(es, fr.enter(b, b.Succs[1], ff))
	}
	return es
}

func (fr *frame) val(fs *fst, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return mk(OClosure, "", 0, nil, v, nil)
	case *ssa.Global:
		return mkAddr(globalObj(v))
	case *ssa.Builtin:
		return mkApp("builtin:"+v.Name(), nil)
	}
	t, ok := fs.env[v]
	if !ok {
		fr.x.fail("no value for %s = %v in %v", v.Name(), v, fr.fn)
	}
	return fs.st.f.rw(t)
}

func globalObj(g *ssa.Global) *Term {
	o := mkAtom("global:"+g.String(), nil)
	if _, ok := objTypes[o]; !ok {
		objTypes[o] = g.Type().(*types.Pointer).Elem()
		globalOf[o] = g
	}
	return o
}

var globalOf = map[*Term]*ssa.Global{}

func constVal(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		if t == nil {
			return tNil
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return zeroVal(t)
		}
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if isFloatType(t) {
			return mkApp("fconst:"+c.Value.ExactString(), t)
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return mkInt(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return mkInt(int64(u)) // two's complement image
		}
	case constant.Float:
		if isIntType(t) {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkInt(i)
			}
		}
		return mkApp("fconst:"+c.Value.ExactString(), t)
	}
	return mkApp("const:"+c.Value.ExactString(), t)
}

// ---- simple instructions

func (fr *frame) simple(fs *fst, in ssa.Instruction) *Term {
	x := fr.x
	st := fs.st
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		typ := in.Type().(*types.Pointer).Elem()
		o := newObj(in.Comment, typ)
		st.setMem(o, zeroVal(typ))
		fs.env[in] = mkAddr(o)
	case *ssa.ChangeType:
		v := fr.val(fs, in.X)
		fs.env[in] = retype(v, in.Type())
	case *ssa.ChangeInterface:
		fs.env[in] = fr.val(fs, in.X)
	case *ssa.Convert:
		fs.env[in] = x.convert(st, fr.val(fs, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fs.env[in] = x.convert(st, fr.val(fs, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		tup := fr.val(fs, in.Tuple)
		fs.env[in] = fieldOf(tup, in.Index, in.Type())
	case *ssa.Field:
		v := fr.val(fs, in.X)
		fs.env[in] = fieldOf(v, in.Field, in.Type())
	case *ssa.FieldAddr:
		p := fr.val(fs, in.X)
		if p.op == ONil {
			return nilPanic
		}
		fs.env[in] = addrPath(p, mkFld(in.Field))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, fr.val(fs, b))
		}
		fs.env[in] = mk(OClosure, "", 0, nil, in.Fn, nil, bs...)
	case *ssa.MakeInterface:
		fs.env[in] = mk(OIface, "", 0, nil, in.X.Type(), nil, fr.val(fs, in.X))
	case *ssa.MakeChan:
		freshSeq++
		fs.env[in] = mkApp("chan", in.Type(), mkInt(int64(freshSeq)), fr.val(fs, in.Size))
	case *ssa.MakeMap:
		freshSeq++
		m := mkApp("mkmap", in.Type(), mkInt(int64(freshSeq)))
		fs.env[in] = m
		st.setMem(m, mkApp("emptymap", nil))
	case *ssa.MapUpdate:
		m := fr.val(fs, in.Map)
		if m.op == ONil {
			return nilPanic
		}
		st.setMem(m, mkApp("mapstore", nil, mapContent(st, m), fr.val(fs, in.Key), fr.val(fs, in.Value)))
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := newObj("makeslice", arrT(et))
		n := fr.val(fs, in.Len)
		if n.op == OConst && n.k <= 256 && n.k >= 0 {
			z := zeroVal(et)
			zs := make([]*Term, n.k)
			for i := range zs {
				zs[i] = z
			}
			st.setMem(o, mkStruct(arrT(et), zs...))
		} else {
			st.setMem(o, mkApp("zeros", et))
		}
		c := fr.val(fs, in.Cap)
		if x.h.bounds != nil && n.op != OConst {
			if !x.h.bounds(x, st, fr.fn, in, "makeslice length", mkGe0(n)) {
				return nilPanic
			}
		}
		st.assumeGe(n)
		fs.env[in] = mkSlice(mkAddr(o), tZero, n, c)
	case *ssa.Range:
		v := fr.val(fs, in.X)
		o := newObj("iter", types.Typ[types.Int])
		st.setMem(o, tZero)
		fs.env[in] = mkApp("iter", nil, o, v)
	case *ssa.Send:
		if x.h.chanop != nil {
			x.h.chanop(x, st, fr.fn, in, "send", fr.val(fs, in.Chan), fr.val(fs, in.X))
		}
	case *ssa.Store:
		a, v := fr.val(fs, in.Addr), fr.val(fs, in.Val)
		if a.op == ONil {
			return nilPanic
		}
		if x.h.store != nil {
			x.h.store(x, st, fr.fn, in, addrOf(a), v)
		}
		st.store(a, v)
	case *ssa.UnOp:
		v := fr.val(fs, in.X)
		switch in.Op {
		case token.MUL:
			if v.op == ONil {
				return nilPanic
			}
			if x.h.load != nil {
				x.h.load(x, st, fr.fn, in, addrOf(v))
			}
			fs.env[in] = st.load(addrOf(v))
		case token.NOT:
			fs.env[in] = mkNot(v)
		case token.SUB:
			if isFloatType(in.Type()) {
				fs.env[in] = mkApp("fneg", in.Type(), v)
			} else {
				fs.env[in] = x.wrapInt(st, linNeg(v), in.Type())
			}
		case token.XOR:
			w, s := width(in.Type())
			bs := st.toBits(v, w, w, s)
			nb := make([]*Term, w)
			for i := range bs {
				nb[i] = bitNot(bs[i])
			}
			fs.env[in] = fromBits(nb, s)
		case token.ARROW:
			if x.h.chanop != nil {
				x.h.chanop(x, st, fr.fn, in, "recv", v, nil)
			}
			fs.env[in] = freshVal("recv", in.Type())
		default:
			x.fail("unop %v", in.Op)
		}
	case *ssa.SliceToArrayPointer:
		v := fr.val(fs, in.X)
		if v.op == OSlice && v.args[1] == tZero {
			fs.env[in] = v.args[0]
		} else {
			fs.env[in] = fresh("arrptr", in.Type())
		}
	default:
		x.fail("unsupported instruction %T %v", in, in)
	}
	return nil
}

var nilPanic = mkApp("tok", nil, mkStr("nil-dereference"))

func retype(v *Term, t types.Type) *Term {
	if v.op == OStruct {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return mkStruct(t, v.args...)
		}
	}
	return v
}

func mapContent(st *State, m *Term) *Term {
	if c, ok := st.mem[m]; ok {
		return st.f.rw(c)
	}
	if c := constObjs[m]; c != nil {
		return c
	}
	return mkApp("mapcontent", nil, m)
}

// ---- integer ops

func (x *X) inRange(st *State, l *Term, typ types.Type) bool {
	w, s := width(typ)
	if l.op == OConst {
		if w == 64 {
			return s || l.k >= 0
		}
		lo, hi, _, _ := typeRange(typ)
		return l.k >= lo && l.k <= hi
	}
	if w == 64 && s {
		return true // documented: int arithmetic assumed not to overflow
	}
	if w == 64 {
		return st.f.prove(l)
	}
	if w == 32 && s {
		// rune/int32 arithmetic
	}
	lo, hi, _, _ := typeRange(typ)
	return st.f.prove(linK(l, -lo)) && st.f.prove(linK(linNeg(l), hi))
}

func (x *X) wrapInt(st *State, l *Term, typ types.Type) *Term {
	if x.inRange(st, l, typ) {
		return l
	}
	w, s := width(typ)
	if l.op == OConst {
		return mkInt(truncInt(l.k, w, s))
	}
	return mkApp(fmt.Sprintf("wrap%d%v", w, s), typ, l)
}
func truncInt(k int64, w int, s bool) int64 {
	if w >= 64 {
		return k
	}
	u := uint64(k) & (1<<uint(w) - 1)
	if s && u>>(uint(w)-1)&1 == 1 {
		return int64(u | ^uint64(0)<<uint(w))
	}
	return int64(u)
}

func (x *X) convert(st *State, v *Term, from, to types.Type) *Term {
	fi, ti := isIntType(from), isIntType(to)
	switch {
	case fi && ti:
		wf, sf := width(from)
		wt, s2 := width(to)
		if v.op == OConst {
			return mkInt(truncInt(v.k, wt, s2))
		}
		if wt > wf && (!sf || s2) || wt == wf && sf == s2 {
			return v
		}
		if x.inRange(st, v, to) && !(wt == 64 && s2 && !sf && wf == 64) {
			return v
		}
		if wt == 64 && s2 && !sf {
			// uint64 -> int64: keep when provably non-negative by bit width
			if v.op == OBits && len(v.args) < 64 {
				return v
			}
			if st.f.prove(linK(linNeg(v), bigNum*64)) {
				return v
			}
			return fromBits(st.toBits(v, 64, wf, sf), true)
		}
		return fromBits(st.toBits(v, wt, wf, sf), s2)
	case isStringType(to):
		if isStringType(from) {
			return v
		}
		if v.op == OSlice {
			if b, ok := from.Underlying().(*types.Slice); ok {
				if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
					c := x.sliceContent(st, v)
					return strOf(c)
				}
			}
			return fresh("string", to)
		}
		if v.op == ONil {
			return mkStr("")
		}
		if fi {
			if v.op == OConst {
				return mkStr(string(rune(v.k)))
			}
			return mkApp("runestr", to, v)
		}
		return mkApp("tostr", to, v)
	case isStringType(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				o := newObj("bytes", arrT(sl.Elem()))
				n := lenOf(v)
				st.setMem(o, mkCat([]*Term{mkChunk(strContent(v), tZero, n)}))
				return mkSlice(mkAddr(o), tZero, n, n)
			}
			if v.op == OStr {
				rs := []rune(v.name)
				o := newObj("runes", arrT(sl.Elem()))
				var ts []*Term
				for _, r := range rs {
					ts = append(ts, mkInt(int64(r)))
				}
				st.setMem(o, mkStruct(arrT(sl.Elem()), ts...))
				return mkSlice(mkAddr(o), tZero, mkInt(int64(len(rs))), mkInt(int64(len(rs))))
			}
		}
		return freshVal("conv", to)
	case isFloatType(from) || isFloatType(to):
		if v.op == OConst && isFloatType(to) {
			return mkApp(fmt.Sprintf("fconst:%d", v.k), to)
		}
		return mkApp("conv:"+to.String(), to, v)
	}
	return v
}

// strOf makes a string from byte content (an OCat).
func strOf(c *Term) *Term {
	if c.op == OCat {
		all := true
		var bs []byte
		for _, e := range c.args {
			if e.op != OElem || e.args[0].op != OConst {
				all = false
				break
			}
			bs = append(bs, byte(e.args[0].k))
		}
		if all {
			return mkStr(string(bs))
		}
		if len(c.args) == 1 && c.args[0].op == OChunk && c.args[0].args[1] == tZero {
			s := c.args[0].args[0]
			if s.op == OAtom && isStringType(s.typ) && lenOf(s) == c.args[0].args[2] {
				return s
			}
		}
	}
	return mkApp("str", types.Typ[types.String], c)
}
func strContent(s *Term) *Term {
	if s.op == OApp && s.name == "str" {
		return s.args[0]
	}
	return s
}

// sliceContent gives the content list of a slice value.
func (x *X) sliceContent(st *State, s *Term) *Term {
	s = st.f.rw(s)
	if s.op == ONil || s.op == OStr {
		return mkCat([]*Term{mkChunk(s, tZero, lenOf(s))})
	}
	if s.op != OSlice {
		return mkCat([]*Term{mkChunk(strContent(s), tZero, lenOf(s))})
	}
	if s.args[0].op == ONil {
		return mkCat(nil)
	}
	base := s.args[0]
	c, _ := st.getPath(st.content(base.args[0]), contentType(base.args[0]), base.args[1:])
	n := st.f.rw(s.args[2])
	if n.op != OConst {
		if k, ok := st.constOf(n); ok {
			n = mkInt(k)
		}
	}
	return mkCat([]*Term{mkChunk(c, s.args[1], n)})
}

// constOf reports the constant value of t when facts pin it.
func (s *State) constOf(t *Term) (int64, bool) {
	t = s.f.rw(t)
	if t.op == OConst {
		return t.k, true
	}
	return 0, false
}

func cmpEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if (a.op == OBits || b.op == OBits) && isIntTerm(a) && isIntTerm(b) {
		w := 64
		wa, sa := termWidth(a)
		wb, sb := termWidth(b)
		if a.op == OLin || b.op == OLin || a.op == OMono || b.op == OMono {
			return mkEq0(linSub(a, b))
		}
		ba, bb := toBits(a, w, wa, sa), toBits(b, w, wb, sb)
		var xs []*Term
		for i := 0; i < w; i++ {
			xs = append(xs, bitXor(ba[i], bb[i]))
		}
		return mkBitEq(xs)
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, cmpEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs)
	}
	if a.op == OStruct || b.op == OStruct {
		s, o := a, b
		if b.op == OStruct {
			s, o = b, a
		}
		if s.typ != nil {
			if _, ok := s.typ.Underlying().(*types.Struct); ok {
				var cs []*Term
				for i := range s.args {
					cs = append(cs, cmpEq(s.args[i], fieldOf(o, i, fieldType(s.typ, i))))
				}
				return mkAnd(cs)
			}
		}
	}
	// opaque struct values: expand
	if a.typ != nil && (a.op == OAtom || a.op == OApp) && (b.op == OAtom || b.op == OApp) {
		if stt, ok := a.typ.Underlying().(*types.Struct); ok {
			var cs []*Term
			for i := 0; i < stt.NumFields(); i++ {
				cs = append(cs, cmpEq(fieldOf(a, i, stt.Field(i).Type()), fieldOf(b, i, stt.Field(i).Type())))
			}
			return mkAnd(cs)
		}
	}
	// strings with known content
	if ca, ok := strElems(a); ok {
		if cb, ok := strElems(b); ok {
			if len(ca) != len(cb) {
				return tFalse
			}
			var cs []*Term
			for i := range ca {
				cs = append(cs, cmpEq(ca[i], cb[i]))
			}
			return mkAnd(cs)
		}
	}
	return mkEqv(a, b)
}
func strElems(s *Term) ([]*Term, bool) {
	if s.op == OStr {
		var out []*Term
		for i := 0; i < len(s.name); i++ {
			out = append(out, mkInt(int64(s.name[i])))
		}
		return out, true
	}
	if s.op == OApp && s.name == "str" && s.args[0].op == OCat && allElems(s.args[0]) {
		var out []*Term
		for _, e := range s.args[0].args {
			out = append(out, e.args[0])
		}
		return out, true
	}
	return nil, false
}

func mkAnd(cs []*Term) *Term {
	var un []*Term
	for _, c := range cs {
		if c == tFalse {
			return tFalse
		}
		if c == tTrue {
			continue
		}
		un = append(un, c)
	}
	if len(un) == 0 {
		return tTrue
	}
	if len(un) == 1 {
		return un[0]
	}
	return mkApp("and", types.Typ[types.Bool], un...)
}

func one(st *State, v *Term) []Out { return []Out{{st: st, ret: []*Term{v}}} }

func (fr *frame) binop(fs *fst, in *ssa.BinOp) []Out {
	x, st := fr.x, fs.st
	a, b := fr.val(fs, in.X), fr.val(fs, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		c := x.equal(st, a, b)
		if in.Op == token.NEQ {
			c = mkNot(c)
		}
		return one(st, c)
	}
	if isFloatType(t) {
		rt := in.Type()
		return one(st, mkApp("f"+in.Op.String(), rt, a, b))
	}
	if isStringType(t) {
		if in.Op == token.ADD {
			return one(st, concatStr(a, b))
		}
		return one(st, mkApp("str"+in.Op.String(), types.Typ[types.Bool], a, b))
	}
	switch in.Op {
	case token.LSS:
		return one(st, mkGe0(linK(linSub(b, a), -1)))
	case token.LEQ:
		return one(st, mkGe0(linSub(b, a)))
	case token.GTR:
		return one(st, mkGe0(linK(linSub(a, b), -1)))
	case token.GEQ:
		return one(st, mkGe0(linSub(a, b)))
	}
	if isBoolType(t) {
		x.fail("bool binop %v", in)
	}
	rt := in.Type()
	w, sgn := width(rt)
	bitsOf := func(v *Term, vt types.Type) []*Term {
		vw, vs := width(vt)
		return st.toBits(v, w, vw, vs)
	}
	switch in.Op {
	case token.ADD:
		return x.arith(st, linAdd(a, b), rt)
	case token.SUB:
		return x.arith(st, linSub(a, b), rt)
	case token.MUL:
		if w <= 32 && !sgn && a.op != OConst && b.op != OConst {
			if p := smallProduct(st, a, b, w); p != nil {
				return one(st, p)
			}
		}
		p := linMul(a, b)
		if sgn && a.op != OConst && b.op != OConst {
			for _, m := range []int64{255, 65535} {
				if st.f.prove(linK(a, m)) && st.f.prove(linK(linNeg(a), m)) && st.f.prove(linK(b, m)) && st.f.prove(linK(linNeg(b), m)) {
					st.assumeGe(linK(linNeg(p), m*m))
					if a == b {
						st.assumeGe(p)
					} else {
						st.assumeGe(linK(p, m*m))
					}
					break
				}
			}
		}
		return x.arith(st, p, rt)
	case token.QUO, token.REM:
		if b.op == OConst && b.k == 0 {
			return []Out{{st: st, panicked: true, pv: mkApp("tok", nil, mkStr("divide by zero"))}}
		}
		if b.op != OConst {
			c := mkNot(mkEq0(b))
			if x.h.bounds != nil {
				if !x.h.bounds(x, st, fr.fn, in, "divisor non-zero", c) {
					return []Out{{st: st, panicked: true, pv: nilPanic}}
				}
			}
			if !st.assume(c, true) {
				return []Out{{st: st, panicked: true, pv: nilPanic}}
			}
		}
		if b.op == OConst && b.k > 0 && b.k&(b.k-1) == 0 && !sgn {
			k := 0
			for int64(1)<<uint(k) != b.k {
				k++
			}
			bs := bitsOf(a, t)
			nb := make([]*Term, w)
			for i := range nb {
				nb[i] = bit0
				if in.Op == token.QUO && i+k < w {
					nb[i] = bs[i+k]
				}
				if in.Op == token.REM && i < k {
					nb[i] = bs[i]
				}
			}
			return one(st, fromBits(nb, sgn))
		}
		if in.Op == token.QUO {
			return one(st, mkQuo(a, b, rt))
		}
		return one(st, mkRem(a, b, rt))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if v, m := a, b; true {
			if v.op == OConst {
				v, m = m, v
			}
			low := func(k int64) bool { return st.f.prove(v) && st.f.prove(linK(linNeg(v), k)) }
			if m.op == OConst && m.k > 0 && v.op != OBits && v.op != OConst {
				switch in.Op {
				case token.AND:
					if m.k&(m.k+1) == 0 {
						if low(m.k) {
							return one(st, v)
						}
						qs := []int64{1, 2, 3, 4}
						if _, _, k := linParts(st.f.rw(v)); k > 4*m.k {
							qs = append(qs, k/(m.k+1), k/(m.k+1)+1)
						}
						for _, q := range qs {
							if st.f.prove(linK(v, -q*(m.k+1))) && st.f.prove(linK(linNeg(v), q*(m.k+1)+m.k)) {
								return one(st, linK(v, -q*(m.k+1)))
							}
						}
						if sgn && st.f.prove(v) {
							// a remainder, for a non-negative value
							return one(st, mkRem(v, mkInt(m.k+1), rt))
						}
					}
				case token.OR, token.XOR:
					if t := m.k & -m.k; t > 1 && low(t-1) {
						return one(st, linK(v, m.k))
					}
				}
			}
		}
		ba, bb := bitsOf(a, t), bitsOf(b, in.Y.Type())
		nb := make([]*Term, w)
		for i := range nb {
			switch in.Op {
			case token.AND:
				nb[i] = bitAnd(ba[i], bb[i])
			case token.OR:
				nb[i] = bitOr(ba[i], bb[i])
			case token.XOR:
				nb[i] = bitXor(ba[i], bb[i])
			case token.AND_NOT:
				nb[i] = bitAnd(ba[i], bitNot(bb[i]))
			}
		}
		return one(st, fromBits(nb, sgn))
	case token.SHL, token.SHR:
		n, okc := st.constOf(b)
		if !okc {
			return one(st, mkApp(in.Op.String(), rt, a, b))
		}
		if n < 0 {
			return []Out{{st: st, panicked: true, pv: nilPanic}}
		}
		if sgn && in.Op == token.SHL && n < 40 && a.op != OBits {
			return x.arith(st, linScale(a, int64(1)<<uint(n)), rt)
		}
		if sgn && in.Op == token.SHR && a.op != OBits && n < 40 {
			if a.op == OConst {
				return one(st, mkInt(a.k>>uint(n)))
			}
			if st.f.prove(a) {
				return one(st, mkQuo(a, mkInt(int64(1)<<uint(n)), rt))
			}
			return one(st, mkApp("sar", rt, a, b))
		}
		bs := bitsOf(a, t)
		nb := make([]*Term, w)
		for i := range nb {
			nb[i] = bit0
			if in.Op == token.SHL {
				if j := i - int(n); j >= 0 && n < 64 {
					nb[i] = bs[j]
				}
			} else if j := i + int(n); n < 64 && j < w {
				nb[i] = bs[j]
			} else if sgn {
				nb[i] = bs[w-1]
			}
		}
		return one(st, fromBits(nb, sgn))
	}
	x.fail("binop %v", in)
	return nil
}

// smallProduct is the product of two unsigned values known to be small, or
// to be small negative ones that wrapped, when it cannot leave the type's range.
func smallProduct(st *State, a, b *Term, w int) *Term {
	mod := int64(1) << uint(w)
	small := func(v *Term) (*Term, int, int64) {
		for _, m := range []int64{255, 65535} {
			if st.f.prove(v) && st.f.prove(linK(linNeg(v), m)) {
				return v, 1, m
			}
			if n := linK(v, -mod); st.f.prove(linNeg(n)) && st.f.prove(linK(n, m)) {
				return n, -1, m
			}
		}
		return nil, 0, 0
	}
	na, sa, ma := small(a)
	if na == nil {
		return nil
	}
	nb, sb, mb := small(b)
	if nb == nil || sa != sb || ma*mb >= mod {
		return nil
	}
	p := st.f.rw(linMul(na, nb))
	if p.op == OConst {
		return p
	}
	if !st.assumeGe(p) || !st.assumeGe(linK(linNeg(p), ma*mb)) {
		return nil
	}
	return p
}

// arith wraps a linear result into its type; for 8..32-bit operands whose
// result may leave the range the state is split on the (at most three) wraps.
func (x *X) arith(st *State, l *Term, rt types.Type) []Out {
	if x.inRange(st, l, rt) {
		return one(st, l)
	}
	w, s := width(rt)
	if l.op == OConst {
		return one(st, mkInt(truncInt(l.k, w, s)))
	}
	if w <= 32 {
		lo, hi, _, _ := typeRange(rt)
		m := int64(1) << uint(w)
		if st.f.prove(linK(l, -lo+m)) && st.f.prove(linK(linNeg(l), hi+m)) {
			var outs []Out
			for _, d := range []int64{0, m, -m} {
				ns := st.fork()
				v := linK(l, d)
				if ns.assumeGe(linK(v, -lo)) && ns.assumeGe(linK(linNeg(v), hi)) {
					outs = append(outs, Out{st: ns, ret: []*Term{v}})
				}
			}
			return outs
		}
	}
	return one(st, mkApp(fmt.Sprintf("wrap%d%v", w, s), rt, l))
}

func concatStr(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return mkStr(a.name + b.name)
	}
	if a.op == OStr && a.name == "" {
		return b
	}
	if b.op == OStr && b.name == "" {
		return a
	}
	return strOf(mkCat([]*Term{mkChunk(strContent(a), tZero, lenOf(a)), mkChunk(strContent(b), tZero, lenOf(b))}))
}

func (x *X) equal(st *State, a, b *Term) *Term {
	// string vs "" is a length test
	for i := 0; i < 2; i++ {
		if a.op == OStr && b.op != OStr && a.name == "" {
			return mkEq0(lenOf(b))
		}
		a, b = b, a
	}
	// slice/nil
	for i := 0; i < 2; i++ {
		if a.op == ONil && b.op == OSlice {
			if b.args[0].op == ONil {
				return tTrue
			}
			o := b.args[0].args[0]
			if o.op == OApp && o.name == "arr" {
				return mk(OEqv, "", 0, nil, nil, nil, ordered(o.args[0], tNil)...)
			}
			return tFalse
		}
		a, b = b, a
	}
	return cmpEq(a, b)
}
func ordered(a, b *Term) []*Term {
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

// ---- indexing

func toSlice(v *Term) *Term {
	if v.op == ONil {
		return mkSlice(tNil, tZero, tZero, tZero)
	}
	if v.op == OSlice {
		return v
	}
	return wrapSlice(v)
}

func (fr *frame) inb(fs *fst, in ssa.Instruction, what string, conds ...*Term) bool {
	x := fr.x
	for _, c := range conds {
		if x.learn != nil && c.op != OBool {
			*x.learn = append(*x.learn, fs.st.f.rw(c))
		}
		if x.h.bounds != nil {
			if !x.h.bounds(x, fs.st, fr.fn, in, what, c) {
				return false
			}
		}
		if !fs.st.assume(c, true) {
			return false
		}
	}
	return true
}

func (fr *frame) access(fs *fst, in ssa.Instruction) bool {
	x := fr.x
	switch in := in.(type) {
	case *ssa.IndexAddr:
		v, i := fr.val(fs, in.X), fr.val(fs, in.Index)
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n := pt.Elem().Underlying().(*types.Array).Len()
			if v.op == ONil {
				return false
			}
			if !fr.inb(fs, in, "index", mkGe0(i), mkGe0(linK(linNeg(i), n-1))) {
				return false
			}
			fs.env[in] = addrPath(v, fs.st.f.rw(i))
			return true
		}
		s := toSlice(v)
		if !fr.inb(fs, in, "index", mkGe0(i), mkGe0(linK(linSub(s.args[2], i), -1))) {
			return false
		}
		if s.args[0].op == ONil {
			return false
		}
		s = fs.st.f.rw(s)
		if s.op != OSlice || s.args[0].op == ONil {
			return false
		}
		fs.env[in] = addrPath(s.args[0], linAdd(s.args[1], fs.st.f.rw(i)))
	case *ssa.Index:
		v, i := fr.val(fs, in.X), fr.val(fs, in.Index)
		var n *Term
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(at.Len())
		} else {
			n = lenOf(v)
		}
		if !fr.inb(fs, in, "index", mkGe0(i), mkGe0(linK(linSub(n, i), -1))) {
			return false
		}
		fs.env[in] = selTerm(strContent(v), fs.st.f.rw(i), in.Type(), fs.st)
	case *ssa.Lookup:
		if isStringType(in.X.Type()) {
			v, i := fr.val(fs, in.X), fr.val(fs, in.Index)
			if !fr.inb(fs, in, "index", mkGe0(i), mkGe0(linK(linSub(lenOf(v), i), -1))) {
				return false
			}
			fs.env[in] = selTerm(strContent(v), fs.st.f.rw(i), in.Type(), fs.st)
			return true
		}
		m, k := fr.val(fs, in.X), fr.val(fs, in.Index)
		var et types.Type = elemType(in.X.Type())
		v, ok := x.mapLookup(fs.st, m, k, et)
		if in.CommaOk {
			fs.env[in] = mkStruct(in.Type(), v, ok)
		} else {
			fs.env[in] = v
		}
	case *ssa.Slice:
		v := fr.val(fs, in.X)
		var lo, hi, mx *Term = tZero, nil, nil
		if in.Low != nil {
			lo = fr.val(fs, in.Low)
		}
		if in.High != nil {
			hi = fr.val(fs, in.High)
		}
		if in.Max != nil {
			mx = fr.val(fs, in.Max)
		}
		if isStringType(in.X.Type()) {
			n := lenOf(v)
			if hi == nil {
				hi = n
			}
			if !fr.inb(fs, in, "slice", mkGe0(lo), mkGe0(linSub(hi, lo)), mkGe0(linSub(n, hi))) {
				return false
			}
			fs.env[in] = subStr(fs.st.f.rw(v), fs.st.f.rw(lo), fs.st.f.rw(hi))
			return true
		}
		var s *Term
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n := mkInt(pt.Elem().Underlying().(*types.Array).Len())
			if v.op == ONil {
				return false
			}
			s = mkSlice(addrOf(v), tZero, n, n)
		} else {
			s = toSlice(v)
		}
		if hi == nil {
			hi = s.args[2]
		}
		cp := s.args[3]
		conds := []*Term{mkGe0(lo), mkGe0(linSub(hi, lo))}
		if mx != nil {
			conds = append(conds, mkGe0(linSub(mx, hi)), mkGe0(linSub(cp, mx)))
			cp = mx
		} else if fs.st.f.prove(linSub(s.args[2], hi)) {
			// hi <= len <= cap
		} else {
			conds = append(conds, mkGe0(linSub(cp, hi)))
		}
		if !fr.inb(fs, in, "slice", conds...) {
			return false
		}
		if s.args[0].op == ONil {
			fs.env[in] = tNil
			return true
		}
		fs.env[in] = fs.st.f.rw(mkSlice(s.args[0], linAdd(s.args[1], lo), linSub(hi, lo), linSub(cp, lo)))
	}
	return true
}

func subStr(v, lo, hi *Term) *Term {
	if v.op == OStr && lo.op == OConst && hi.op == OConst && lo.k >= 0 && hi.k >= lo.k && hi.k <= int64(len(v.name)) {
		return mkStr(v.name[lo.k:hi.k])
	}
	if lo == tZero && hi == lenOf(v) {
		return v
	}
	if v.op == OApp && v.name == "substr" {
		return subStr(v.args[0], linAdd(v.args[1], lo), linAdd(v.args[1], hi))
	}
	return mkApp("substr", types.Typ[types.String], v, lo, hi)
}

func (x *X) mapLookup(st *State, m, k *Term, et types.Type) (*Term, *Term) {
	if m.op == ONil {
		return zeroVal(et), tFalse
	}
	c := mapContent(st, m)
	for {
		if c.op == OApp && c.name == "emptymap" {
			return zeroVal(et), tFalse
		}
		if c.op == OApp && c.name == "mapstore" {
			e := x.equal(st, c.args[1], k)
			switch st.decide(e) {
			case 1:
				return c.args[2], tTrue
			case 0:
				c = c.args[0]
				continue
			}
		}
		break
	}
	return wrapT(mkApp("mapget", et, c, k)), mkApp("maphas", types.Typ[types.Bool], c, k)
}

func (fr *frame) nextInstr(fs *fst, in *ssa.Next) []Out {
	x, st := fr.x, fs.st
	it := fr.val(fs, in.Iter)
	tup := in.Type().(*types.Tuple)
	if !in.IsString {
		// map iteration: unordered, unknown trip count
		ok := fresh("more", types.Typ[types.Bool])
		mkv := func(i int) *Term {
			if b, isB := tup.At(i).Type().(*types.Basic); isB && b.Kind() == types.Invalid {
				return tNil
			}
			return freshVal("mapiter", tup.At(i).Type())
		}
		o := it.args[0]
		st.setMem(o, linK(st.content(o), 1))
		return one(st, mkStruct(tup, ok, mkv(1), mkv(2)))
	}
	o, s := it.args[0], it.args[1]
	pos := st.content(o)
	n := lenOf(s)
	if s.op == OStr && pos.op == OConst {
		if pos.k >= int64(len(s.name)) {
			return one(st, mkStruct(tup, tFalse, tZero, tZero))
		}
		for i, r := range s.name[pos.k:] {
			_ = i
			sz := len(string(r))
			if r == 0xFFFD && s.name[pos.k] != 0xEF {
				sz = 1
			}
			st.setMem(o, mkInt(pos.k+int64(sz)))
			return one(st, mkStruct(tup, tTrue, pos, mkInt(int64(r))))
		}
	}
	var outs []Out
	a := st.fork()
	if a.assumeGe(linK(linSub(n, pos), -1)) {
		sz := mkApp("runesize", types.Typ[types.Int], s, pos)
		a.assumeGe(linK(sz, -1))
		a.assumeGe(linK(linNeg(sz), 4))
		a.assumeGe(linSub(linSub(n, pos), sz))
		r := mkApp("runeat", types.Typ[types.Int32], s, pos)
		a.assumeGe(r)
		a.assumeGe(linK(linNeg(r), 0x10FFFF))
		a.setMem(o, linAdd(pos, sz))
		outs = append(outs, Out{st: a, ret: []*Term{mkStruct(tup, tTrue, pos, r)}})
	}
	b := st.fork()
	if b.assumeGe(linSub(pos, n)) {
		outs = append(outs, Out{st: b, ret: []*Term{mkStruct(tup, tFalse, tZero, tZero)}})
	}
	_ = x
	return outs
}

func (fr *frame) typeAssert(fs *fst, in *ssa.TypeAssert) []Out {
	x, st := fr.x, fs.st
	v := fr.val(fs, in.X)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	res := func(s *State, val *Term, ok bool) Out {
		if in.CommaOk {
			if !ok {
				val = zeroVal(in.AssertedType)
			}
			return Out{st: s, ret: []*Term{mkStruct(in.Type(), val, mkBool(ok))}}
		}
		if !ok {
			return Out{st: s, panicked: true, pv: mkApp("tok", nil, mkStr("type-assertion"))}
		}
		return Out{st: s, ret: []*Term{val}}
	}
	if v.op == ONil {
		return []Out{res(st, nil, false)}
	}
	if v.op == OIface {
		dt := v.ref.(types.Type)
		if toIface {
			if types.AssertableTo(in.AssertedType.Underlying().(*types.Interface), dt) && types.Implements(dt, in.AssertedType.Underlying().(*types.Interface)) {
				return []Out{res(st, v, true)}
			}
			return []Out{res(st, nil, false)}
		}
		if types.Identical(dt, in.AssertedType) {
			return []Out{res(st, v.args[0], true)}
		}
		return []Out{res(st, nil, false)}
	}
	d := -1
	if x.h.typeOK != nil {
		d = x.h.typeOK(x, st, in, v)
	}
	val := v
	if !toIface {
		val = wrapT(mkApp("asT:"+in.AssertedType.String(), in.AssertedType, v))
	}
	isT := mkApp("isT:"+in.AssertedType.String(), types.Typ[types.Bool], v)
	if d < 0 {
		d = st.decide(isT)
	}
	if d == 1 {
		return []Out{res(st, val, true)}
	}
	if d == 0 {
		return []Out{res(st, nil, false)}
	}
	var outs []Out
	a := st.fork()
	if a.assume(isT, true) {
		if a.assume(mkEqv(v, tNil), false) {
			outs = append(outs, res(a, val, true))
		}
	}
	if in.CommaOk {
		b := st.fork()
		if b.assume(isT, false) {
			outs = append(outs, res(b, nil, false))
		}
	}
	return outs
}

func (fr *frame) recvInstr(fs *fst, in *ssa.UnOp) ([]Out, bool) {
	picks, ok := fr.x.h.sel(fr.x, fs.st, in, []selCase{{ch: fr.val(fs, in.X)}}, true)
	if !ok {
		return nil, false
	}
	var outs []Out
	for _, p := range picks {
		if tup, isT := in.Type().(*types.Tuple); isT {
			outs = append(outs, Out{st: p.st, ret: []*Term{mkStruct(tup, p.v, p.ok)}})
		} else {
			outs = append(outs, Out{st: p.st, ret: []*Term{p.v}})
		}
	}
	return outs, true
}

func (fr *frame) selectInstr(fs *fst, in *ssa.Select) []Out {
	x, st := fr.x, fs.st
	tup := in.Type().(*types.Tuple)
	var outs []Out
	if x.h.sel != nil {
		var cases []selCase
		for _, s := range in.States {
			c := selCase{ch: fr.val(fs, s.Chan)}
			if s.Dir == types.SendOnly {
				c.v = fr.val(fs, s.Send)
			}
			cases = append(cases, c)
		}
		if picks, ok := x.h.sel(x, st, in, cases, in.Blocking); ok {
			for _, p := range picks {
				if p.ok == nil {
					p.ok = tFalse
				}
				fsv := []*Term{mkInt(int64(p.idx)), p.ok}
				for j, k := 2, 0; k < len(in.States); k++ {
					if in.States[k].Dir == types.SendOnly {
						continue
					}
					v := zeroVal(tup.At(j).Type())
					if k == p.idx && p.v != nil {
						v = p.v
					}
					fsv = append(fsv, v)
					j++
				}
				outs = append(outs, Out{st: p.st, ret: []*Term{mkStruct(tup, fsv...)}})
			}
			return outs
		}
	}
	mkOut := func(s *State, idx int) Out {
		fsv := []*Term{mkInt(int64(idx)), fresh("recvok", types.Typ[types.Bool])}
		for j := 2; j < tup.Len(); j++ {
			fsv = append(fsv, freshVal("recv", tup.At(j).Type()))
		}
		return Out{st: s, ret: []*Term{mkStruct(tup, fsv...)}}
	}
	for i, s := range in.States {
		ns := st.fork()
		if x.h.chanop != nil {
			var v *Term
			op := "select-recv"
			if s.Dir == types.SendOnly {
				v = fr.val(fs, s.Send)
				op = "select-send"
			}
			x.h.chanop(x, ns, fr.fn, in, op, fr.val(fs, s.Chan), v)
		}
		ns.note("%s: select case %d", posStr(x.prog, in.Pos()), i)
		outs = append(outs, mkOut(ns, i))
	}
	if !in.Blocking {
		ns := st.fork()
		ns.note("%s: select default", posStr(x.prog, in.Pos()))
		outs = append(outs, mkOut(ns, -1))
	}
	return outs
}

var _ = math.MaxInt64
var _ = big.NewInt
var _ = os.Getenv
