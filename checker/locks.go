package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lockset analysis: which memory the code of a thread accesses, under which
// locks, over every path and call. Memory is told apart by the struct type and
// field, the global or the captured variable it is in.

// thAccess is an access to memory.
type thAccess struct {
	key   string
	write bool
	locks []string // chains of the locks held
	pos   token.Pos
	fn    *ssa.Function
}

// thIssue is a misuse of locks on the way.
type thIssue struct {
	what string
	pos  token.Pos
	fn   *ssa.Function
}

type thState struct {
	locks  []string
	defers []*ssa.Defer
}

func (s thState) key() string {
	k := strings.Join(s.locks, ",")
	for _, d := range s.defers {
		k += fmt.Sprintf("|%p", d)
	}
	return k
}

// A lockWalk follows the code of one thread.
type lockWalk struct {
	w        *World
	skip     func(fn *ssa.Function) bool
	from     map[*ssa.Function]ssa.Instruction // only what may follow this instruction counts
	before   map[ssa.Instruction]bool          // accesses that precede the thread's rival, and do not count
	logger   *ssa.Function                     // what the log package writes to
	accesses map[string]thAccess
	issues   map[string]thIssue
	sites    map[ssa.Instruction]bool // lock, channel and go operations seen
	fresh    map[string]string        // reference fields that are given what is not their own
	done     map[string][]string
	active   map[string]bool
	order    map[[2]string]token.Pos
	funcs    map[*ssa.Function]bool
}

func newLockWalk(w *World) *lockWalk {
	return &lockWalk{w: w, accesses: map[string]thAccess{}, issues: map[string]thIssue{}, sites: map[ssa.Instruction]bool{}, fresh: map[string]string{},
		done: map[string][]string{}, active: map[string]bool{}, order: map[[2]string]token.Pos{}, funcs: map[*ssa.Function]bool{}}
}

// sameLock says whether two chains may be of one lock: one is the end of the other.
func sameLock(a, b string) bool {
	return a == b || strings.HasSuffix(a, "/"+b) || strings.HasSuffix(b, "/"+a)
}

// thEnv says what the parameters and captured variables of a call are: the
// chain of fields they point to, and the functions they are.
type thEnv struct {
	chain map[ssa.Value]string
	fn    map[ssa.Value]*ssa.Function
	bind  map[ssa.Value]ssa.Value // of a closure, in its maker's terms
}

func (e thEnv) key() string {
	var p []string
	for v, c := range e.chain {
		p = append(p, v.Name()+"="+c)
	}
	for v, f := range e.fn {
		p = append(p, v.Name()+"="+f.String())
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// chainOf is the chain of fields that an address goes through, outermost first.
func (lw *lockWalk) chainOf(e thEnv, v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st, _ := v.X.Type().Underlying().(*types.Pointer)
		name := typeName(v.X.Type()) + "." + structOf(st.Elem()).Field(v.Field).Name()
		if up := lw.chainOf(e, v.X); up != "" {
			return up + "/" + name
		}
		return name
	case *ssa.Parameter, *ssa.FreeVar:
		return e.chain[v]
	case *ssa.Global:
		return "var " + v.Name()
	case *ssa.ChangeType:
		return lw.chainOf(e, v.X)
	}
	return ""
}

// last is the end of a chain: what is accessed.
func chainLast(c string) string { return c[strings.LastIndexByte(c, '/')+1:] }

// place is what an address is in, and whether it is one of the elements there.
func (lw *lockWalk) place(e thEnv, v ssa.Value) (key string, elem bool, root ssa.Value) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return chainLast(lw.chainOf(e, v)), false, lw.root(v)
	case *ssa.Global:
		return "var " + v.String(), false, v
	case *ssa.Alloc:
		if v.Heap {
			return fmt.Sprintf("variable %s of %s", v.Comment, v.Parent().RelString(nil)), false, v
		}
	case *ssa.FreeVar:
		if b, ok := e.bind[v]; ok {
			return lw.place(thEnv{}, b)
		}
	case *ssa.IndexAddr:
		if _, isP := v.X.Type().Underlying().(*types.Pointer); isP { // an array
			k, el, r := lw.place(e, v.X)
			return k, el, r
		}
		if k, r := lw.sliceOf(e, v.X, 0); k != "" {
			return k, true, r
		}
	case *ssa.ChangeType:
		return lw.place(e, v.X)
	}
	return "", false, nil
}

// sliceOf is the place that a reference was loaded from.
func (lw *lockWalk) sliceOf(e thEnv, v ssa.Value, depth int) (string, ssa.Value) {
	if depth > 8 {
		return "", nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			k, el, r := lw.place(e, v.X)
			if k != "" && !el {
				return k, r
			}
		}
	case *ssa.Slice:
		return lw.sliceOf(e, v.X, depth+1)
	case *ssa.ChangeType:
		return lw.sliceOf(e, v.X, depth+1)
	case *ssa.Convert:
		return lw.sliceOf(e, v.X, depth+1)
	case *ssa.MakeInterface:
		return lw.sliceOf(e, v.X, depth+1)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if k, r := lw.sliceOf(e, x, depth+2); k != "" {
				return k, r
			}
		}
	}
	return "", nil
}

func (lw *lockWalk) root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (lw *lockWalk) access(key string, elem, write bool, root ssa.Value, t types.Type, s thState, in ssa.Instruction) {
	if a, ok := root.(*ssa.Alloc); ok && strings.IndexByte(key, ' ') < 0 {
		_ = a // the object is being built here
		return
	}
	if lw.before[in] || !lw.counts(in) {
		return
	}
	if elem {
		key += "[]"
	}
	lw.note(key, write, s, in)
	// a struct is accessed with all its fields
	if t != nil && !elem {
		lw.parts(t, write, s, in, 0)
	}
}
func (lw *lockWalk) parts(t types.Type, write bool, s thState, in ssa.Instruction, depth int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 6 {
		return
	}
	if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		lw.note(typeName(t)+"."+st.Field(i).Name(), write, s, in)
		lw.parts(st.Field(i).Type(), write, s, in, depth+1)
	}
}
func (lw *lockWalk) note(key string, write bool, s thState, in ssa.Instruction) {
	a := thAccess{key: key, write: write, locks: s.locks, pos: in.Pos(), fn: in.Parent()}
	k := fmt.Sprint(key, write, s.locks, in.Pos())
	if _, ok := lw.accesses[k]; !ok {
		lw.accesses[k] = a
	}
}

// counts says whether an instruction is one that this walk is about.
func (lw *lockWalk) counts(in ssa.Instruction) bool {
	at, ok := lw.from[in.Parent()]
	if !ok {
		return true
	}
	return mayFollow(at, in)
}

// mayFollow says whether b may be executed after a, in the same call.
func mayFollow(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func (lw *lockWalk) issue(in ssa.Instruction, format string, a ...any) {
	if !lw.counts(in) {
		return
	}
	i := thIssue{fmt.Sprintf(format, a...), in.Pos(), in.Parent()}
	lw.issues[fmt.Sprint(i.what, i.pos)] = i
}

// walk follows a function from a set of locks, and returns those held at its end.
func (lw *lockWalk) walk(fn *ssa.Function, locks []string, e thEnv) []string {
	k := fn.String() + "\x00" + strings.Join(locks, ",") + "\x00" + e.key()
	if out, ok := lw.done[k]; ok {
		return out
	}
	if lw.active[k] || len(fn.Blocks) == 0 || len(lw.active) > 60 {
		return locks
	}
	lw.active[k] = true
	lw.funcs[fn] = true
	defer delete(lw.active, k)
	in := make([]*thState, len(fn.Blocks))
	in[0] = &thState{locks: locks}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var out []string
	ended := false
	for n := 0; len(work) > 0 && n < 2000; n++ {
		b := work[0]
		work = work[1:]
		s := *in[b.Index]
		for _, i := range b.Instrs {
			s = lw.step(e, s, i)
			if r, ok := i.(*ssa.Return); ok {
				if ended && strings.Join(out, ",") != strings.Join(s.locks, ",") {
					lw.issue(r, "holds %v on one way out and %v on another", s.locks, out)
				}
				ended, out = true, s.locks
			}
		}
		for _, t := range b.Succs {
			if in[t.Index] == nil {
				c := s
				in[t.Index] = &c
				work = append(work, t)
				continue
			}
			j := thState{locks: meet(in[t.Index].locks, s.locks), defers: in[t.Index].defers}
			for _, d := range s.defers {
				have := false
				for _, o := range j.defers {
					have = have || o == d
				}
				if !have {
					j.defers = append(j.defers[:len(j.defers):len(j.defers)], d)
				}
			}
			if j.key() != in[t.Index].key() {
				if len(j.locks) != len(in[t.Index].locks) && len(b.Instrs) > 0 {
					lw.issue(b.Instrs[len(b.Instrs)-1], "holds %v on one path and %v on another", s.locks, in[t.Index].locks)
				}
				in[t.Index] = &j
				work = append(work, t)
			}
		}
	}
	if !ended {
		out = locks
	}
	lw.done[k] = out
	return out
}

func meet(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func (lw *lockWalk) step(e thEnv, s thState, in ssa.Instruction) thState {
	switch in := in.(type) {
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if k, el, r := lw.place(e, in.X); k != "" {
				lw.access(k, el, false, r, in.Type(), s, in)
			}
		case token.ARROW:
			lw.sites[in] = true
			lw.blocking(s, in, "receives")
		}
	case *ssa.Store:
		if k, el, r := lw.place(e, in.Addr); k != "" {
			lw.access(k, el, true, r, in.Val.Type(), s, in)
			if !el {
				lw.given(e, k, r, in)
			}
		}
	case *ssa.Send:
		lw.sites[in] = true
		lw.blocking(s, in, "sends")
	case *ssa.Select:
		lw.sites[in] = true
		if in.Blocking {
			lw.blocking(s, in, "waits")
		}
	case *ssa.MapUpdate:
		if k, r := lw.sliceOf(e, in.Map, 0); k != "" {
			lw.access(k, true, true, r, nil, s, in)
		}
	case *ssa.Lookup:
		if k, r := lw.sliceOf(e, in.X, 0); k != "" {
			lw.access(k, true, false, r, nil, s, in)
		}
	case *ssa.Defer:
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], in)
	case *ssa.RunDefers:
		for i := len(s.defers) - 1; i >= 0; i-- {
			s = lw.call(e, s, s.defers[i], &s.defers[i].Call)
		}
		s.defers = nil
	case *ssa.Go:
		lw.sites[in] = true
	case *ssa.Call:
		s = lw.call(e, s, in, &in.Call)
	}
	return s
}

func (lw *lockWalk) blocking(s thState, in ssa.Instruction, what string) {
	if len(s.locks) > 0 {
		lw.issue(in, "%s, and may wait, while it holds %s", what, strings.Join(s.locks, " and "))
	}
}

// given checks that a reference which is stored in a field is not also another's.
func (lw *lockWalk) given(e thEnv, key string, root ssa.Value, in *ssa.Store) {
	switch in.Val.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return
	}
	if why := lw.foreign(e, key, in.Val, map[ssa.Value]bool{}); why != "" && lw.fresh[key] == "" {
		lw.fresh[key] = fmt.Sprintf("%s is set to %s at %s", key, why, posStr(lw.w.prog, in.Pos()))
	}
}

// foreign says what else a reference may belong to, if anything.
func (lw *lockWalk) foreign(e thEnv, key string, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap:
		return ""
	case *ssa.Slice:
		if _, ok := v.X.(*ssa.Alloc); ok {
			return ""
		}
		return lw.foreign(e, key, v.X, seen)
	case *ssa.ChangeType:
		return lw.foreign(e, key, v.X, seen)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if why := lw.foreign(e, key, x, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if k, _, _ := lw.place(e, v.X); k == key {
				return ""
			} else if k != "" {
				return "what is in " + k
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						if why := lw.foreign(e, key, st.Val, seen); why != "" {
							return why
						}
					}
				}
				return ""
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return lw.foreign(e, key, v.Call.Args[0], seen)
		}
		if f := v.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && inModule(f) {
			e2 := lw.envOf(e, f, &v.Call)
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range r.Results {
						if types.Identical(x.Type(), v.Type()) {
							if p, ok := x.(*ssa.Parameter); ok {
								for i, q := range f.Params {
									if p == q {
										if why := lw.foreign(e, key, v.Call.Args[i], seen); why != "" {
											return why
										}
									}
								}
								continue
							}
							if why := lw.foreign(e2, key, x, seen); why != "" {
								return why
							}
						}
					}
				}
			}
			return ""
		}
		return "what " + v.Call.String() + " returns"
	case *ssa.Extract:
		return "what a call returns"
	case *ssa.Parameter:
		return "" // judged where it is known
	}
	return ""
}

// envOf is what a callee's parameters are.
func (lw *lockWalk) envOf(e thEnv, f *ssa.Function, c *ssa.CallCommon) thEnv {
	n := thEnv{chain: map[ssa.Value]string{}, fn: map[ssa.Value]*ssa.Function{}, bind: map[ssa.Value]ssa.Value{}}
	for i, p := range f.Params {
		if i >= len(c.Args) {
			break
		}
		a := c.Args[i]
		if ch := lw.chainOf(e, a); ch != "" {
			if _, isP := p.Type().Underlying().(*types.Pointer); isP {
				n.chain[p] = ch
			}
		}
		if fv := lw.funOf(e, a); fv != nil {
			n.fn[p] = fv
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		lw.bindInto(e, n, mc)
	}
	return n
}

func (lw *lockWalk) bindInto(e, n thEnv, mc *ssa.MakeClosure) {
	f := mc.Fn.(*ssa.Function)
	for i, fv := range f.FreeVars {
		b := mc.Bindings[i]
		if x, ok := b.(*ssa.FreeVar); ok && e.bind[x] != nil {
			b = e.bind[x]
		}
		n.bind[fv] = b
		if ch := lw.chainOf(e, mc.Bindings[i]); ch != "" {
			n.chain[fv] = ch
		}
	}
}

func (lw *lockWalk) funOf(e thEnv, v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Parameter, *ssa.FreeVar:
		return e.fn[v]
	case *ssa.ChangeType:
		return lw.funOf(e, v.X)
	}
	return nil
}

var readOnlyMethods = map[string]bool{"Len": true, "Cap": true, "Bytes": true, "String": true, "IsZero": true, "Sub": true, "UnixNano": true, "Name": true}

func (lw *lockWalk) call(e thEnv, s thState, site ssa.CallInstruction, c *ssa.CallCommon) thState {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for i, a := range c.Args {
			if k, r := lw.sliceOf(e, a, 0); k != "" {
				switch b.Name() {
				case "append":
					// what is appended to is written beyond its length only
					lw.access(k, true, i == 0, r, nil, s, site)
				case "copy", "clear":
					lw.access(k, true, i == 0, r, nil, s, site)
				}
			}
		}
		if b.Name() == "close" {
			lw.sites[site] = true
		}
		return s
	}
	f := c.StaticCallee()
	if f == nil && !c.IsInvoke() {
		f = lw.funOf(e, c.Value)
	}
	if f != nil && !inModule(f) {
		return lw.external(e, s, site, c, f)
	}
	if f != nil {
		if lw.skip != nil && lw.skip(f) {
			return s
		}
		// a reference from a field is read by who is given it
		for _, a := range c.Args {
			if k, r := lw.sliceOf(e, a, 0); k != "" {
				if _, ok := a.Type().Underlying().(*types.Slice); ok {
					lw.access(k, true, false, r, nil, s, site)
				}
			}
		}
		e2 := lw.envOf(e, f, c)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			lw.bindInto(e, e2, mc)
		} else if mc := lw.makerOf(e, c.Value); mc != nil {
			lw.bindInto(e, e2, mc)
		}
		s.locks = lw.walk(f, s.locks, e2)
		return s
	}
	if c.IsInvoke() {
		for _, f := range lw.impls(c) {
			e2 := thEnv{chain: map[ssa.Value]string{}, fn: map[ssa.Value]*ssa.Function{}, bind: map[ssa.Value]ssa.Value{}}
			lw.walk(f, s.locks, e2)
		}
	}
	return s
}

func (lw *lockWalk) makerOf(e thEnv, v ssa.Value) *ssa.MakeClosure {
	mc, _ := v.(*ssa.MakeClosure)
	return mc
}

// impls are the module's methods that an interface call may reach.
func (lw *lockWalk) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range lw.w.implementers(it, func(p string) bool { return !strings.Contains(p, "/cmd/") }) {
		if f := lw.w.methodOf(t, c.Method.Name()); f != nil && inModule(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func (lw *lockWalk) external(e thEnv, s thState, site ssa.CallInstruction, c *ssa.CallCommon, f *ssa.Function) thState {
	name := f.String()
	lock := func(read bool) {
		ch := lw.chainOf(e, c.Args[0])
		if ch == "" {
			ch = "a lock"
		}
		lw.sites[site] = true
		for _, h := range s.locks {
			if sameLock(h, ch) {
				lw.issue(site, "locks %s while it holds it", ch)
			}
			if p := [2]string{h, ch}; lw.order[p] == token.NoPos {
				lw.order[p] = site.Pos()
			}
		}
		s.locks = append(s.locks[:len(s.locks):len(s.locks)], ch)
		sort.Strings(s.locks)
	}
	unlock := func() {
		ch := lw.chainOf(e, c.Args[0])
		if ch == "" {
			ch = "a lock"
		}
		var keep []string
		found := false
		for _, h := range s.locks {
			if !found && h == ch {
				found = true
				continue
			}
			keep = append(keep, h)
		}
		if !found {
			lw.issue(site, "unlocks %s, which it does not hold", ch)
		}
		s.locks = keep
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		lock(false)
		return s
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		unlock()
		return s
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep":
		lw.sites[site] = true
		lw.blocking(s, site, "waits")
		return s
	}
	if strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
		if lw.logger != nil {
			n := thEnv{chain: map[ssa.Value]string{}, fn: map[ssa.Value]*ssa.Function{}, bind: map[ssa.Value]ssa.Value{}}
			lw.walk(lw.logger, s.locks, n)
		}
	}
	for i, a := range c.Args {
		if sl, ok := a.(*ssa.Slice); ok { // a list of arguments
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, r := range *ia.Referrers() {
							if st, ok := r.(*ssa.Store); ok {
								lw.lent(e, s, site, st.Val, true)
							}
						}
					}
				}
			}
		}
		ro := i == 0 && f.Signature.Recv() != nil && readOnlyMethods[f.Name()]
		sorts := strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.")
		reads := name == "(*bytes.Buffer).Read" && i == 1 || strings.HasSuffix(name, ").Read") && i == 1 || name == "io.ReadFull" || name == "io.ReadAtLeast"
		lw.lent(e, s, site, a, ro || !(sorts || reads || i == 0 && f.Signature.Recv() != nil))
		// an address of a field may be written through
		v := a
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if _, isP := v.Type().Underlying().(*types.Pointer); isP {
			if k, el, r := lw.place(e, v); k != "" {
				if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
					continue
				}
				lw.access(k, el, !ro, r, nil, s, site)
			}
		}
	}
	return s
}

// lent notes that what a reference refers to is accessed by a callee.
func (lw *lockWalk) lent(e thEnv, s thState, site ssa.CallInstruction, a ssa.Value, readOnly bool) {
	v := a
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if ct, ok := v.(*ssa.ChangeType); ok {
		v = ct.X
	}
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		if k, r := lw.sliceOf(e, v, 0); k != "" {
			lw.access(k, true, !readOnly, r, nil, s, site)
		}
	}
}
