package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type World struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	byP   map[string]*packages.Package
	spkg  map[string]*ssa.Package
	funcs []*ssa.Function // all module functions with bodies
}

func load() (*World, error) {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: ps, byP: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		w.byP[p.PkgPath] = p
		if p.Types != nil {
			if sp := prog.Package(p.Types); sp != nil {
				w.spkg[p.PkgPath] = sp
			}
		}
	})
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) > 0 && inModule(f) {
			w.funcs = append(w.funcs, f)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool { return w.funcs[i].String() < w.funcs[j].String() })
	w.initGlobals()
	return w, nil
}

// anchor resolution

// anchorErr: something the rules refer to is gone.  A missing exported name is
// a violation; a missing internal one leaves the rule undecided (a rename or an
// inlined helper does not break a property).
type anchorErr struct {
	msg  string
	hard bool
}

func exportedName(s string) bool {
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("(*).", r) }) {
		if !token.IsExported(p) {
			return false
		}
	}
	return true
}

func (w *World) pkgPath(short string) string {
	if short == "" {
		return modPath
	}
	if sp := w.spkg[modPath+"/"+short]; sp != nil {
		return modPath + "/" + short
	}
	return short
}

// fn resolves "pkg.Func", "pkg.(*T).M" or "pkg.T.M"; pkg "" is the root.
func (w *World) fn(pkg, name string) *ssa.Function {
	f := w.tryFn(pkg, name)
	if f == nil {
		panic(anchorErr{fmt.Sprintf("anchor %s:%s not found in /repo", pkg, name), exportedName(name) && !strings.HasPrefix(pkg, "cmd/")})
	}
	return f
}
func (w *World) tryFn(pkg, name string) *ssa.Function {
	sp := w.spkg[w.pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	if !strings.Contains(name, ".") {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(name, "(*")
	name = strings.NewReplacer("(*", "", ")", "", "(", "").Replace(name)
	parts := strings.SplitN(name, ".", 2)
	tm := sp.Type(parts[0])
	if tm == nil {
		return nil
	}
	var t types.Type = tm.Type()
	// accept either receiver kind
	for _, rt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.prog.MethodSets.MethodSet(rt)
		if s := ms.Lookup(sp.Pkg, parts[1]); s != nil {
			f := w.prog.MethodValue(s)
			if f == nil {
				continue
			}
			if f.Synthetic != "" && rt == t {
				continue
			}
			if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
				// promoted or value method through pointer
				if o, ok := s.Obj().(*types.Func); ok {
					if df := w.prog.FuncValue(o); df != nil {
						return df
					}
				}
			}
			return f
		}
	}
	_ = ptr
	return nil
}
func (w *World) typ(pkg, name string) types.Type {
	sp := w.spkg[w.pkgPath(pkg)]
	if sp == nil || sp.Type(name) == nil {
		panic(anchorErr{fmt.Sprintf("anchor type %s.%s not found", pkg, name), exportedName(name) && !strings.HasPrefix(pkg, "cmd/")})
	}
	return sp.Type(name).Type()
}
func (w *World) global(pkg, name string) *ssa.Global {
	sp := w.spkg[w.pkgPath(pkg)]
	if sp == nil || sp.Var(name) == nil {
		panic(anchorErr{fmt.Sprintf("anchor var %s.%s not found", pkg, name), exportedName(name) && !strings.HasPrefix(pkg, "cmd/")})
	}
	return sp.Var(name)
}
func (w *World) constInt(pkg, name string) int64 {
	sp := w.spkg[w.pkgPath(pkg)]
	if sp == nil || sp.Const(name) == nil {
		panic(anchorErr{fmt.Sprintf("anchor const %s.%s not found", pkg, name), exportedName(name) && !strings.HasPrefix(pkg, "cmd/")})
	}
	return constVal(sp.Const(name).Value).k
}

// field index by name (errors when missing)
func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	panic(anchorErr{fmt.Sprintf("field %s of %v not found", name, t), token.IsExported(name)})
}
func hasField(t types.Type, name string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return true
			}
		}
	}
	return false
}

// fieldPath gives the selector path of a dotted (possibly embedded) field.
func fieldPath(t types.Type, names ...string) []*Term {
	var out []*Term
	for _, n := range names {
		i := fieldIdx(t, n)
		out = append(out, mkFld(i))
		t = fieldType(t, i)
	}
	return out
}

// ---- package-level constant tables

var (
	constGlobals = map[*ssa.Global]bool{}
	initDone     = map[*ssa.Package]int{}
	initVals     = map[*Term]*Term{}
	initNotes    []string
)

func (w *World) initGlobals() {
	bad := map[*ssa.Global]bool{}
	all := ssautil.AllFunctions(w.prog)
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "init"
	}
	var roUse func(v ssa.Value, depth int) bool
	roUse = func(v ssa.Value, depth int) bool {
		if depth > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				if !roUse(r.(ssa.Value), depth+1) {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.Slice:
				if !roSlice(r, 0) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for f := range all {
		in := isInit(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || in {
						continue
					}
					switch r := ins.(type) {
					case *ssa.UnOp:
						// a loaded slice/pointer/map written through directly
						if !roLoaded(r) {
							bad[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !roUse(r.(ssa.Value), 0) {
							bad[g] = true
						}
					case *ssa.Slice:
						if !roSlice(r, 0) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for _, sp := range w.spkg {
		if sp.Pkg.Path() != modPath && !strings.HasPrefix(sp.Pkg.Path(), modPath+"/") && sp.Pkg.Path() != "image" {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				constGlobals[g] = true
				globalObj(g)
			}
		}
	}
	globalInit = func(o *Term) *Term {
		g := globalOf[o]
		if g == nil || !constGlobals[g] {
			return nil
		}
		w.evalInit(g.Pkg)
		return initVals[o]
	}
}

func roSlice(s *ssa.Slice, d int) bool {
	if d > 4 || s.Referrers() == nil {
		return false
	}
	for _, r := range *s.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if _, ok := q.(*ssa.UnOp); !ok {
					return false
				}
			}
		case *ssa.Slice:
			if !roSlice(r, d+1) {
				return false
			}
		case *ssa.Call:
			// passing a table to a reader; writes through it would be caught
			// by the callee's own analysis when it is in the module
		default:
			_ = r
		}
	}
	return true
}
func roLoaded(u *ssa.UnOp) bool {
	if u.Referrers() == nil {
		return true
	}
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.X == u {
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == r {
						return false
					}
				}
			}
		case *ssa.MapUpdate:
			if r.Map == u {
				return false
			}
		case *ssa.FieldAddr:
			if r.X == u {
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == r {
						return false
					}
				}
			}
		}
	}
	return true
}

// initVars are the initial values of the package variables that change.
var initVars = map[*Term]*Term{}

// setInit gives the variables of a package their initial values.
func (w *World) setInit(st *State, sp *ssa.Package) {
	w.evalInit(sp)
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			if v := initVars[globalObj(g)]; v != nil {
				st.setMem(globalObj(g), v)
			}
		}
	}
}

func (w *World) evalInit(sp *ssa.Package) {
	if initDone[sp] != 0 {
		return
	}
	initDone[sp] = 1
	fn := sp.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		initDone[sp] = 2
		return
	}
	x := newX(w.prog)
	x.budget = 3000000
	x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		if ci.fn != nil && ci.fn != fn && ci.fn.Name() == "init" && ci.fn.Synthetic == "package initializer" {
			return ret(st), true
		}
		return nil, false
	}
	st := newState()
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			o := globalObj(g)
			st.setMem(o, zeroVal(objTypes[o]))
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					initNotes = append(initNotes, sp.Pkg.Path()+": "+u.msg)
					return
				}
				panic(r)
			}
		}()
		outs := x.exec(st, fn, nil, nil)
		var good []Out
		for _, o := range outs {
			if !o.panicked {
				good = append(good, o)
			}
		}
		if len(good) != 1 {
			initNotes = append(initNotes, fmt.Sprintf("%s: %d init outcomes", sp.Pkg.Path(), len(good)))
			return
		}
		for o, v := range good[0].st.mem {
			v = good[0].st.f.rw(v)
			if g := globalOf[o]; g != nil {
				if constGlobals[g] && g.Pkg == sp {
					initVals[o] = v
				} else if g.Pkg == sp {
					initVars[o] = v
				}
			} else if o.op == OAtom || o.op == OApp && o.name == "mkmap" {
				constObjs[o] = v
			}
		}
	}()
	initDone[sp] = 2
}
