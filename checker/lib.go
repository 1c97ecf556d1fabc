package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errT = types.Universe.Lookup("error").Type()

func tok(s string) *Term { return mkApp("tok", nil, mkStr(s)) }

// ptrTo makes a fresh object of type t holding v.
func (x *X) objWith(st *State, hint string, t types.Type, v *Term) *Term {
	o := newObj(hint, t)
	st.setMem(o, v)
	return mkAddr(o)
}

// errChoice forks on nil / a distinct non-nil error token.
func errChoice(st *State, name string) []Out {
	return []Out{{st: st.fork(), ret: []*Term{tNil}}, {st: st.fork(), ret: []*Term{tok(name)}}}
}

func (r *Run) bumpPaths(n int) { r.paths += n }

// callName is the resolved callee name or method name.
func (ci *CallInfo) mname() string {
	if ci.fn != nil {
		return ci.fn.Name()
	}
	if ci.method != nil {
		return ci.method.Name()
	}
	return ""
}

// where names the caller function for reports.
func where(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.TrimPrefix(fn.String(), modPath)
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "")
	return strings.ReplaceAll(s, modPath, "anansi")
}

// structOf returns the struct type behind a named type.
func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldsOfType lists direct field indexes whose type satisfies f.
func fieldsOfType(t types.Type, f func(v *types.Var) bool) []int {
	var out []int
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i)) {
			out = append(out, i)
		}
	}
	return out
}

// methodOf finds the body of method name on t or *t.
func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	for _, rt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.prog.MethodSets.MethodSet(rt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				if df := w.prog.FuncValue(s.Obj().(*types.Func)); df != nil && len(df.Blocks) > 0 {
					return df
				}
				return w.prog.MethodValue(s)
			}
		}
	}
	return nil
}

// promotedOf is the method that a pointer to t has by that name, which takes
// such a pointer even when it is promoted from a field.
func (w *World) promotedOf(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return w.prog.MethodValue(s)
		}
	}
	panic(anchorErr{fmt.Sprintf("no method %s of %v", name, t), true})
}

// implementers lists the named module types T where T or *T implements iface.
func (w *World) implementers(it *types.Interface, inPkg func(p string) bool) []types.Type {
	var out []types.Type
	var paths []string
	for p := range w.spkg {
		if p == modPath || strings.HasPrefix(p, modPath+"/") {
			paths = append(paths, p)
		}
	}
	sortStrings(paths)
	for _, p := range paths {
		if inPkg != nil && !inPkg(p) {
			continue
		}
		sc := w.spkg[p].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func fmtTerms(ts []*Term) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, fmt.Sprint(t))
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

// iface wraps a concrete value as an interface value.
func mkIface(dt types.Type, v *Term) *Term {
	return mk(OIface, "", 0, nil, dt, nil, v)
}
