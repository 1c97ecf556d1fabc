package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one abstract state: facts, memory, client ghost cells, trace.
type State struct {
	f      *Facts
	mem    map[*Term]*Term
	ghost  map[string]*Term
	memOwn bool
	ghOwn  bool
	tr     *Trace
}
type Trace struct {
	up  *Trace
	msg string
	n   int
}

func newState() *State {
	return &State{f: newFacts(), mem: map[*Term]*Term{}, ghost: map[string]*Term{}, memOwn: true, ghOwn: true}
}
func (s *State) fork() *State {
	s.memOwn, s.ghOwn = false, false
	c := *s
	return &c
}
func (s *State) setMem(o, v *Term) {
	if !s.memOwn {
		m := make(map[*Term]*Term, len(s.mem)+1)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem, s.memOwn = m, true
	}
	s.mem[o] = v
}
func (s *State) delMem(o *Term) {
	if _, ok := s.mem[o]; ok {
		s.setMem(o, nil)
		delete(s.mem, o)
	}
}
func (s *State) setG(k string, v *Term) {
	if !s.ghOwn {
		m := make(map[string]*Term, len(s.ghost)+1)
		for k, x := range s.ghost {
			m[k] = x
		}
		s.ghost, s.ghOwn = m, true
	}
	s.ghost[k] = v
}
func (s *State) g(k string) *Term {
	if v, ok := s.ghost[k]; ok {
		return s.f.rw(v)
	}
	return nil
}
func (s *State) gInt(k string) *Term {
	if v := s.g(k); v != nil {
		return v
	}
	return tZero
}
func (s *State) note(format string, a ...any) {
	n := 0
	if s.tr != nil {
		n = s.tr.n + 1
	}
	s.tr = &Trace{s.tr, fmt.Sprintf(format, a...), n}
}
func (s *State) trace() []string {
	var out []string
	for t := s.tr; t != nil && len(out) < 40; t = t.up {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func (s *State) assume(c *Term, v bool) bool {
	f := s.f.assume(c, v)
	if f == nil {
		return false
	}
	s.f = f
	return true
}
func (s *State) assumeGe(l *Term) bool { return s.assume(mkGe0(l), true) }
func (s *State) decide(c *Term) int    { return s.f.decide(c) }
func (s *State) isTrue(c *Term) bool   { return s.f.decide(c) == 1 }
func (s *State) eq(a, b *Term) bool {
	a, b = s.f.rw(a), s.f.rw(b)
	if a == b {
		return true
	}
	if s.f.decide(cmpEq(a, b)) == 1 {
		return true
	}
	if (a.op == OBits || b.op == OBits) && isIntTerm(a) && isIntTerm(b) {
		d := linSub(a, b)
		return s.f.prove(d) && s.f.prove(linNeg(d))
	}
	return false
}
func (s *State) ge(a, b *Term) bool { return s.f.prove(linSub(a, b)) }

// ---- objects

var objTypes = map[*Term]types.Type{}

func newObj(hint string, typ types.Type) *Term {
	o := fresh("alloc:"+hint, nil)
	objTypes[o] = typ
	return o
}

// contentType gives the type of the content of object o.
func contentType(o *Term) types.Type {
	if t, ok := objTypes[o]; ok {
		return t
	}
	if o.op == OApp && o.name == "arr" {
		if t := o.args[0].typ; t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return arrT(u.Elem())
			}
		}
		return nil
	}
	if o.typ != nil {
		if p, ok := o.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func wrapSlice(t *Term) *Term {
	return mkSlice(mkAddr(mkApp("arr", nil, t)), tZero, lenOf(t), capOf(t))
}

// wrapT normalises an opaque term of the given type.
func wrapT(t *Term) *Term {
	if (t.op == OAtom || t.op == OApp) && t.typ != nil {
		switch t.typ.Underlying().(type) {
		case *types.Slice:
			return wrapSlice(t)
		case *types.Tuple:
			tt := t.typ.(*types.Tuple)
			var fs []*Term
			for i := 0; i < tt.Len(); i++ {
				fs = append(fs, fieldOf(t, i, tt.At(i).Type()))
			}
			return mkStruct(t.typ, fs...)
		}
	}
	return t
}

func fieldOf(v *Term, i int, typ types.Type) *Term {
	if v.op == OStruct {
		if i < len(v.args) {
			return v.args[i]
		}
	}
	return wrapT(mk(OApp, "field", int64(i), typ, nil, nil, v))
}

func freshVal(hint string, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok {
		var fs []*Term
		for i := 0; i < tt.Len(); i++ {
			fs = append(fs, freshVal(fmt.Sprintf("%s.%d", hint, i), tt.At(i).Type()))
		}
		return mkStruct(typ, fs...)
	}
	return wrapT(fresh(hint, typ))
}

func zeroVal(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return mkApp("fconst:0", typ)
		}
		return tNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroVal(u.Field(i).Type()))
		}
		return mkStruct(typ, fs...)
	case *types.Array:
		if u.Len() <= 1024 {
			z := zeroVal(u.Elem())
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = z
			}
			return mkStruct(typ, fs...)
		}
		return mkApp("zeros", u.Elem())
	}
	return tNil
}

func initContent(o *Term) *Term {
	if o.op == OApp && o.name == "arr" {
		return mkApp("content", nil, o)
	}
	t := contentType(o)
	return wrapT(mkApp("deref", t, o))
}

func (s *State) content(o *Term) *Term {
	o = s.f.rw(o)
	if v, ok := s.mem[o]; ok {
		return s.f.rw(v)
	}
	if o.op == OAtom && strings.HasPrefix(o.name, "global:") {
		if v := globalInit(o); v != nil {
			return v
		}
	}
	if v := constObjs[o]; v != nil {
		return v
	}
	return s.f.rw(initContent(o))
}

var constObjs = map[*Term]*Term{}
var globalInit = func(o *Term) *Term { return nil }

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// selTerm reads element idx of array content.
func selTerm(c, idx *Term, typ types.Type, st *State) *Term {
	for n := 0; n < 4096; n++ {
		switch c.op {
		case OStruct:
			if idx.op == OConst {
				if idx.k >= 0 && idx.k < int64(len(c.args)) {
					return c.args[idx.k]
				}
				return mkApp("oob", typ, c, idx)
			}
			same := len(c.args) > 0
			for _, a := range c.args {
				if a != c.args[0] {
					same = false
					break
				}
			}
			if same {
				return c.args[0]
			}
		case OStr:
			if idx.op == OConst && idx.k >= 0 && idx.k < int64(len(c.name)) {
				return mkInt(int64(c.name[idx.k]))
			}
		case OStore:
			d := linSub(c.args[1], idx)
			if d == tZero {
				return c.args[2]
			}
			if d.op == OConst {
				c = c.args[0]
				continue
			}
			if st != nil {
				switch st.f.decide(mkEq0(d)) {
				case 1:
					return c.args[2]
				case 0:
					c = c.args[0]
					continue
				}
			}
		case OCat:
			off := newLin()
			for _, p := range c.args {
				rel := linSub(idx, off.term())
				if p.op == OElem {
					if rel == tZero || st != nil && st.f.decide(mkEq0(rel)) == 1 {
						return p.args[0]
					}
					if rel.op == OConst && rel.k > 0 || st != nil && st.f.prove(linK(rel, -1)) {
						off.k++
						continue
					}
					goto opaque
				}
				n := p.args[2]
				lt := linK(linSub(n, rel), -1) // rel < n
				if rel.op == OConst && lt.op == OConst && rel.k >= 0 && lt.k >= 0 ||
					st != nil && st.f.prove(lt) && st.f.prove(rel) {
					return selTerm(p.args[0], linAdd(p.args[1], rel), typ, st)
				}
				if lt.op == OConst && lt.k < 0 || st != nil && st.f.prove(linSub(rel, n)) {
					off.add(n, 1)
					continue
				}
				goto opaque
			}
		case OApp:
			switch c.name {
			case "zeros":
				return zeroVal(c.typ)
			case "splice": // old, dstoff, src, srcoff, n
				if st != nil {
					rel := linSub(idx, c.args[1])
					if st.f.prove(rel) && st.f.prove(linK(linSub(c.args[4], rel), -1)) {
						return selTerm(c.args[2], linAdd(c.args[3], rel), typ, st)
					}
					if st.f.prove(linK(linNeg(rel), -1)) || st.f.prove(linSub(rel, c.args[4])) {
						c = c.args[0]
						continue
					}
				}
			case "substr":
				c, idx = c.args[0], linAdd(c.args[1], idx)
				continue
			case "str":
				c = c.args[0]
				continue
			}
		}
		break
	}
opaque:
	return wrapT(mkApp("sel", typ, c, idx))
}

func mkStore(c, i, v *Term) *Term {
	if c.op == OStruct && i.op == OConst && i.k >= 0 && i.k < int64(len(c.args)) {
		na := append([]*Term(nil), c.args...)
		na[i.k] = v
		return mkStruct(c.typ, na...)
	}
	if c.op == OStore && c.args[1] == i {
		return mkStore(c.args[0], i, v)
	}
	if i.op == OConst && c.op == OStore && c.args[1].op == OConst && c.args[1].k > i.k {
		return mk(OStore, "", 0, nil, nil, nil, mkStore(c.args[0], i, v), c.args[1], c.args[2])
	}
	return mk(OStore, "", 0, nil, nil, nil, c, i, v)
}

// getPath navigates content along a path.
func (s *State) getPath(v *Term, typ types.Type, path []*Term) (*Term, types.Type) {
	for _, p := range path {
		if p.op == OFld {
			ft := fieldType(typ, int(p.k))
			v = fieldOf(v, int(p.k), ft)
			typ = ft
		} else {
			et := elemType(typ)
			v = selTerm(v, p, et, s)
			typ = et
		}
	}
	return v, typ
}
func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Type()
	}
	return nil
}
func (s *State) setPath(v *Term, typ types.Type, path []*Term, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.op == OFld {
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			panic(fmt.Sprintf("setPath: not a struct: %v", typ))
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = fieldOf(v, i, st.Field(i).Type())
		}
		i := int(p.k)
		fs[i] = s.setPath(fs[i], st.Field(i).Type(), path[1:], nv)
		return mkStruct(typ, fs...)
	}
	et := elemType(typ)
	cur := nv
	if len(path) > 1 {
		cur = s.setPath(selTerm(v, p, et, s), et, path[1:], nv)
	}
	return mkStore(v, p, cur)
}

func (s *State) load(a *Term) *Term {
	a = s.f.rw(a)
	if a.op != OAddr {
		a = mkAddr(a)
	}
	v := s.content(a.args[0])
	r, _ := s.getPath(v, contentType(a.args[0]), a.args[1:])
	return s.f.rw(r)
}
func (s *State) store(a, v *Term) {
	a = s.f.rw(a)
	if a.op != OAddr {
		a = mkAddr(a)
	}
	o := a.args[0]
	if len(a.args) == 1 {
		s.setMem(o, v)
		return
	}
	s.setMem(o, s.setPath(s.content(o), contentType(o), a.args[1:], v))
}

// fieldAddr appends to an address; opaque pointers become objects.
func addrOf(p *Term) *Term {
	if p.op == OAddr {
		return p
	}
	return mkAddr(p)
}
func addrPath(p *Term, sel ...*Term) *Term {
	p = addrOf(p)
	return mkAddr(p.args[0], append(append([]*Term(nil), p.args[1:]...), sel...)...)
}

// havoc forgets the contents of everything reachable from v through pointers
// and slices.
func (s *State) havoc(v *Term, why string, depth int) {
	s.havocSeen(v, why, depth, map[*Term]bool{})
}
func (s *State) havocSeen(v *Term, why string, depth int, seen map[*Term]bool) {
	v = s.f.rw(v)
	if v == nil || seen[v] || depth < 0 {
		return
	}
	seen[v] = true
	switch v.op {
	case OAddr:
		o := v.args[0]
		if o.op == OAtom && strings.HasPrefix(o.name, "global:") && globalInit(o) != nil {
			return
		}
		t := contentType(o)
		if len(v.args) == 1 {
			s.havocSeen(s.content(o), why, depth-1, seen)
			if t != nil {
				s.setMem(o, havocVal(why, t))
			}
			return
		}
		cur := s.load(v)
		s.havocSeen(cur, why, depth-1, seen)
		_, ty := s.getPath(s.content(o), t, v.args[1:])
		if ty != nil {
			s.store(v, havocVal(why, ty))
		}
	case OSlice:
		if v.args[0].op == OAddr {
			o := v.args[0].args[0]
			if len(v.args[0].args) == 1 {
				if constObjs[o] != nil {
					return
				}
				s.setMem(o, fresh(why+".content", nil))
			} else {
				ty := types.Type(nil)
				_, ty = s.getPath(s.content(o), contentType(o), v.args[0].args[1:])
				if ty != nil {
					s.store(v.args[0], havocVal(why, ty))
				}
			}
		}
	case OIface, OClosure, OStruct:
		for _, a := range v.args {
			s.havocSeen(a, why, depth, seen)
		}
	case OAtom, OApp:
		if v.typ != nil {
			if p, ok := v.typ.Underlying().(*types.Pointer); ok {
				s.setMem(v, havocVal(why, p.Elem()))
			}
		}
	}
}
func havocVal(why string, t types.Type) *Term {
	if at, ok := t.Underlying().(*types.Array); ok && (at.Len() > 64 || at.Len() < 0) {
		return fresh(why, nil)
	}
	return freshVal(why, t)
}

// ---- obligations

type Obl struct {
	Rule, Construct string
	OK              bool
	Msg             string
	Pos             string
	Trace           []string
	N               int
}

func posStr(prog *ssa.Program, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// arrT is the pseudo type of a backing array of unknown length.
var arrTs = map[int]types.Type{}

func arrT(et types.Type) types.Type {
	id := typeID(et)
	t := arrTs[id]
	if t == nil {
		t = types.NewArray(et, -1)
		arrTs[id] = t
	}
	return t
}

// mem1 is the current content of an object.
func (s *State) mem1(o *Term) *Term { return s.content(o) }
