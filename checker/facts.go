package main

// The numeric/logical part of an abstract state: a conjunction of linear
// inequalities, disequalities, truth values of opaque predicates and a
// substitution for solved equalities.  Facts values are persistent.

import (
	"encoding/binary"
	"go/types"
	"math/bits"
	"sort"
)

type Facts struct {
	ge    []*Term // lin >= 0
	geSet map[*Term]bool
	ne    map[*Term]bool // canonical lin != 0
	bools map[*Term]bool
	sub   map[*Term]*Term
	// caches (valid because Facts is immutable once published)
	rwMemo  map[*Term]*Term
	prMemo  map[*Term]int8
	depth   int
	oneShot bool // sub is a simultaneous substitution, not solved equalities
	fp      uint64
}

func newFacts() *Facts {
	return &Facts{geSet: map[*Term]bool{}, ne: map[*Term]bool{}, bools: map[*Term]bool{}, sub: map[*Term]*Term{}}
}
func (f *Facts) clone() *Facts {
	g := &Facts{ge: append([]*Term(nil), f.ge...), geSet: make(map[*Term]bool, len(f.geSet)+1), ne: make(map[*Term]bool, len(f.ne)), bools: make(map[*Term]bool, len(f.bools)+1), sub: make(map[*Term]*Term, len(f.sub))}
	for k := range f.geSet {
		g.geSet[k] = true
	}
	for k := range f.ne {
		g.ne[k] = true
	}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.sub {
		g.sub[k] = v
	}
	return g
}
func (f *Facts) invalidate() { f.rwMemo = nil; f.prMemo = nil }

// rw rewrites t under the solved equalities.
func (f *Facts) rw(t *Term) *Term {
	if len(f.sub) == 0 || t == nil {
		return t
	}
	if f.rwMemo == nil {
		f.rwMemo = map[*Term]*Term{}
	}
	if r, ok := f.rwMemo[t]; ok {
		return r
	}
	if s, ok := f.sub[t]; ok {
		f.rwMemo[t] = s
		return s
	}
	if len(t.args) == 0 {
		return t
	}
	changed := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = f.rw(a)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, na)
		if s, ok := f.sub[r]; ok && !f.oneShot {
			r = s
		}
	}
	f.rwMemo[t] = r
	return r
}

// rebuild re-normalises t with new arguments.
func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.k = t.k
		for i, a := range na {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case OMono:
		r := na[0]
		for _, a := range na[1:] {
			r = linMul(r, a)
		}
		return r
	case OBits:
		return fromBits(na, t.name == "s")
	case OGe0:
		return mkGe0(na[0])
	case OEq0:
		return mkEq0(na[0])
	case OEqv:
		return mkEqv(na[0], na[1])
	case ONot:
		return mkNot(na[0])
	case OStore:
		return mkStore(na[0], na[1], na[2])
	case OCat:
		return mkCat(na)
	case OChunk:
		return mkChunk(na[0], na[1], na[2])
	case OApp:
		return reApp(t, na)
	}
	return mk(t.op, t.name, t.k, t.typ, t.ref, t.coefs, na...)
}

func mkChunk(c, off, n *Term) *Term { return mk(OChunk, "", 0, nil, nil, nil, c, off, n) }

// mkCat flattens sequence content.
func mkCat(parts []*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		switch p.op {
		case OCat:
			for _, q := range p.args {
				add(q)
			}
		case OChunk:
			n := p.args[2]
			if n.op == OConst && n.k <= 0 {
				return
			}
			// whole or constant slices of a cat expand
			c, off := p.args[0], p.args[1]
			if c.op == OCat && off == tZero {
				if catLen(c) == n {
					add(c)
					return
				}
			}
			if c.op == OCat {
				if sub, ok := catRange(c, off, n); ok {
					for _, q := range sub {
						add(q)
					}
					return
				}
			}
			if c.op == OStr && off.op == OConst && n.op == OConst && off.k+n.k <= int64(len(c.name)) {
				for i := off.k; i < off.k+n.k; i++ {
					out = append(out, mk(OElem, "", 0, nil, nil, nil, mkInt(int64(c.name[i]))))
				}
				return
			}
			if c.op == OCat && off.op == OConst && n.op == OConst && allElems(c) && off.k+n.k <= int64(len(c.args)) && off.k >= 0 {
				for i := off.k; i < off.k+n.k; i++ {
					out = append(out, c.args[i])
				}
				return
			}
			if n.op == OConst && off.op == OConst && n.k <= 64 && (c.op == OStruct || c.op == OApp && c.name == "zeros" || c.op == OStore) {
				for i := off.k; i < off.k+n.k; i++ {
					out = append(out, mk(OElem, "", 0, nil, nil, nil, selTerm(c, mkInt(i), nil, nil)))
				}
				return
			}
			// merge adjacent chunks of the same content
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.op == OChunk && l.args[0] == c && linAdd(l.args[1], l.args[2]) == off {
					out[len(out)-1] = mkChunk(c, l.args[1], linAdd(l.args[2], n))
					return
				}
			}
			out = append(out, p)
		default:
			out = append(out, p)
		}
	}
	for _, p := range parts {
		add(p)
	}
	return mk(OCat, "", 0, nil, nil, nil, out...)
}

// catRange gives the parts of cat c spanning [off, off+n) when both ends fall
// on part boundaries.
func catRange(c, off, n *Term) ([]*Term, bool) {
	end := linAdd(off, n)
	l := newLin()
	i, j := -1, -1
	for k := 0; k <= len(c.args); k++ {
		at := l.term()
		if at == off && i < 0 {
			i = k
		}
		if at == end && i >= 0 {
			j = k
		}
		if k < len(c.args) {
			if a := c.args[k]; a.op == OElem {
				l.k++
			} else {
				l.add(a.args[2], 1)
			}
		}
	}
	if i < 0 || j < i {
		return nil, false
	}
	return c.args[i:j], true
}
func allElems(c *Term) bool {
	for _, a := range c.args {
		if a.op != OElem {
			return false
		}
	}
	return true
}
func catLen(c *Term) *Term {
	l := newLin()
	for _, a := range c.args {
		if a.op == OElem {
			l.k++
		} else {
			l.add(a.args[2], 1)
		}
	}
	return l.term()
}

func reApp(t *Term, na []*Term) *Term {
	if t.name == "bit" {
		x := na[0]
		switch {
		case x.op == OConst:
			return mkInt(int64(uint64(x.k) >> uint(t.k) & 1))
		case x.op == OBits:
			if int(t.k) < len(x.args) {
				return x.args[t.k]
			}
			return bit0
		case x.op == OApp && x.name == "band":
			return bitAnd(x.args[0], x.args[1])
		case x.op == OApp && x.name == "bor":
			return bitOr(x.args[0], x.args[1])
		case x.op == OApp && x.name == "bxor":
			return bitXor(x.args[0], x.args[1])
		case x.op == OApp && x.name == "bnot":
			return bitNot(x.args[0])
		case x.op == OLin || x.op == OMono:
			return mk(OApp, "bit", t.k, nil, nil, nil, x)
		}
		return mk(OApp, "bit", t.k, nil, nil, nil, x)
	}
	switch t.name {
	case "band":
		r := bitAnd(na[0], na[1])
		if isBit(r) && r.k == 0 && r.args[0].op == OApp && r.args[0].name == "band" {
			return r.args[0]
		}
		return mkApp("bval", nil, r)
	case "bval":
		return mkApp("bval", nil, na[0])
	case "quo":
		return mkQuo(na[0], na[1], t.typ)
	case "rem":
		return mkRem(na[0], na[1], t.typ)
	case "len":
		return lenOf(na[0])
	case "sel":
		return selTerm(na[0], na[1], t.typ, nil)
	case "field":
		return fieldOf(na[0], int(t.k), t.typ)
	case "biteq":
		return mkBitEq(na)
	case "max", "min":
		if na[0].op == OConst && na[1].op == OConst {
			if (na[0].k > na[1].k) == (t.name == "max") {
				return na[0]
			}
			return na[1]
		}
	}
	return mk(t.op, t.name, t.k, t.typ, t.ref, t.coefs, na...)
}

// mkBitEq: conjunction that all given bits are 0 (as a boolean term).
func mkBitEq(bits []*Term) *Term {
	var un []*Term
	seen := map[*Term]bool{}
	for _, b := range bits {
		if b == bit1 {
			return tFalse
		}
		if b == bit0 || seen[b] {
			continue
		}
		seen[b] = true
		un = append(un, b)
	}
	if len(un) == 0 {
		return tTrue
	}
	sort.Slice(un, func(i, j int) bool { return un[i].id < un[j].id })
	if len(un) == 1 {
		return mkEq0(un[0])
	}
	return mk(OApp, "biteq", 0, types.Typ[types.Bool], nil, nil, un...)
}

func mkQuo(a, b *Term, typ types.Type) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return mkInt(a.k / b.k)
	}
	if b == tOne {
		return a
	}
	return mkApp("quo", typ, a, b)
}
func mkRem(a, b *Term, typ types.Type) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return mkInt(a.k % b.k)
	}
	if b == tOne {
		return tZero
	}
	return mkApp("rem", typ, a, b)
}

func lenOf(x *Term) *Term {
	switch x.op {
	case OStr:
		return mkInt(int64(len(x.name)))
	case OSlice:
		return x.args[2]
	case ONil:
		return tZero
	case OApp:
		if x.name == "str" { // string from content
			return catLen(x.args[0])
		}
		if x.name == "substr" {
			return linSub(x.args[2], x.args[1])
		}
		if x.name == "concat" {
			return linAdd(lenOf(x.args[0]), lenOf(x.args[1]))
		}
	}
	return mkApp("len", types.Typ[types.Int], x)
}
func capOf(x *Term) *Term {
	switch x.op {
	case OSlice:
		return x.args[3]
	case ONil:
		return tZero
	}
	return mkApp("cap", types.Typ[types.Int], x)
}

func mkEqv(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isIntTerm(a) && isIntTerm(b) {
		return mkEq0(linSub(a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	// decidable structural cases
	if d := eqStruct(a, b); d != nil {
		return d
	}
	return mk(OEqv, "", 0, nil, nil, nil, a, b)
}

func nonNilTerm(t *Term) bool {
	switch t.op {
	case OAddr, OClosure, OIface, OSlice:
		return true
	case OApp:
		return nonNilApps[t.name]
	}
	return false
}

var nonNilApps = map[string]bool{"tok": true, "newerr": true, "chan": true, "mkmap": true}

func eqStruct(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return mkBool(a.name == b.name)
	}
	if a.op == ONil && b.op == ONil {
		return tTrue
	}
	if a.op == ONil && nonNilTerm(b) || b.op == ONil && nonNilTerm(a) {
		if a.op == OSlice || b.op == OSlice {
			s := a
			if b.op == OSlice {
				s = b
			}
			if s.args[0] == tNil {
				return tTrue
			}
		}
		return tFalse
	}
	if a.op == OBool && isBoolish(b) || b.op == OBool && isBoolish(a) {
		if b.op == OBool {
			a, b = b, a
		}
		if a.k == 1 {
			return b
		}
		return mkNot(b)
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		return nil // caller expands
	}
	if a.op == OAddr && b.op == OAddr {
		if a.args[0] != b.args[0] && a.args[0].op == OAtom && b.args[0].op == OAtom {
			return tFalse
		}
		if a.args[0] == b.args[0] && len(a.args) == len(b.args) {
			allc := true
			for i := range a.args {
				if i > 0 && a.args[i].op != OFld && a.args[i].op != OConst {
					allc = false
				}
			}
			if allc {
				return tFalse
			}
		}
	}
	if a.op == OIface && b.op == OIface {
		if refKey(a.ref) != refKey(b.ref) {
			return tFalse
		}
		return mkEqv(a.args[0], b.args[0])
	}
	tokA, tokB := a.op == OApp && nonNilApps[a.name], b.op == OApp && nonNilApps[b.name]
	if tokA && tokB {
		return tFalse // distinct tokens
	}
	// an address of a local allocation differs from any token
	if a.op == OAddr && tokB || b.op == OAddr && tokA {
		return tFalse
	}
	if a.op == OIface && tokB || b.op == OIface && tokA {
		return tFalse
	}
	if a.op == OStr && b.op == OApp && b.name == "str" && allElems(b.args[0]) || b.op == OStr && a.op == OApp && a.name == "str" && allElems(a.args[0]) {
		s, c := a, b
		if b.op == OStr {
			s, c = b, a
		}
		els := c.args[0].args
		if len(els) != len(s.name) {
			return tFalse
		}
	}
	return nil
}
func isBoolish(t *Term) bool {
	switch t.op {
	case OBool, OGe0, OEq0, OEqv, ONot:
		return true
	case OAtom, OApp:
		return isBoolType(t.typ)
	}
	return false
}

// ---- linear reasoning

const bigNum = int64(1) << 44

func typeRange(t types.Type) (lo, hi int64, okLo, okHi bool) {
	w, s := width(t)
	if s {
		if w < 64 {
			return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1, true, true
		}
		return 0, 0, false, false
	}
	if w <= 40 {
		return 0, int64(1)<<uint(w) - 1, true, true
	}
	return 0, 0, true, false
}

var nonNegApps = map[string]bool{"len": true, "cap": true, "popcount": true}

// axioms returns linear facts always true of monomial m.
func (f *Facts) axioms(m *Term) []*Term {
	var out []*Term
	switch m.op {
	case OAtom:
		lo, hi, a, b := typeRange(m.typ)
		if a {
			out = append(out, linK(m, -lo))
		}
		if b {
			out = append(out, linK(linNeg(m), hi))
		}
	case OBits:
		if m.name == "" {
			out = append(out, m)
			if len(m.args) <= 40 {
				out = append(out, linK(linNeg(m), int64(1)<<uint(len(m.args))-1))
			}
			if f.depth < 2 {
				f.depth++
				if l := f.bitsLin(m); l != nil {
					e := linSub(m, l)
					out = append(out, e, linNeg(e))
				}
				f.depth--
			}
		}
	case OApp:
		if m.name == "bit" {
			return []*Term{m, linK(linNeg(m), 1)}
		}
		if nonNegApps[m.name] {
			out = append(out, m)
		}
		if m.name == "cap" {
			out = append(out, linSub(m, mkApp("len", types.Typ[types.Int], m.args[0])))
		}
		if m.name == "max" {
			out = append(out, linSub(m, m.args[0]), linSub(m, m.args[1]))
		}
		if m.name == "min" {
			out = append(out, linSub(m.args[0], m), linSub(m.args[1], m))
		}
		if (m.name == "quo" || m.name == "rem") && f.depth < 3 {
			x, w := m.args[0], m.args[1]
			f.depth++
			if f.prove(linK(w, -1)) && f.prove(x) {
				q, r := mkQuo(x, w, m.typ), mkRem(x, w, m.typ)
				e := linSub(linSub(x, linMul(q, w)), r) // x - q*w - r == 0
				out = append(out, e, linNeg(e), r, linK(linSub(w, r), -1), q)
			} else if f.prove(linK(w, -1)) {
				r := mkRem(x, w, m.typ)
				out = append(out, linK(linSub(w, r), -1), linK(linAdd(w, r), -1))
			}
			f.depth--
		}
		lo, hi, a, b := typeRange(m.typ)
		if m.typ != nil {
			if a {
				out = append(out, linK(m, -lo))
			}
			if b {
				out = append(out, linK(linNeg(m), hi))
			}
		}
	case OMono:
		if f.depth < 3 && len(m.args) == 2 {
			f.depth++
			a, b := m.args[0], m.args[1]
			pa, pb := f.prove(a), f.prove(b)
			if pa && pb {
				out = append(out, m)
			}
			for i := 0; i < 2; i++ {
				if pb {
					n := 0
					for _, g := range f.ge {
						if n > 6 {
							break
						}
						if linHas(g, a) && linSimple(g) {
							out = append(out, linMul(g, b))
							n++
						}
					}
				}
				a, b, pa, pb = b, a, pb, pa
			}
			f.depth--
		}
	}
	return out
}

// bitsLin expresses a bit vector as a linear term where its bits are constants
// and complete low parts of values known to fit them; nil otherwise.
func (f *Facts) bitsLin(m *Term) *Term {
	if len(m.args) > 62 {
		return nil
	}
	fits := map[*Term]int{}
	wid := func(src *Term) int {
		if k, ok := fits[src]; ok {
			return k
		}
		k := 99
		if w, s := termWidth(src); !s {
			k = w
		}
		if f.prove(src) {
			for _, c := range []int{1, 2, 3, 4, 5, 6, 7, 8, 16, 21} {
				if c < k && f.prove(linK(linNeg(src), int64(1)<<uint(c)-1)) {
					k = c
					break
				}
			}
		}
		fits[src] = k
		return k
	}
	l := tZero
	for i := 0; i < len(m.args); {
		b := m.args[i]
		switch {
		case b.op == OConst:
			l = linK(l, b.k<<uint(i))
			i++
		case isBit(b) && b.k == 0:
			src := b.args[0]
			k := wid(src)
			if k > 62-i {
				return nil
			}
			j := 0
			for j < k && i+j < len(m.args) && m.args[i+j] == bitOf(src, j) {
				j++
			}
			if j < k {
				return nil
			}
			l = linAdd(l, linScale(src, int64(1)<<uint(i)))
			i += k
		case isBit(b) && wid(b.args[0]) <= int(b.k):
			i++ // a known zero
		default:
			return nil
		}
	}
	return l
}

func linHas(t, m *Term) bool {
	ms, _, _ := linParts(t)
	for _, x := range ms {
		if x == m {
			return true
		}
	}
	return false
}
func linSimple(t *Term) bool {
	ms, _, _ := linParts(t)
	for _, x := range ms {
		if x.op == OMono {
			return false
		}
	}
	return len(ms) <= 3
}

// prove reports whether facts entail t >= 0.
func (f *Facts) prove(t *Term) bool {
	t = f.rw(t)
	if t.op == OConst {
		return t.k >= 0
	}
	t = normGe(t)
	if f.prMemo == nil {
		f.prMemo = map[*Term]int8{}
	}
	if v, ok := f.prMemo[t]; ok {
		return v == 1
	}
	f.prMemo[t] = 0 // recursion guard
	r := f.geSet[t] || f.fm(t)
	if r {
		f.prMemo[t] = 1
	} else if f.depth > 0 {
		delete(f.prMemo, t) // shallow result: do not cache failure
	}
	return r
}

type cons struct {
	v []int // sorted var idx
	c []int64
	k int64
}

// fm decides by Fourier-Motzkin elimination whether (facts and t <= -1) is
// rationally infeasible (with gcd tightening).
func (f *Facts) fm(t *Term) bool {
	goal := linK(linNeg(t), -1) // -t-1 >= 0
	idx := map[*Term]int{}
	var vars []*Term
	addVar := func(m *Term) bool {
		if _, ok := idx[m]; ok {
			return false
		}
		idx[m] = len(vars)
		vars = append(vars, m)
		return true
	}
	var lins []*Term
	seen := map[*Term]bool{}
	push := func(l *Term) {
		if l.op == OConst || seen[l] {
			return
		}
		seen[l] = true
		lins = append(lins, l)
	}
	push(goal)
	ms, _, _ := linParts(goal)
	for _, m := range ms {
		addVar(m)
	}
	// transitive closure of relevance
	used := make([]bool, len(f.ge))
	axDone := 0
	for {
		changed := false
		for ; axDone < len(vars); axDone++ {
			for _, ax := range f.axioms(vars[axDone]) {
				ax = f.rw(ax)
				push(ax)
				xs, _, _ := linParts(ax)
				for _, x := range xs {
					if addVar(x) {
						changed = true
					}
				}
			}
		}
		for i, g := range f.ge {
			if used[i] {
				continue
			}
			xs, _, _ := linParts(g)
			hit := false
			for _, x := range xs {
				if _, ok := idx[x]; ok {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				push(g)
				for _, x := range xs {
					addVar(x)
				}
			}
		}
		if !changed && axDone == len(vars) {
			break
		}
		if len(vars) > 60 {
			break
		}
	}
	var cs []cons
	for _, l := range lins {
		xs, co, k := linParts(l)
		c := cons{k: k}
		ok := true
		for i, x := range xs {
			j, has := idx[x]
			if !has {
				ok = false
				break
			}
			c.v = append(c.v, j)
			c.c = append(c.c, co[i])
		}
		if !ok {
			continue
		}
		sortCons(&c)
		cs = append(cs, c)
	}
	return infeasible(cs, len(vars))
}

func sortCons(c *cons) {
	for i := 1; i < len(c.v); i++ {
		for j := i; j > 0 && c.v[j] < c.v[j-1]; j-- {
			c.v[j], c.v[j-1] = c.v[j-1], c.v[j]
			c.c[j], c.c[j-1] = c.c[j-1], c.c[j]
		}
	}
}
func (c *cons) coef(v int) int64 {
	for i, x := range c.v {
		if x == v {
			return c.c[i]
		}
	}
	return 0
}
func combine(a, b cons, ka, kb int64) (cons, bool) {
	var r cons
	i, j := 0, 0
	var g int64
	big := false
	put := func(v int, c int64) {
		if c >= 1<<60 || c <= -(1<<60) {
			big = true
		}
		if c != 0 {
			r.v = append(r.v, v)
			r.c = append(r.c, c)
			g = gcd(g, c)
		}
	}
	for i < len(a.v) || j < len(b.v) {
		switch {
		case j >= len(b.v) || i < len(a.v) && a.v[i] < b.v[j]:
			put(a.v[i], mulOv(ka, a.c[i]))
			i++
		case i >= len(a.v) || b.v[j] < a.v[i]:
			put(b.v[j], mulOv(kb, b.c[j]))
			j++
		default:
			put(a.v[i], mulOv(ka, a.c[i])+mulOv(kb, b.c[j]))
			i++
			j++
		}
	}
	if big {
		return r, false
	}
	r.k = mulOv(ka, a.k) + mulOv(kb, b.k)
	if r.k >= 1<<60 || r.k <= -(1<<60) {
		return r, false
	}
	if g > 1 {
		for i := range r.c {
			r.c[i] /= g
		}
		r.k = floorDiv(r.k, g)
	}
	for _, c := range r.c {
		if c > bigNum || c < -bigNum {
			return r, false
		}
	}
	return r, r.k < bigNum*256 && r.k > -bigNum*256
}
func consKey(c cons) string {
	b := make([]byte, 0, len(c.v)*6)
	for i, v := range c.v {
		b = binary.AppendUvarint(b, uint64(v))
		b = binary.AppendVarint(b, c.c[i])
	}
	return string(b)
}

// mulOv multiplies, saturating far beyond the accepted magnitudes.
func mulOv(a, b int64) int64 {
	const lim = int64(1) << 61
	if a == 0 || b == 0 {
		return 0
	}
	hi, lo := bits.Mul64(absU(a), absU(b))
	if hi != 0 || lo > uint64(lim) {
		if (a < 0) != (b < 0) {
			return -lim
		}
		return lim
	}
	return a * b
}
func absU(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

func infeasible(cs []cons, nv int) bool {
	// dedupe: keep strongest constant per coefficient vector
	dedup := func(cs []cons) ([]cons, bool) {
		m := map[string]int{}
		var out []cons
		for _, c := range cs {
			if len(c.v) == 0 {
				if c.k < 0 {
					return nil, true
				}
				continue
			}
			k := consKey(c)
			if j, ok := m[k]; ok {
				if c.k < out[j].k {
					out[j].k = c.k
				}
				continue
			}
			m[k] = len(out)
			out = append(out, c)
		}
		return out, false
	}
	cs, bad := dedup(cs)
	if bad {
		return true
	}
	alive := make([]bool, nv)
	for i := range alive {
		alive[i] = true
	}
	for round := 0; round < nv; round++ {
		best, bestCost := -1, 1<<30
		for v := 0; v < nv; v++ {
			if !alive[v] {
				continue
			}
			p, n := 0, 0
			for i := range cs {
				c := cs[i].coef(v)
				if c > 0 {
					p++
				} else if c < 0 {
					n++
				}
			}
			if p+n == 0 {
				alive[v] = false
				continue
			}
			cost := p*n - p - n
			if cost < bestCost {
				best, bestCost = v, cost
			}
		}
		if best < 0 {
			return false
		}
		alive[best] = false
		var pos, neg, rest []cons
		for _, c := range cs {
			k := c.coef(best)
			switch {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.coef(best), -n.coef(best)
				g := gcd(a, b)
				r, ok := combine(p, n, b/g, a/g)
				if !ok {
					continue
				}
				rest = append(rest, r)
			}
		}
		cs, bad = dedup(rest)
		if bad {
			return true
		}
		if len(cs) > 400 {
			return false
		}
	}
	return false
}

// decide returns 1/0/-1 for true/false/unknown.
func (f *Facts) decide(c *Term) int {
	c = f.rw(c)
	switch c.op {
	case OBool:
		return int(c.k)
	case ONot:
		d := f.decide(c.args[0])
		if d < 0 {
			return d
		}
		return 1 - d
	case OGe0:
		if f.prove(c.args[0]) {
			return 1
		}
		if f.prove(linK(linNeg(c.args[0]), -1)) {
			return 0
		}
		return -1
	case OEq0:
		l := c.args[0]
		if f.ne[c] {
			return 0
		}
		if f.prove(linK(l, -1)) || f.prove(linK(linNeg(l), -1)) {
			return 0
		}
		if f.prove(l) && f.prove(linNeg(l)) {
			return 1
		}
		return -1
	}
	if v, ok := f.bools[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if c.op == OApp && c.name == "and" {
		all := 1
		for _, a := range c.args {
			switch f.decide(a) {
			case 0:
				return 0
			case -1:
				all = -1
			}
		}
		return all
	}
	return -1
}

// assume adds c == val; nil result means contradiction.
func (f *Facts) assume(c *Term, val bool) *Facts {
	c = f.rw(c)
	if c.op == ONot {
		return f.assume(c.args[0], !val)
	}
	d := f.decide(c)
	if d >= 0 {
		if (d == 1) == val {
			return f
		}
		return nil
	}
	if c.op == OApp && c.name == "and" {
		if val {
			for _, a := range c.args {
				if f = f.assume(a, true); f == nil {
					return nil
				}
			}
			return f
		}
		// false with all but one conjunct true falsifies that one
		var open *Term
		n := 0
		for _, a := range c.args {
			if f.decide(a) != 1 {
				open = a
				n++
			}
		}
		if n == 1 {
			return f.assume(open, false)
		}
	}
	g := f.clone()
	if !g.add(c, val) {
		return nil
	}
	return g
}

func (g *Facts) add(c *Term, val bool) bool {
	switch c.op {
	case OBool:
		return (c.k == 1) == val
	case ONot:
		return g.add(c.args[0], !val)
	case OGe0:
		l := c.args[0]
		if !val {
			l = linK(linNeg(l), -1)
		}
		return g.addGe(l)
	case OEq0:
		if val {
			return g.addEq(c.args[0])
		}
		g.ne[c] = true
		return g.tighten()
	case OApp:
		if c.name == "biteq" && val {
			for _, b := range c.args {
				if !g.addEq(b) {
					return false
				}
			}
			return true
		}
	case OEqv:
		if val {
			a, b := c.args[0], c.args[1]
			// prefer substituting opaque by concrete
			if subst(a) && !occurs(a, b) && !(subst(b) && concreteRank(a) > concreteRank(b) && !occurs(b, a)) {
				return g.addSub(a, b)
			}
			if subst(b) && !occurs(b, a) {
				return g.addSub(b, a)
			}
		}
	}
	g.bools[c] = val
	g.invalidate()
	return true
}
func concreteRank(t *Term) int {
	switch t.op {
	case OAtom:
		return 0
	case OApp:
		return 1
	}
	return 2
}
func subst(t *Term) bool {
	return t.op == OAtom || t.op == OApp && t.name != "tok" && !nonNilApps[t.name]
}
func occurs(x, t *Term) bool {
	if x == t {
		return true
	}
	for _, a := range t.args {
		if occurs(x, a) {
			return true
		}
	}
	return false
}

func (g *Facts) addGe(l *Term) bool {
	if l.op == OConst {
		return l.k >= 0
	}
	l = normGe(l)
	if g.geSet[l] {
		return true
	}
	g.geSet[l] = true
	g.ge = append(g.ge, l)
	g.invalidate()
	// equality discovered?
	if n := normGe(linNeg(l)); g.geSet[n] && n == linNeg(l) {
		return g.addEq(l)
	}
	return g.tighten()
}

// tighten uses disequalities at interval ends.
func (g *Facts) tighten() bool {
	g.invalidate()
	if len(g.ne) == 0 {
		return true
	}
	var nes []*Term
	for n := range g.ne {
		nes = append(nes, n)
	}
	sort.Slice(nes, func(i, j int) bool { return nes[i].id < nes[j].id })
	for _, n := range nes {
		l := n.args[0]
		if g.geSet[normGe(l)] || g.prove(l) {
			if !g.prove(linK(l, -1)) {
				if !g.addGe(linK(l, -1)) {
					return false
				}
			}
		} else if nl := linNeg(l); g.prove(nl) {
			if !g.prove(linK(nl, -1)) {
				if !g.addGe(linK(nl, -1)) {
					return false
				}
			}
		}
	}
	return true
}

func (g *Facts) addEq(l *Term) bool {
	l = g.rw(l)
	if l.op == OConst {
		return l.k == 0
	}
	ms, cs, _ := linParts(l)
	best := -1
	for i, m := range ms {
		if (cs[i] == 1 || cs[i] == -1) && (m.op == OAtom || m.op == OApp && m.name != "tok") {
			rest := linSub(l, linScale(m, cs[i]))
			if occurs(m, rest) {
				continue
			}
			if best < 0 || m.id > ms[best].id {
				best = i
			}
		}
	}
	if best < 0 {
		if len(ms) == 1 && cs[0] == 1 && ms[0].op == OBits {
			// bits == const
			_, _, k := linParts(l)
			v := uint64(-k)
			b := ms[0]
			for i, x := range b.args {
				if !g.addEq(linK(x, -int64(v>>uint(i)&1))) {
					return false
				}
			}
			return true
		}
		for _, x := range []*Term{normGe(l), normGe(linNeg(l))} {
			if !g.geSet[x] {
				g.geSet[x] = true
				g.ge = append(g.ge, x)
			}
		}
		g.invalidate()
		return true
	}
	m := ms[best]
	rest := linSub(l, linScale(m, cs[best]))
	val := linScale(rest, -cs[best])
	return g.addSub(m, val)
}

func (g *Facts) addSub(m, val *Term) bool {
	// range check of val against m's axioms
	axs := g.axioms(m)
	one := &Facts{sub: map[*Term]*Term{m: val}}
	var rekey [][2]*Term
	for k, v := range g.sub {
		nv := one.rw(v)
		g.sub[k] = nv
		if k != m {
			if r := one.rw(k); r != k {
				rekey = append(rekey, [2]*Term{r, nv})
			}
		}
	}
	sort.Slice(rekey, func(i, j int) bool { return rekey[i][0].id < rekey[j][0].id })
	g.sub[m] = val
	g.invalidate()
	// rewrite facts
	old := g.ge
	g.ge, g.geSet = nil, map[*Term]bool{}
	var pend []*Term
	for _, l := range old {
		pend = append(pend, normGe(one.rw(l)))
	}
	for _, a := range axs {
		pend = append(pend, normGe(one.rw(a)))
	}
	for _, l := range pend {
		if l.op == OConst {
			if l.k < 0 {
				return false
			}
			continue
		}
		if !g.geSet[l] {
			g.geSet[l] = true
			g.ge = append(g.ge, l)
		}
	}
	oldNe := g.ne
	g.ne = map[*Term]bool{}
	for c := range oldNe {
		r := one.rw(c)
		switch r.op {
		case OBool:
			if r.k == 1 {
				return false
			}
		case ONot:
			g.ne[r] = true
		default:
			g.ne[r] = true
		}
	}
	oldB := g.bools
	g.bools = map[*Term]bool{}
	var eqs []*Term
	for c, v := range oldB {
		r := one.rw(c)
		for r.op == ONot {
			r, v = r.args[0], !v
		}
		switch r.op {
		case OBool:
			if (r.k == 1) != v {
				return false
			}
		case OGe0, OEq0:
			if !v {
				eqs = append(eqs, mkNot(r))
			} else {
				eqs = append(eqs, r)
			}
		default:
			if o, ok := g.bools[r]; ok && o != v {
				return false
			}
			g.bools[r] = v
		}
	}
	g.invalidate()
	for _, p := range rekey {
		a, b := g.rw(p[0]), g.rw(p[1])
		if a == b {
			continue
		}
		if isIntTerm(a) && isIntTerm(b) {
			if !g.addEq(linSub(a, b)) {
				return false
			}
		} else if e := mkEqv(a, b); e.op == OBool {
			if e.k == 0 {
				return false
			}
		} else if subst(a) && !occurs(a, b) {
			if !g.addSub(a, b) {
				return false
			}
		} else if !g.add(e, true) {
			return false
		}
	}
	for _, e := range eqs {
		e = g.rw(e)
		d := g.decide(e)
		if d == 0 {
			return false
		}
		if d < 0 && !g.add(e, true) {
			return false
		}
	}
	return g.tighten()
}

// key gives a canonical fingerprint of the facts.
func (f *Facts) allFacts() []*Term {
	var out []*Term
	for _, l := range f.ge {
		out = append(out, mkGe0(l))
	}
	for n := range f.ne {
		out = append(out, mkNot(n))
	}
	for b, v := range f.bools {
		if v {
			out = append(out, b)
		} else {
			out = append(out, mkNot(b))
		}
	}
	return out
}

// meetFacts keeps the facts common to a and b (requires equal substitutions;
// otherwise differing substitutions are turned into dropped knowledge).
func meetFacts(a, b *Facts) (*Facts, bool) {
	if len(a.sub) != len(b.sub) {
		return nil, false
	}
	for k, v := range a.sub {
		if b.sub[k] != v {
			return nil, false
		}
	}
	g := newFacts()
	for k, v := range a.sub {
		g.sub[k] = v
	}
	for _, l := range a.ge {
		if b.geSet[l] || b.prove(l) {
			if !g.geSet[l] {
				g.geSet[l] = true
				g.ge = append(g.ge, l)
			}
		}
	}
	for _, l := range b.ge {
		if !g.geSet[l] && a.prove(l) {
			g.geSet[l] = true
			g.ge = append(g.ge, l)
		}
	}
	for n := range a.ne {
		if b.ne[n] || b.decide(n) == 0 {
			g.ne[n] = true
		}
	}
	for n := range b.ne {
		if a.decide(n) == 0 {
			g.ne[n] = true
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && w == v {
			g.bools[k] = v
		}
	}
	return g, true
}
