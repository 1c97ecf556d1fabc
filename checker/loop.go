package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dbgLoop = os.Getenv("DBGLOOP") != ""

const (
	maxUnroll   = 600
	maxUnrollSt = 96
)

// loop analyses one loop entered with state in (phis of the header already
// evaluated) and returns its exit edges.
func (fr *frame) loop(l *loopInfo, in *fst) []edge {
	x := fr.x
	logN, outN, outs0 := len(x.log), len(fr.outs), fr.outs
	steps0 := x.steps
	if es, ok := fr.unroll(l, in.fork()); ok {
		return es
	}
	_ = steps0
	x.log = x.log[:logN]
	fr.outs = outs0[:outN:outN]
	x.loops++
	return fr.widen(l, in)
}

func (fr *frame) unroll(l *loopInfo, in *fst) (exits []edge, ok bool) {
	x := fr.x
	cur := []*fst{in}
	for it := 0; it < maxUnroll; it++ {
		for _, s := range cur {
			delete(s.und, l)
		}
		e, backs := fr.region(l, l.header, cur)
		exits = append(exits, e...)
		if len(backs) == 0 {
			for _, e := range exits {
				delete(e.fs.und, l)
			}
			return exits, true
		}
		for _, b := range backs {
			u := b.und[l]
			if u&1 != 0 && u&2 == 0 || u == 0 {
				return nil, false
			}
		}
		if len(backs) > 4 {
			backs = fr.mergeStates(l.header, backs)
		}
		if len(backs) > max(maxUnrollSt, x.unrollSt) || len(exits) > 1500 {
			return nil, false
		}
		if x.steps > x.budget {
			return nil, false
		}
		cur = backs
	}
	if x.endless != nil {
		for _, b := range cur {
			if b.und[l]&1 != 0 {
				return nil, false
			}
		}
		x.endless(cur[0].st, fr.fn, l.header)
		for _, e := range exits {
			delete(e.fs.und, l)
		}
		return exits, true
	}
	return nil, false
}

// ---- widening

type leafKey struct {
	kind string // "phi", "mem", "ghost"
	phi  *ssa.Phi
	obj  *Term
	path string
	pt   []*Term
	typ  types.Type
	name string
}

func (k leafKey) id() string {
	switch k.kind {
	case "phi":
		return "p:" + k.phi.Name()
	case "mem":
		return fmt.Sprintf("m:%06d:%s", k.obj.id, k.path)
	}
	return "g:" + k.name
}

type leaf struct {
	key  leafKey
	wide bool // widened to a fresh symbol
	sym  *Term
	base *Term // common slice base when kept
	nfin int
}

type cand struct{ t *Term } // boolean term over head symbols

type head struct {
	key   string
	vals  map[string]*Term // finite leaf values
	cands map[*Term]bool
	src   *fst
}

func isFinite(t *Term, known func(o *Term) bool) bool {
	switch t.op {
	case OBool, ONil, OStr, OConst:
		return true
	case OClosure, OIface, OStruct:
		for _, a := range t.args {
			if !isFinite(a, known) {
				return false
			}
		}
		return true
	case OAddr:
		for _, a := range t.args[1:] {
			if a.op != OFld && a.op != OConst {
				return false
			}
		}
		return known(t.args[0])
	case OApp:
		return t.name == "tok" || t.name == "emptymap"
	case OSlice:
		if t.args[0].op == ONil {
			return true
		}
		return false
	case OAtom:
		return strings.HasPrefix(t.name, "fin:")
	}
	return false
}

func (fr *frame) getLeaf(fs *fst, k leafKey) *Term {
	switch k.kind {
	case "phi":
		return fs.st.f.rw(fs.env[k.phi])
	case "mem":
		v := fs.st.content(k.obj)
		r, _ := fs.st.getPath(v, contentType(k.obj), k.pt)
		return fs.st.f.rw(r)
	}
	v := fs.st.g(k.name)
	if v == nil {
		return tZero
	}
	return v
}
func (fr *frame) setLeaf(fs *fst, k leafKey, v *Term) {
	switch k.kind {
	case "phi":
		fs.env[k.phi] = v
	case "mem":
		if len(k.pt) == 0 {
			fs.st.setMem(k.obj, v)
		} else {
			fs.st.setMem(k.obj, fs.st.setPath(fs.st.content(k.obj), contentType(k.obj), k.pt, v))
		}
	default:
		fs.st.setG(k.name, v)
	}
}

// diffMem lists leaves of obj whose values differ.
func diffVal(obj, a, b *Term, typ types.Type, path []*Term, ps string, out *[]leafKey) {
	if a == b {
		return
	}
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				diffVal(obj, fieldOf(a, i, ft), fieldOf(b, i, ft), ft, append(path[:len(path):len(path)], mkFld(i)), fmt.Sprintf("%s.%d", ps, i), out)
			}
			return
		}
		if at, ok := typ.Underlying().(*types.Array); ok && a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) && at.Len() <= 64 {
			for i := range a.args {
				diffVal(obj, a.args[i], b.args[i], at.Elem(), append(path[:len(path):len(path)], mkInt(int64(i))), fmt.Sprintf("%s[%d]", ps, i), out)
			}
			return
		}
	}
	*out = append(*out, leafKey{kind: "mem", obj: obj, path: ps, pt: path, typ: typ})
}

func (fr *frame) diff(l *loopInfo, a, b *fst) []leafKey {
	var out []leafKey
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fr.val(a, p) != fr.val(b, p) {
			if b.st.f.rw(fr.val(a, p)) != fr.val(b, p) {
				out = append(out, leafKey{kind: "phi", phi: p, typ: p.Type()})
			}
		}
	}
	var objs []*Term
	for o := range b.st.mem {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		_, had := a.st.mem[o]
		if !had && o.op == OAtom && strings.HasPrefix(o.name, "alloc:") {
			continue // allocated inside the loop
		}
		av, bv := b.st.f.rw(a.st.content(o)), b.st.content(o)
		if av == bv {
			continue
		}
		var ks []leafKey
		diffVal(o, av, bv, contentType(o), nil, "", &ks)
		out = append(out, ks...)
	}
	for _, g := range sortedKeys(b.st.ghost) {
		av := a.st.g(g)
		bv := b.st.g(g)
		if av == nil && bv == tZero || av != nil && (av == bv || b.st.f.rw(av) == bv) {
			continue
		}
		out = append(out, leafKey{kind: "ghost", name: g, typ: nil})
	}
	for _, g := range sortedKeys(a.st.ghost) {
		if _, ok := b.st.ghost[g]; !ok {
			fr.x.fail("ghost %s removed in loop", g)
		}
	}
	return out
}

// comps lists the integer components of the symbol of a leaf together with
// accessor for corresponding values.
func comps(v *Term) []*Term {
	switch {
	case v.op == OSlice:
		return []*Term{v.args[1], v.args[2], v.args[3]}
	case isIntTerm(v):
		return []*Term{v}
	case v.op == OAtom && isStringType(v.typ):
		return []*Term{lenOf(v)}
	}
	return nil
}
func compsLike(sym, v *Term) []*Term {
	switch {
	case sym.op == OSlice:
		if v.op == ONil {
			return []*Term{tZero, tZero, tZero}
		}
		if v.op == OSlice {
			if sym.args[1].op == OConst { // opaque base: offsets incomparable
				return []*Term{sym.args[1], v.args[2], v.args[3]}
			}
			return []*Term{v.args[1], v.args[2], v.args[3]}
		}
		return []*Term{sym.args[1], lenOf(v), capOf(v)}
	case isIntTerm(sym):
		return []*Term{v}
	case sym.op == OAtom && isStringType(sym.typ):
		return []*Term{lenOf(v)}
	}
	return nil
}

func (fr *frame) widen(l *loopInfo, in *fst) []edge {
	x := fr.x
	delete(in.und, l)
	leaves := map[string]*leaf{}
	marker := termSeq
	symAtoms := map[*Term]bool{}
	templates := map[*Term]bool{}
	var order []string
	known := func(o *Term) bool {
		if _, ok := in.st.mem[o]; ok {
			return true
		}
		return !(o.op == OAtom && strings.HasPrefix(o.name, "alloc:"))
	}
	newSym := func(lf *leaf) {
		k := lf.key
		typ := k.typ
		if typ == nil && k.kind == "ghost" {
			if isIntTerm(fr.getLeaf(in, k)) {
				typ = types.Typ[types.Int]
			} else if e := fr.getLeaf(in, k); isBoolish(e) {
				typ = types.Typ[types.Bool]
			}
		}
		name := "φ"
		switch k.kind {
		case "phi":
			name += k.phi.Comment
		case "ghost":
			name += k.name
		default:
			name += k.path
		}
		e := fr.getLeaf(in, k)
		if typ != nil {
			if _, ok := typ.Underlying().(*types.Slice); ok {
				if lf.base != nil {
					off, ln, cp := fresh(name+".off", types.Typ[types.Int]), fresh(name+".len", types.Typ[types.Int]), fresh(name+".cap", types.Typ[types.Int])
					symAtoms[off], symAtoms[ln], symAtoms[cp] = true, true, true
					lf.sym = mkSlice(lf.base, off, ln, cp)
					return
				}
			}
		}
		a := fresh(name, typ)
		symAtoms[a] = true
		lf.sym = wrapT(a)
		_ = e
	}
	baseOf := func(v *Term) *Term {
		if v.op == OSlice {
			return v.args[0]
		}
		return nil
	}
	addLeaf := func(k leafKey, cur *Term) bool {
		id := k.id()
		if _, ok := leaves[id]; ok {
			return false
		}
		// drop sub-leaves covered by / covering this one
		for oid, o := range leaves {
			if o.key.kind == "mem" && k.kind == "mem" && o.key.obj == k.obj {
				if strings.HasPrefix(k.path, o.key.path) && o.key.path != k.path && (len(o.key.path) == 0 || k.path[len(o.key.path)] == '.' || k.path[len(o.key.path)] == '[') {
					o.wide = true
					return false
				}
				if strings.HasPrefix(o.key.path, k.path) && (len(k.path) == 0 || o.key.path[len(k.path)] == '.' || o.key.path[len(k.path)] == '[') {
					delete(leaves, oid)
				}
			}
		}
		leaves[id] = &leaf{key: k}
		order = nil
		for id := range leaves {
			order = append(order, id)
		}
		sort.Strings(order)
		return true
	}
	sortOrder := func() {
		order = order[:0]
		for id := range leaves {
			order = append(order, id)
		}
		sort.Strings(order)
	}
	tryFinite := func(lf *leaf, v *Term) bool {
		return isFinite(v, known)
	}

	// mkHead builds the abstract head state for a finite-value combination.
	mkHead := func(h *head) *fst {
		s := in.fork()
		for _, id := range order {
			lf := leaves[id]
			if lf.wide {
				fr.setLeaf(s, lf.key, lf.sym)
			} else {
				fr.setLeaf(s, lf.key, h.vals[id])
			}
		}
		for _, id := range order {
			lf := leaves[id]
			if lf.wide && lf.sym.op == OSlice {
				s.st.assumeGe(lf.sym.args[2])
				s.st.assumeGe(lf.sym.args[1])
				s.st.assumeGe(linSub(lf.sym.args[3], lf.sym.args[2]))
			}
		}
		var cs []*Term
		for c := range h.cands {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			if !s.st.assume(c, true) {
				return nil
			}
		}
		return s
	}
	// subst maps head symbols to the values of state s.
	substFor := func(s *fst) *Facts {
		f := newFacts()
		f.oneShot = true
		for _, id := range order {
			lf := leaves[id]
			if !lf.wide {
				continue
			}
			v := fr.getLeaf(s, lf.key)
			sc, vc := comps(lf.sym), compsLike(lf.sym, v)
			for i := range sc {
				if sc[i].op == OConst {
					continue
				}
				if i < len(vc) && vc[i] != nil {
					f.sub[sc[i]] = vc[i]
				}
			}
			if len(sc) == 0 && lf.sym.op == OAtom {
				f.sub[lf.sym] = v
			}
		}
		return f
	}
	holds := func(c *Term, s *fst) bool {
		sf := substFor(s)
		return s.st.decide(s.st.f.rw(sf.rw(c))) == 1
	}
	onlyStable := func(t *Term) bool {
		hasSym := false
		seen := map[*Term]bool{}
		var ok func(t *Term) bool
		ok = func(t *Term) bool {
			if seen[t] {
				return true
			}
			seen[t] = true
			if symAtoms[t] {
				hasSym = true
				return true
			}
			if t.op == OAtom && t.id > marker {
				return false
			}
			for _, a := range t.args {
				if !ok(a) {
					return false
				}
			}
			return true
		}
		return ok(t) && hasSym
	}
	addTpl := func(c *Term) bool {
		if c.op == OBool || templates[c] || len(templates) > 400 {
			return false
		}
		templates[c] = true
		return true
	}
	baseTemplates := func() {
		for _, id := range order {
			lf := leaves[id]
			if !lf.wide {
				continue
			}
			e := fr.getLeaf(in, lf.key)
			sc, ec := comps(lf.sym), compsLike(lf.sym, e)
			for i := range sc {
				if sc[i].op == OConst || i >= len(ec) || ec[i] == nil {
					continue
				}
				addTpl(mkGe0(linSub(sc[i], ec[i])))
				addTpl(mkGe0(linSub(ec[i], sc[i])))
				addTpl(mkGe0(sc[i]))
			}
			if lf.sym.op == OSlice {
				// content end is invariant for re-slicing loops
				if ec != nil && sc[0].op != OConst {
					addTpl(mkEq0(linSub(linAdd(sc[0], sc[1]), linAdd(ec[0], ec[1]))))
					addTpl(mkEq0(linSub(linAdd(sc[0], sc[2]), linAdd(ec[0], ec[2]))))
				}
			}
		}
	}

	comboKey := func(s *fst) (string, map[string]*Term, bool) {
		vals := map[string]*Term{}
		var sb strings.Builder
		for _, id := range order {
			lf := leaves[id]
			if lf.wide {
				continue
			}
			v := fr.getLeaf(s, lf.key)
			if !tryFinite(lf, v) {
				return id, nil, false
			}
			vals[id] = v
			fmt.Fprintf(&sb, "%s=%d;", id, v.id)
		}
		return sb.String(), vals, true
	}

	type counts struct{ m map[string]map[*Term]bool }
	saveLearn := x.learn
	defer func() { x.learn = saveLearn }()

	var heads map[string]*head
	var hkeys []string
restart:
	for attempt := 0; ; attempt++ {
		if attempt > 60 {
			x.fail("loop analysis does not stabilise in %v block %d", fr.fn, l.header.Index)
		}
		sortOrder()
		// create symbols
		for _, id := range order {
			lf := leaves[id]
			if lf.wide && lf.sym == nil {
				newSym(lf)
			}
		}
		if attempt > 0 {
			baseTemplates()
		}
		heads = map[string]*head{}
		hkeys = nil
		key, vals, ok := comboKey(in)
		if !ok {
			leaves[key].wide = true
			leaves[key].base = baseOf(fr.getLeaf(in, leaves[key].key))
			continue restart
		}
		h0 := &head{key: key, vals: vals, cands: map[*Term]bool{}}
		heads[key] = h0
		hkeys = append(hkeys, key)
		for t := range templates {
			if holds(t, in) {
				h0.cands[t] = true
			}
		}
		finCount := map[string]map[*Term]bool{}
		countFin := func(vals map[string]*Term) string {
			for id, v := range vals {
				if finCount[id] == nil {
					finCount[id] = map[*Term]bool{}
				}
				finCount[id][v] = true
				lim := 6
				if v.op == OConst {
					lim = 3
				}
				if len(finCount[id]) > lim {
					return id
				}
			}
			return ""
		}
		countFin(vals)
		for pass := 0; ; pass++ {
			if pass > 60 {
				x.fail("loop invariants do not stabilise in %v block %d", fr.fn, l.header.Index)
			}
			changed := false
			var learned []*Term
			type arrival struct{ fs *fst }
			var arr []*fst
			for hi := 0; hi < len(hkeys); hi++ {
				h := heads[hkeys[hi]]
				s := mkHead(h)
				if s == nil {
					continue
				}
				ln, on := len(x.log), len(fr.outs)
				outs0 := fr.outs
				var lrn []*Term
				x.learn = &lrn
				_, backs := fr.region(l, l.header, []*fst{s.fork()})
				x.learn = saveLearn
				x.log = x.log[:ln]
				fr.outs = outs0[:on:on]
				learned = append(learned, lrn...)
				for _, b := range backs {
					b.und = nil
					// newly modified leaves
					again := false
					for _, k := range fr.diff(l, s, b) {
						if lf, ok := leaves[k.id()]; ok {
							_ = lf
							continue
						}
						cov := false
						for _, o := range leaves {
							if o.key.kind == "mem" && k.kind == "mem" && o.key.obj == k.obj && strings.HasPrefix(k.path, o.key.path) && (len(o.key.path) == 0 || len(k.path) > len(o.key.path) && (k.path[len(o.key.path)] == '.' || k.path[len(o.key.path)] == '[')) {
								cov = true
								if !o.wide {
									o.wide = true
									again = true
								}
							}
						}
						if cov {
							continue
						}
						if addLeaf(k, nil) {
							lf := leaves[k.id()]
							ev, bv := fr.getLeaf(in, k), fr.getLeaf(b, k)
							if !isFinite(ev, known) || !isFinite(bv, known) {
								lf.wide = true
								if eb := baseOf(ev); eb != nil && eb == baseOf(bv) && k.kind != "ghost" {
									lf.base = eb
								}
							}
							again = true
						}
					}
					if again {
						if dbgLoop {
							fmt.Fprintf(os.Stderr, "loop %v b%d: leaves now %v\n", fr.fn, l.header.Index, sortedKeys(leaves))
						}
						continue restart
					}
					// base changes
					for _, id := range order {
						lf := leaves[id]
						if lf.wide && lf.base != nil {
							if bb := baseOf(fr.getLeaf(b, lf.key)); bb != lf.base {
								lf.base = nil
								newSym(lf)
								continue restart
							}
						}
					}
					arr = append(arr, b)
				}
			}
			// classify arrivals
			for _, b := range arr {
				key, vals, ok := comboKey(b)
				if !ok {
					lf := leaves[key]
					lf.wide = true
					if eb := baseOf(fr.getLeaf(in, lf.key)); eb != nil && eb == baseOf(fr.getLeaf(b, lf.key)) {
						lf.base = eb
					}
					continue restart
				}
				if id := countFin(vals); id != "" {
					leaves[id].wide = true
					continue restart
				}
				h := heads[key]
				if h == nil {
					h = &head{key: key, vals: vals, cands: map[*Term]bool{}}
					heads[key] = h
					hkeys = append(hkeys, key)
					changed = true
					for t := range templates {
						if holds(t, b) {
							h.cands[t] = true
						}
					}
					if len(heads) > 40 {
						x.fail("too many loop states in %v", fr.fn)
					}
					continue
				}
				for c := range h.cands {
					if !holds(c, b) {
						delete(h.cands, c)
						changed = true
						if dbgLoop {
							fmt.Fprintf(os.Stderr, "loop %v b%d: drop %v\n", fr.fn, l.header.Index, c)
							if os.Getenv("DBGDROP") != "" {
								sf := substFor(b)
								fmt.Fprintln(os.Stderr, "   at", b.st.f.rw(sf.rw(c)), b.st.f.allFacts(), b.st.f.sub)
							}
						}
					}
				}
			}
			if changed {
				continue
			}
			// try to learn new templates from branch conditions and deltas
			grew := false
			for _, c := range learned {
				for c.op == ONot {
					c = c.args[0]
				}
				if !onlyStable(c) {
					continue
				}
				switch c.op {
				case OGe0:
					lt := c.args[0]
					for _, d := range []int64{0, 1, 2} {
						grew = addTpl(mkGe0(linK(lt, d))) || grew
					}
					for _, d := range []int64{-1, 0, 1} {
						grew = addTpl(mkGe0(linK(linNeg(lt), d))) || grew
					}
				case OEq0:
					lt := c.args[0]
					grew = addTpl(mkGe0(lt)) || grew
					grew = addTpl(mkGe0(linNeg(lt))) || grew
					grew = addTpl(mkNot(c)) || grew
				default:
					grew = addTpl(c) || grew
					grew = addTpl(mkNot(c)) || grew
				}
			}
			// lockstep relations
			type ic struct {
				sym, ent *Term
			}
			var ics []ic
			var find []func(s *fst) *Term
			for _, id := range order {
				lf := leaves[id]
				if !lf.wide {
					continue
				}
				e := fr.getLeaf(in, lf.key)
				sc, ec := comps(lf.sym), compsLike(lf.sym, e)
				for i := range sc {
					if sc[i].op == OConst || i >= len(ec) || ec[i] == nil {
						continue
					}
					i, lf := i, lf
					ics = append(ics, ic{sc[i], ec[i]})
					find = append(find, func(s *fst) *Term {
						c := compsLike(lf.sym, fr.getLeaf(s, lf.key))
						if i < len(c) {
							return c[i]
						}
						return nil
					})
				}
			}
			for _, b := range arr {
				for i := range ics {
					vi := find[i](b)
					if vi == nil {
						continue
					}
					di := linSub(vi, b.st.f.rw(ics[i].sym))
					// bounds established on the new value by this iteration
					if ms, _, _ := linParts(vi); len(ms) > 0 && di.op != OConst {
						nb := 0
						for _, g := range b.st.f.ge {
							if nb > 6 || !linHas(g, ms[0]) {
								continue
							}
							for _, k := range []int64{1, -1} {
								if d := linSub(g, linScale(vi, k)); d.op == OConst || onlyStable2(d, marker) {
									grew = addTpl(mkGe0(linAdd(d, linScale(ics[i].sym, k)))) || grew
									nb++
								}
							}
						}
					}
					for j := i + 1; j < len(ics); j++ {
						vj := find[j](b)
						if vj == nil {
							continue
						}
						dj := linSub(vj, b.st.f.rw(ics[j].sym))
						var t *Term
						switch {
						case di.op == OConst && dj.op == OConst && (di.k != 0 || dj.k != 0):
							t = linSub(linSub(linScale(ics[i].sym, dj.k), linScale(ics[i].ent, dj.k)), linSub(linScale(ics[j].sym, di.k), linScale(ics[j].ent, di.k)))
						case di == dj:
							t = linSub(linSub(ics[i].sym, ics[i].ent), linSub(ics[j].sym, ics[j].ent))
						case linAdd(di, dj) == tZero:
							t = linSub(linAdd(ics[i].sym, ics[j].sym), linAdd(ics[i].ent, ics[j].ent))
						default:
							if di.op == OConst && di.k == 1 && onlyStable2(dj, marker) {
								// j grows by an invariant amount per step of i
								t = linSub(linSub(ics[j].sym, ics[j].ent), linMul(linSub(ics[i].sym, ics[i].ent), dj))
							} else if dj.op == OConst && dj.k == 1 && onlyStable2(di, marker) {
								t = linSub(linSub(ics[i].sym, ics[i].ent), linMul(linSub(ics[j].sym, ics[j].ent), di))
							}
						}
						if t != nil && t.op != OConst {
							grew = addTpl(mkGe0(t)) || grew
							grew = addTpl(mkGe0(linNeg(t))) || grew
						}
						// constant difference re-established by each iteration
						if dv, de := linSub(vi, vj), linSub(ics[i].ent, ics[j].ent); dv.op == OConst && dv == de {
							t := linSub(linSub(ics[i].sym, ics[j].sym), de)
							if t.op != OConst {
								grew = addTpl(mkGe0(t)) || grew
								grew = addTpl(mkGe0(linNeg(t))) || grew
							}
						}
						// inequality form for one-sided movement
						if di.op == OConst && dj.op == OConst {
							d := linSub(linSub(ics[i].sym, ics[i].ent), linSub(ics[j].sym, ics[j].ent))
							grew = addTpl(mkGe0(d)) || grew
							grew = addTpl(mkGe0(linNeg(d))) || grew
							a := linSub(ics[i].sym, ics[j].sym)
							grew = addTpl(mkGe0(a)) || grew
							grew = addTpl(mkGe0(linNeg(a))) || grew
						}
					}
				}
			}
			if grew && pass < 40 && attempt < 40 {
				if dbgLoop {
					fmt.Fprintf(os.Stderr, "loop %v b%d: %d templates\n", fr.fn, l.header.Index, len(templates))
				}
				// restart the pass structure with the richer template set
				continue restart
			}
			break
		}
		break
	}
	// final, committed pass
	var exits []edge
	var progs []map[string]bool
	var progTr *State
	for _, k := range hkeys {
		h := heads[k]
		s := mkHead(h)
		if s == nil {
			continue
		}
		if dbgLoop {
			var cs []string
			for c := range h.cands {
				cs = append(cs, c.String())
			}
			sort.Strings(cs)
			fmt.Fprintf(os.Stderr, "loop %v b%d head %q: inv %v\n", fr.fn, l.header.Index, k, cs)
		}
		x.learn = saveLearn
		var at0 map[string][]*Term
		if x.h.progress != nil {
			at0 = map[string][]*Term{}
			for _, id := range order {
				if lf := leaves[id]; lf.wide {
					at0[id] = comps(lf.sym)
				}
			}
		}
		e, fbacks := fr.region(l, l.header, []*fst{s})
		if x.h.progress != nil {
			bnds := boundTerms(s.st.f, templates, marker, symAtoms)
			measure := func(b *fst) map[string]bool {
				got := map[string]bool{}
				for id, c0 := range at0 {
					c1 := compsLike(leaves[id].sym, fr.getLeaf(b, leaves[id].key))
					for i := range c0 {
						if i >= len(c1) || c1[i] == nil || c0[i].op == OConst {
							continue
						}
						old := b.st.f.rw(c0[i])
						d := linSub(b.st.f.rw(c1[i]), old)
						key := fmt.Sprintf("%s.%d", id, i)
						if b.st.f.prove(linK(d, -1)) {
							for _, u := range bnds {
								if b.st.f.prove(linK(linSub(u, old), 64)) {
									got[key+"+"] = true
									break
								}
							}
						}
						if b.st.f.prove(linK(linNeg(d), -1)) && b.st.f.prove(linK(old, 1<<20)) {
							got[key+"-"] = true
						}
					}
				}
				return got
			}
			var step1 []map[string]bool
			for _, b := range fbacks {
				step1 = append(step1, measure(b))
			}
			for i, b := range fbacks {
				got := step1[i]
				if !commonKey(append(progs[:len(progs):len(progs)], step1...)) {
					// progress over two iterations is as good
					ln, on := len(x.log), len(fr.outs)
					outs0 := fr.outs
					nb := b.fork()
					delete(nb.und, l)
					_, backs2 := fr.region(l, l.header, []*fst{nb})
					x.log = x.log[:ln]
					fr.outs = outs0[:on:on]
					if len(backs2) == 0 {
						continue
					}
					var two map[string]bool
					for _, b2 := range backs2 {
						m := measure(b2)
						if two == nil {
							two = m
							continue
						}
						for k := range two {
							if !m[k] {
								delete(two, k)
							}
						}
					}
					for k := range two {
						got[k] = true
					}
				}
				progs = append(progs, got)
				if len(got) == 0 {
					progTr = b.st
				}
			}
		}
		for _, ed := range e {
			delete(ed.fs.und, l)
		}
		exits = append(exits, e...)
	}
	if x.h.progress != nil {
		// one measure must make progress on every back edge
		ok := commonKey(progs)
		rng := false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, isNext := in.(*ssa.Next); isNext && b == l.header {
					rng = true
				}
			}
		}
		x.h.progress(x, progTr, fr.fn, l.header, ok || rng)
	}
	return exits
}

// commonKey: some measure occurs in every set (true for no sets).
func commonKey(ms []map[string]bool) bool {
	if len(ms) == 0 {
		return true
	}
	for k := range ms[0] {
		all := true
		for _, p := range ms {
			all = all && p[k]
		}
		if all {
			return true
		}
	}
	return false
}

// boundTerms lists loop-invariant terms that may bound a position from above.
func boundTerms(f *Facts, templates map[*Term]bool, marker int, syms map[*Term]bool) []*Term {
	seen := map[*Term]bool{}
	out := []*Term{mkInt(1 << 20)}
	add := func(c *Term) {
		if c.op == ONot {
			c = c.args[0]
		}
		if c.op != OGe0 && c.op != OEq0 {
			return
		}
		ms, cs, _ := linParts(c.args[0])
		l := tZero
		single := []*Term{}
		for i, m := range ms {
			if syms[m] || !onlyStable2(m, marker) {
				continue
			}
			l = linAdd(l, linScale(m, cs[i]))
			single = append(single, m)
		}
		for _, u := range append(single, l, linNeg(l)) {
			if u.op != OConst && !seen[u] {
				seen[u] = true
				out = append(out, u)
			}
		}
	}
	for _, g := range f.allFacts() {
		add(g)
	}
	for t := range templates {
		add(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}

func onlyStable2(t *Term, marker int) bool {
	if t.op == OAtom {
		return t.id <= marker
	}
	for _, a := range t.args {
		if !onlyStable2(a, marker) {
			return false
		}
	}
	return true
}
