package main

// Hash-consed abstract values ("terms").
//
// Integers are kept in a linear normal form over monomials; unsigned/bitwise
// values are kept as vectors of bit terms; aggregates are immutable trees;
// everything else is an uninterpreted application.  Two equal terms denote the
// same run-time value; the analysis never enumerates run-time values.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst   Op = iota // integer constant k
	OBool              // k = 0/1
	OStr               // string constant name
	ONil               // nil of any type
	OAtom              // symbolic constant
	OApp               // uninterpreted application name(args)
	OMono              // product of >=2 non-linear int terms (sorted)
	OLin               // sum coefs[i]*args[i] + k
	OBits              // vector of bit terms, LSB first
	OStruct            // struct / array / tuple
	OAddr              // args[0] object, args[1:] path (OFld or index term)
	OFld               // field selector k
	OSlice             // base(addr of array object), off, len, cap
	OClosure           // fn, bindings
	OIface             // dynamic type, value
	OGe0               // lin >= 0
	OEq0               // lin == 0
	OEqv               // opaque equality of two non-int terms
	ONot               // boolean negation
	OCat               // sequence content: list of OChunk / OElem
	OChunk             // content, off, len
	OElem              // value
	OStore             // array content, index, value
)

type Term struct {
	op    Op
	id    int
	name  string
	k     int64
	args  []*Term
	coefs []int64
	typ   types.Type
	ref   any // *ssa.Function for closures, types.Type for ifaces
	h     uint32
	vol   bool // made of something fresh
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	typeIDs  = map[string]int{}
	typeMemo = map[types.Type]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := typeMemo[t]; ok {
		return id
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[s] = id
	}
	typeMemo[t] = id
	return id
}

func mk(op Op, name string, k int64, typ types.Type, ref any, coefs []int64, args ...*Term) *Term {
	sb := mkBuf[:0]
	sb = append(sb, byte('A'+op))
	sb = strconv.AppendInt(sb, int64(len(name)), 10)
	sb = append(sb, ':')
	sb = append(sb, name...)
	sb = append(sb, '|')
	sb = strconv.AppendInt(sb, k, 36)
	switch op {
	case OAtom, OApp, ONil, OStruct, OChunk:
		sb = append(sb, 't')
		sb = strconv.AppendInt(sb, int64(typeID(typ)), 10)
	}
	if ref != nil {
		sb = append(sb, 'r')
		sb = strconv.AppendInt(sb, int64(refID(ref)), 10)
	}
	for i, a := range args {
		sb = append(sb, ',')
		sb = strconv.AppendInt(sb, int64(a.id), 36)
		if coefs != nil {
			sb = append(sb, '*')
			sb = strconv.AppendInt(sb, coefs[i], 36)
		}
	}
	mkBuf = sb
	if t, ok := termTab[string(sb)]; ok {
		return t
	}
	key := string(sb)
	termSeq++
	t := &Term{op: op, id: termSeq, name: name, k: k, args: args, coefs: coefs, typ: typ, ref: ref}
	termTab[key] = t
	t.vol = op == OAtom && strings.IndexByte(name, '#') >= 0
	for _, a := range args {
		t.vol = t.vol || a.vol
	}
	if t.vol {
		volTerms = append(volTerms, key)
	}
	return t
}

// volTerms are the keys of terms made of something fresh.
var volTerms []string

// dropVol forgets the terms made of something fresh since there were n of
// them; nothing that holds one may be used any more.
func dropVol(n int) {
	for _, k := range volTerms[n:] {
		delete(objTypes, termTab[k])
		delete(termTab, k)
	}
	clear(volTerms[n:])
	volTerms = volTerms[:n]
}

var mkBuf []byte
var refTypes = map[int]*int{}
var refIDs = map[any]int{}

func refID(ref any) int {
	k := refKey(ref)
	id, ok := refIDs[k]
	if !ok {
		id = len(refIDs) + 1
		refIDs[k] = id
	}
	return id
}

func refKey(ref any) any {
	if t, ok := ref.(types.Type); ok {
		id := typeID(t)
		p := refTypes[id]
		if p == nil {
			p = new(int)
			refTypes[id] = p
		}
		return p
	}
	return ref
}

var (
	tTrue  = mk(OBool, "", 1, nil, nil, nil)
	tFalse = mk(OBool, "", 0, nil, nil, nil)
	tZero  = mk(OConst, "", 0, nil, nil, nil)
	tOne   = mk(OConst, "", 1, nil, nil, nil)
	tNil   = mk(ONil, "", 0, nil, nil, nil)
	bit0   = tZero
	bit1   = tOne
)

func mkInt(k int64) *Term { return mk(OConst, "", k, nil, nil, nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term                  { return mk(OStr, s, 0, nil, nil, nil) }
func mkAtom(n string, typ types.Type) *Term { return mk(OAtom, n, 0, typ, nil, nil) }
func mkFld(i int) *Term                     { return mk(OFld, "", int64(i), nil, nil, nil) }
func mkApp(n string, typ types.Type, args ...*Term) *Term {
	return mk(OApp, n, 0, typ, nil, nil, args...)
}
func mkStruct(typ types.Type, args ...*Term) *Term { return mk(OStruct, "", 0, typ, nil, nil, args...) }
func mkAddr(obj *Term, path ...*Term) *Term {
	return mk(OAddr, "", 0, nil, nil, nil, append([]*Term{obj}, path...)...)
}
func mkSlice(base, off, ln, cp *Term) *Term {
	return mk(OSlice, "", 0, nil, nil, nil, base, off, ln, cp)
}

var freshSeq int

func fresh(hint string, typ types.Type) *Term {
	freshSeq++
	return mkAtom(hint+"#"+strconv.Itoa(freshSeq), typ)
}

// ---- integers

func isIntTerm(t *Term) bool {
	switch t.op {
	case OConst, OLin, OMono, OBits:
		return true
	case OAtom, OApp:
		return isIntType(t.typ)
	}
	return false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// width returns bit width and signedness of an integer type.
func width(t types.Type) (int, bool) {
	if t == nil {
		return 64, true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

type linB struct {
	ms []*Term
	cs []int64
	k  int64
}

func newLin() *linB { return &linB{} }
func (l *linB) addM(m *Term, c int64) {
	for i, x := range l.ms {
		if x == m {
			l.cs[i] += c
			return
		}
	}
	l.ms = append(l.ms, m)
	l.cs = append(l.cs, c)
}
func (l *linB) add(t *Term, c int64) {
	switch t.op {
	case OConst:
		l.k += c * t.k
	case OLin:
		l.k += c * t.k
		for i, a := range t.args {
			l.addM(a, c*t.coefs[i])
		}
	default:
		l.addM(t, c)
	}
}
func (l *linB) term() *Term {
	ms, cs := make([]*Term, 0, len(l.ms)), make([]int64, 0, len(l.ms))
	for i, m := range l.ms {
		if l.cs[i] != 0 {
			ms = append(ms, m)
			cs = append(cs, l.cs[i])
		}
	}
	if len(ms) == 0 {
		return mkInt(l.k)
	}
	if len(ms) == 1 && l.k == 0 && cs[0] == 1 {
		return ms[0]
	}
	for i := 1; i < len(ms); i++ {
		for j := i; j > 0 && ms[j].id < ms[j-1].id; j-- {
			ms[j], ms[j-1] = ms[j-1], ms[j]
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
	return mk(OLin, "", l.k, nil, nil, cs, ms...)
}
func linAdd(a, b *Term) *Term { l := newLin(); l.add(a, 1); l.add(b, 1); return l.term() }
func linSub(a, b *Term) *Term { l := newLin(); l.add(a, 1); l.add(b, -1); return l.term() }
func linK(a *Term, k int64) *Term {
	l := newLin()
	l.add(a, 1)
	l.k += k
	return l.term()
}
func linScale(a *Term, k int64) *Term { l := newLin(); l.add(a, k); return l.term() }
func linNeg(a *Term) *Term            { return linScale(a, -1) }
func linParts(t *Term) (ms []*Term, cs []int64, k int64) {
	switch t.op {
	case OConst:
		return nil, nil, t.k
	case OLin:
		return t.args, t.coefs, t.k
	}
	return []*Term{t}, []int64{1}, 0
}
func monoMul(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OMono {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk(OMono, "", 0, nil, nil, nil, fs...)
}
func linMul(a, b *Term) *Term {
	am, ac, ak := linParts(a)
	bm, bc, bk := linParts(b)
	l := newLin()
	l.k = ak * bk
	for i, m := range am {
		if bk != 0 {
			l.addM(m, ac[i]*bk)
		}
		for j, n := range bm {
			l.addM(monoMul(m, n), ac[i]*bc[j])
		}
	}
	for j, n := range bm {
		if ak != 0 {
			l.addM(n, bc[j]*ak)
		}
	}
	return l.term()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normLin divides by gcd; for >=0 facts tightens the constant.
func normGe(t *Term) *Term {
	ms, cs, k := linParts(t)
	if len(ms) == 0 {
		return t
	}
	var g int64
	for _, c := range cs {
		g = gcd(g, c)
	}
	if g <= 1 {
		return t
	}
	l := newLin()
	for i, m := range ms {
		l.addM(m, cs[i]/g)
	}
	l.k = floorDiv(k, g)
	return l.term()
}

// mkGe0 : t >= 0
func mkGe0(t *Term) *Term {
	if t.op == OConst {
		return mkBool(t.k >= 0)
	}
	t = normGe(t)
	ms, cs, _ := linParts(t)
	// canonical orientation: represent negatively led as Not(ge0(-t-1))
	_ = ms
	if cs[0] < 0 {
		return mkNot(mk(OGe0, "", 0, nil, nil, nil, linK(linNeg(t), -1)))
	}
	return mk(OGe0, "", 0, nil, nil, nil, t)
}
func mkEq0(t *Term) *Term {
	if t.op == OConst {
		return mkBool(t.k == 0)
	}
	ms, cs, k := linParts(t)
	var g int64
	for _, c := range cs {
		g = gcd(g, c)
	}
	if g > 1 && k%g != 0 {
		return tFalse
	}
	l := newLin()
	s := int64(1)
	if cs[0] < 0 {
		s = -1
	}
	if g == 0 {
		g = 1
	}
	for i, m := range ms {
		l.addM(m, s*cs[i]/g)
	}
	l.k = s * k / g
	return mk(OEq0, "", 0, nil, nil, nil, l.term())
}
func mkNot(t *Term) *Term {
	switch t.op {
	case OBool:
		return mkBool(t.k == 0)
	case ONot:
		return t.args[0]
	}
	return mk(ONot, "", 0, nil, nil, nil, t)
}

// ---- bit vectors

func bitOf(t *Term, i int) *Term {
	return mk(OApp, "bit", int64(i), nil, nil, nil, t)
}
func isBit(t *Term) bool { return t.op == OApp && t.name == "bit" }

// toBits yields w bits of integer term t (whose source type has width sw, signed ss).
func toBits(t *Term, w int, sw int, ss bool) []*Term {
	out := make([]*Term, w)
	if t.op == OConst {
		for i := range out {
			if i < 64 && (uint64(t.k)>>uint(i))&1 == 1 {
				out[i] = bit1
			} else {
				out[i] = bit0
			}
		}
		return out
	}
	if t.op == OBits {
		for i := range out {
			if i < len(t.args) {
				out[i] = t.args[i]
			} else {
				out[i] = bit0
			}
		}
		return out
	}
	if tw, ts := termWidth(t); tw < sw && (t.op == OAtom || t.op == OApp) {
		sw, ss = tw, ts // widened from a narrower type
	}
	for i := range out {
		switch {
		case i < sw:
			out[i] = bitOf(t, i)
		case ss:
			out[i] = bitOf(t, sw-1)
		default:
			out[i] = bit0
		}
	}
	return out
}

// fromBits canonicalises a bit vector back into a term. lookup gives the
// (width,signed) of a source term so that the complete bits of an unsigned
// source fold back to the source itself.
func fromBits(bits []*Term, signed bool) *Term {
	allc := true
	var v uint64
	for i, b := range bits {
		if b.op != OConst {
			allc = false
			break
		}
		if b.k == 1 {
			v |= 1 << uint(i)
		}
	}
	if allc {
		if signed && len(bits) < 64 && len(bits) > 0 && bits[len(bits)-1] == bit1 {
			v |= ^uint64(0) << uint(len(bits))
		}
		return mkInt(int64(v))
	}
	// whole-source fold
	if isBit(bits[0]) && bits[0].k == 0 {
		src := bits[0].args[0]
		sw, ss := termWidth(src)
		ok := true
		for i, b := range bits {
			switch {
			case i < sw:
				if b != bitOf(src, i) {
					ok = false
				}
			case ss:
				if b != bitOf(src, sw-1) {
					ok = false
				}
			default:
				if b != bit0 {
					ok = false
				}
			}
		}
		if len(bits) < sw {
			ok = false
		}
		if ok && !(ss && !signed) && !(len(bits) == sw && signed != ss) {
			return src
		}
	}
	n := len(bits)
	for n > 1 && bits[n-1] == bit0 {
		n--
	}
	if signed && n < len(bits) {
		n++ // keep a zero sign bit visible
	}
	if signed && bits[len(bits)-1] != bit0 {
		n = len(bits)
		return mk(OBits, "s", int64(n), nil, nil, nil, bits[:n]...)
	}
	for n > 1 && bits[n-1] == bit0 {
		n--
	}
	return mk(OBits, "", 0, nil, nil, nil, bits[:n]...)
}

// termWidth gives the representation width of an opaque int term.
func termWidth(t *Term) (int, bool) {
	switch t.op {
	case OAtom, OApp:
		if t.typ != nil {
			return width(t.typ)
		}
	case OBits:
		return len(t.args), false
	}
	return 64, true
}

func bitAnd(a, b *Term) *Term {
	switch {
	case a == bit0 || b == bit0:
		return bit0
	case a == bit1:
		return b
	case b == bit1:
		return a
	case a == b:
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bitOf(mkApp("band", nil, a, b), 0)
}
func bitOr(a, b *Term) *Term {
	switch {
	case a == bit1 || b == bit1:
		return bit1
	case a == bit0:
		return b
	case b == bit0:
		return a
	case a == b:
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bitOf(mkApp("bor", nil, a, b), 0)
}
func bitNot(a *Term) *Term {
	switch a {
	case bit0:
		return bit1
	case bit1:
		return bit0
	}
	if isBit(a) && a.args[0].op == OApp && a.args[0].name == "bnot" {
		return a.args[0].args[0]
	}
	return bitOf(mkApp("bnot", nil, a), 0)
}
func bitXor(a, b *Term) *Term {
	switch {
	case a == bit0:
		return b
	case b == bit0:
		return a
	case a == b:
		return bit0
	case a == bit1:
		return bitNot(b)
	case b == bit1:
		return bitNot(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bitOf(mkApp("bxor", nil, a, b), 0)
}

// ---- printing

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	list := func(ts []*Term) string {
		var ss []string
		for i, a := range ts {
			if i > 12 {
				ss = append(ss, "…")
				break
			}
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		return strconv.FormatInt(t.k, 10)
	case OBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case OStr:
		return strconv.Quote(t.name)
	case ONil:
		return "nil"
	case OAtom:
		return t.name
	case OApp:
		if t.name == "bit" {
			return t.args[0].str(d+1) + "." + strconv.FormatInt(t.k, 10)
		}
		if t.name == "field" {
			return t.args[0].str(d+1) + fldName(t.args[0].typ, int(t.k))
		}
		s := t.name
		if t.k != 0 {
			s += strconv.FormatInt(t.k, 10)
		}
		return s + "(" + list(t.args) + ")"
	case OMono:
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, "*")
	case OLin:
		var sb strings.Builder
		for i, a := range t.args {
			c := t.coefs[i]
			if i > 0 || c < 0 {
				if c < 0 {
					sb.WriteString("-")
					c = -c
				} else {
					sb.WriteString("+")
				}
			}
			if c != 1 {
				fmt.Fprintf(&sb, "%d*", c)
			}
			sb.WriteString(a.str(d + 1))
		}
		if t.k != 0 {
			fmt.Fprintf(&sb, "%+d", t.k)
		}
		return sb.String()
	case OBits:
		return "bits(" + bitsStr(t.args, d) + ")"
	case OStruct:
		return "{" + list(t.args) + "}"
	case OAddr:
		var sb strings.Builder
		sb.WriteString("&" + t.args[0].str(d+1))
		for _, p := range t.args[1:] {
			if p.op == OFld {
				fmt.Fprintf(&sb, ".%d", p.k)
			} else {
				sb.WriteString("[" + p.str(d+1) + "]")
			}
		}
		return sb.String()
	case OFld:
		return fmt.Sprintf(".%d", t.k)
	case OSlice:
		return "slice(" + list(t.args) + ")"
	case OClosure:
		return fmt.Sprintf("func %v", t.ref)
	case OIface:
		return fmt.Sprintf("iface<%v>(%s)", t.ref, list(t.args))
	case OGe0:
		return t.args[0].str(d+1) + ">=0"
	case OEq0:
		return t.args[0].str(d+1) + "==0"
	case OEqv:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OCat:
		return "cat(" + list(t.args) + ")"
	case OChunk:
		return "chunk(" + list(t.args) + ")"
	case OElem:
		return t.args[0].str(d + 1)
	case OStore:
		return "store(" + list(t.args) + ")"
	}
	return "?"
}
func bitsStr(bs []*Term, d int) string {
	var ss []string
	for i := 0; i < len(bs); {
		j := i + 1
		if isBit(bs[i]) {
			for j < len(bs) && isBit(bs[j]) && bs[j].args[0] == bs[i].args[0] && bs[j].k == bs[i].k+int64(j-i) {
				j++
			}
			ss = append(ss, fmt.Sprintf("%d:%s[%d..%d]", i, bs[i].args[0].str(d+1), bs[i].k, bs[j-1].k))
		} else {
			for j < len(bs) && bs[j] == bs[i] {
				j++
			}
			ss = append(ss, fmt.Sprintf("%d:%s", i, bs[i].str(d+1)))
		}
		i = j
	}
	return strings.Join(ss, " ")
}
func fldName(t types.Type, i int) string {
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
			return "." + st.Field(i).Name()
		}
	}
	return "." + strconv.Itoa(i)
}
