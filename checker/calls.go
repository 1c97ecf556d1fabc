package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/jcorbin/anansi"

func inModule(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}
func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Pkg()
		}
	}
	return nil
}

// standard-library bodies that are analysed instead of modelled.
var inlinePkgs = map[string]bool{"image": true}

func (fr *frame) callInfo(fs *fst, c *ssa.CallCommon, site ssa.CallInstruction) *CallInfo {
	ci := &CallInfo{site: site, caller: fr.fn}
	for _, a := range c.Args {
		ci.args = append(ci.args, fr.val(fs, a))
	}
	if c.IsInvoke() {
		ci.method = c.Method
		ci.recv = fr.val(fs, c.Value)
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.clos = mkApp("builtin:"+b.Name(), nil)
		return ci
	}
	if f := c.StaticCallee(); f != nil {
		ci.fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.clos = fr.val(fs, mc)
		}
		return ci
	}
	ci.clos = fr.val(fs, c.Value)
	return ci
}

func (fr *frame) callInstr(fs *fst, in ssa.CallInstruction, c *ssa.CallCommon, v ssa.Value) []Out {
	ci := fr.callInfo(fs, c, in)
	return fr.x.call(fs.st, ci)
}

func (x *X) panicOut(st *State, why string) []Out {
	return []Out{{st: st, panicked: true, pv: mkApp("tok", nil, mkStr(why))}}
}

func (x *X) call(st *State, ci *CallInfo) []Out {
	for i, a := range ci.args {
		ci.args[i] = st.f.rw(a)
	}
	if ci.recv != nil {
		ci.recv = st.f.rw(ci.recv)
	}
	if ci.clos != nil {
		ci.clos = st.f.rw(ci.clos)
		if strings.HasPrefix(ci.clos.name, "builtin:") && ci.clos.op == OApp {
			return x.builtin(st, ci, ci.clos.name[8:])
		}
	}
	if x.h.call != nil {
		if outs, ok := x.h.call(x, st, ci); ok {
			return outs
		}
	}
	// resolve
	if ci.method != nil {
		if ci.recv.op == ONil {
			return x.panicOut(st, "nil interface call "+ci.method.Name())
		}
		if x.h.iface != nil && ci.recv.op != OIface {
			if r := x.h.iface(x, st, ci); r != nil {
				ci.recv = r
			}
		}
		if ci.recv.op == OIface {
			dt := ci.recv.ref.(types.Type)
			f := x.prog.LookupMethod(dt, ci.method.Pkg(), ci.method.Name())
			if f != nil {
				nci := *ci
				nci.fn, nci.method = f, nil
				nci.args = append([]*Term{ci.recv.args[0]}, ci.args...)
				nci.recv = nil
				return x.call(st, &nci)
			}
		}
		if outs, ok := x.model(st, ci); ok {
			return outs
		}
		return x.opaque(st, ci)
	}
	if ci.fn == nil && ci.clos != nil {
		if ci.clos.op == ONil {
			return x.panicOut(st, "nil func call")
		}
		if ci.clos.op == OClosure {
			nci := *ci
			nci.fn = ci.clos.ref.(*ssa.Function)
			return x.call(st, &nci)
		}
		return x.opaque(st, ci)
	}
	fn := ci.fn
	if outs, ok := x.model(st, ci); ok {
		return outs
	}
	pk := fnPkg(fn)
	if len(fn.Blocks) > 0 && (inModule(fn) || pk != nil && inlinePkgs[pk.Path()] || fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") || fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound")) {
		rec := 0
		for _, f := range x.stack {
			if f == fn {
				rec++
			}
		}
		if rec < x.maxRec && (x.h.noInl == nil || !x.h.noInl(fn)) {
			var binds []*Term
			if ci.clos != nil && ci.clos.op == OClosure {
				binds = ci.clos.args
			}
			return x.exec(st, fn, ci.args, binds)
		}
	}
	return x.opaque(st, ci)
}

var pureFns = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.ValidRune": true, "strings.Repeat": true, "strings.ToUpper": true,
	"unicode.IsSpace": true, "unicode.IsGraphic": true, "unicode.IsLetter": true, "unicode.IsPrint": true, "unicode.IsControl": true, "unicode.IsMark": true, "unicode.IsDigit": true,
	"(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).IsZero": true, "(time.Duration).Seconds": true,
	"math.Sqrt": true, "math.Floor": true, "math.Abs": true, "strconv.Itoa": true, "fmt.Sprint": false,
	"strings.IndexByte": true, "strings.Contains": true, "errors.Is": true,
}

// opaque models an unknown callee: unknown results; everything reachable from
// its arguments may be modified.
func (x *X) opaque(st *State, ci *CallInfo) []Out {
	nm := ci.name()
	rt := ci.resType()
	short := nm
	if i := strings.LastIndexAny(nm, "/"); i >= 0 {
		short = nm[i+1:]
	}
	if pureFns[nm] {
		tt := rt.(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, wrapT(mk(OApp, "call:"+nm, int64(i), tt.At(i).Type(), nil, nil, ci.args...)))
		}
		return []Out{{st: st, ret: rs}}
	}
	ro := readOnly(nm)
	if !ro {
		for _, a := range ci.args {
			st.havoc(a, "by:"+short, 3)
		}
		if ci.recv != nil {
			st.havoc(ci.recv, "by:"+short, 3)
		}
		if ci.clos != nil {
			st.havoc(ci.clos, "by:"+short, 3)
		}
	}
	tt := rt.(*types.Tuple)
	var rs []*Term
	for i := 0; i < tt.Len(); i++ {
		rs = append(rs, freshVal("ret:"+short, tt.At(i).Type()))
	}
	return []Out{{st: st, ret: rs}}
}

func readOnly(nm string) bool {
	for _, p := range []string{"fmt.", "log.", "errors.", "strings.", "strconv.", "time.", "(time.", "math.", "unicode", "sort.Search", "(*os.File).Fd", "(*os.File).Name", "(error).Error", "(fmt.Stringer).String", "(*log.Logger)", "(io.Writer).Write", "(*os.File).Write"} {
		if strings.HasPrefix(nm, p) {
			if strings.HasPrefix(nm, "fmt.Fscan") || strings.HasPrefix(nm, "fmt.Sscan") || strings.HasPrefix(nm, "(*time.") {
				return false
			}
			return true
		}
	}
	return false
}

func newErr(msg *Term) *Term {
	freshSeq++
	return mkApp("newerr", types.Universe.Lookup("error").Type(), mkInt(int64(freshSeq)), msg)
}

// ---- models of standard library functions

func (x *X) model(st *State, ci *CallInfo) ([]Out, bool) {
	var nm string
	if ci.fn != nil {
		nm = ci.fn.String()
	} else {
		nm = ci.method.FullName()
	}
	if m, ok := models[nm]; ok {
		return m(x, st, ci), true
	}
	if f, ok := runePreds[nm]; ok { // rune classes fold on constants
		if c := st.f.rw(ci.args[0]); c.op == OConst {
			return ret(st, mkBool(f(rune(c.k)))), true
		}
	}
	return nil, false
}

var runePreds = map[string]func(rune) bool{
	"unicode.IsGraphic": unicode.IsGraphic, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsMark": unicode.IsMark, "unicode.IsDigit": unicode.IsDigit,
	"unicode/utf8.ValidRune": utf8.ValidRune,
}

var models map[string]func(x *X, st *State, ci *CallInfo) []Out

// RuneError etc.
func decodeRuneModel(isStr bool) func(x *X, st *State, ci *CallInfo) []Out {
	return func(x *X, st *State, ci *CallInfo) []Out {
		p := ci.args[0]
		if p.op == OStr { // a known string
			r, m := utf8.DecodeRuneInString(p.name)
			return ret(st, mkInt(int64(r)), mkInt(int64(m)))
		}
		n := lenOf(p)
		var outs []Out
		at := func(s *State, k int64) *Term {
			if isStr {
				return selTerm(strContent(p), mkInt(k), types.Typ[types.Uint8], s)
			}
			sl := toSlice(p)
			if sl.args[0].op == ONil {
				return tZero
			}
			return s.load(addrPath(sl.args[0], linAdd(sl.args[1], mkInt(k))))
		}
		if pre, all := knownBytes(st, n, func(k int64) *Term { return at(st, k) }); all || utf8.FullRune(pre) {
			r, m := utf8.DecodeRune(pre)
			return ret(st, mkInt(int64(r)), mkInt(int64(m)))
		} else if k := int64(len(pre)); k > 0 && st.f.prove(linK(n, -k-1)) {
			if c := at(st, k); st.f.prove(linK(linNeg(c), 0x7F)) || st.f.prove(linK(c, -0xC0)) {
				// cut short by no continuation byte
				r, m := utf8.DecodeRune(append(pre, 'a'))
				return ret(st, mkInt(int64(r)), mkInt(int64(m)))
			}
		}
		// empty
		e := st.fork()
		if e.assume(mkEq0(n), true) {
			outs = append(outs, Out{st: e, ret: []*Term{mkInt(0xFFFD), tZero}})
		}
		// ascii
		a := st.fork()
		if a.assumeGe(linK(n, -1)) {
			b0 := at(a, 0)
			c := a.fork()
			if c.assumeGe(linK(linNeg(b0), 0x7F)) {
				outs = append(outs, Out{st: c, ret: []*Term{b0, tOne}})
			}
			if k := a.f.rw(b0); k.op == OConst && k.k >= 0xC2 && k.k <= 0xDF {
				// exact for a known two-byte introducer
				short := a.fork()
				if short.assumeGe(linK(linNeg(n), 1)) {
					outs = append(outs, Out{st: short, ret: []*Term{mkInt(0xFFFD), tOne}})
				}
				if a.assumeGe(linK(n, -2)) {
					b1 := at(a, 1)
					for _, bad := range []*Term{linK(linNeg(b1), 0x7F), linK(b1, -0xC0)} {
						if s := a.fork(); s.assumeGe(bad) {
							outs = append(outs, Out{st: s, ret: []*Term{mkInt(0xFFFD), tOne}})
						}
					}
					if a.assumeGe(linK(b1, -0x80)) && a.assumeGe(linK(linNeg(b1), 0xBF)) {
						outs = append(outs, Out{st: a, ret: []*Term{linK(b1, 64*(k.k-0xC0)-0x80), mkInt(2)}})
					}
				}
				return outs
			}
			// non-ascii: invalid single byte
			d := a.fork()
			if d.assumeGe(linK(b0, -0x80)) {
				outs = append(outs, Out{st: d.fork(), ret: []*Term{mkInt(0xFFFD), tOne}})
				// valid multi-byte
				f := d.fork()
				sz := mkApp("u8size", types.Typ[types.Int], p)
				r := mkApp("u8rune", types.Typ[types.Int32], p)
				if f.assumeGe(linSub(n, sz)) && f.assumeGe(linK(sz, -2)) && f.assumeGe(linK(linNeg(sz), 4)) && f.assumeGe(linK(b0, -0xC2)) {
					// 2-byte runes are 0x80..0x7ff
					g := f.fork()
					if g.assume(mkEq0(linK(sz, -2)), true) && g.assumeGe(linK(r, -0x80)) && g.assumeGe(linK(linNeg(r), 0x7FF)) && g.assumeGe(linK(linNeg(b0), 0xDF)) {
						// exact value for the C1 page: b0==0xC2
						h := g.fork()
						if h.assume(mkEq0(linK(b0, -0xC2)), true) {
							b1 := at(h, 1)
							if h.assumeGe(linK(b1, -0x80)) && h.assumeGe(linK(linNeg(b1), 0xBF)) {
								outs = append(outs, Out{st: h, ret: []*Term{b1, mkInt(2)}})
							}
						}
						if g.assumeGe(linK(b0, -0xC3)) && g.assumeGe(linK(r, -0xC0)) {
							outs = append(outs, Out{st: g, ret: []*Term{r, mkInt(2)}})
						}
					}
					if f.assumeGe(linK(sz, -3)) && f.assumeGe(linK(r, -0x800)) && f.assumeGe(linK(linNeg(r), 0x10FFFF)) && f.assumeGe(linK(b0, -0xE0)) {
						outs = append(outs, Out{st: f, ret: []*Term{r, sz}})
					}
				}
			}
		}
		return outs
	}
}

// knownBytes are the constants (up to four) that a byte sequence starts
// with; all tells that they are all it has, or four.
func knownBytes(st *State, n *Term, at func(k int64) *Term) (pre []byte, all bool) {
	ln, ok := st.constOf(n)
	for k := int64(0); k < 4; k++ {
		if ok && k >= ln {
			return pre, true
		}
		if !ok && !st.f.prove(linK(n, -k-1)) {
			return pre, false
		}
		c, ok := st.constOf(st.f.rw(at(k)))
		if !ok || c < 0 || c > 255 {
			return pre, false
		}
		pre = append(pre, byte(c))
	}
	return pre, true
}

func fullRuneModel(x *X, st *State, ci *CallInfo) []Out {
	p := st.f.rw(ci.args[0])
	n := lenOf(p)
	sl := toSlice(p)
	if sl.args[0].op == ONil {
		return ret(st, mkBool(false))
	}
	at := func(k int64) *Term { return st.load(addrPath(sl.args[0], linAdd(sl.args[1], mkInt(k)))) }
	if pre, all := knownBytes(st, n, at); all || utf8.FullRune(pre) {
		return ret(st, mkBool(utf8.FullRune(pre)))
	} else if k := int64(len(pre)); k > 0 && st.f.prove(linK(n, -k-1)) {
		if c := at(k); st.f.prove(linK(linNeg(c), 0x7F)) || st.f.prove(linK(c, -0xC0)) {
			return ret(st, mkBool(true))
		}
	}
	var outs []Out
	for _, v := range []bool{true, false} {
		s := st.fork()
		// nothing, or an incomplete start, is not full
		if v {
			if s.assumeGe(linK(n, -1)) {
				outs = append(outs, Out{st: s, ret: []*Term{mkBool(true)}})
			}
			continue
		}
		if !s.assumeGe(linK(linNeg(n), 3)) {
			continue
		}
		e := s.fork()
		if e.assume(mkEq0(n), true) {
			outs = append(outs, Out{st: e, ret: []*Term{mkBool(false)}})
		}
		if s.assumeGe(linK(n, -1)) && s.assumeGe(linK(at(0), -0xC2)) {
			outs = append(outs, Out{st: s, ret: []*Term{mkBool(false)}})
		}
	}
	return outs
}

func ret(st *State, vs ...*Term) []Out { return []Out{{st: st, ret: vs}} }

// bytes.Buffer: field 0 is buf, field 1 is off.
func bufFields(st *State, p *Term) (buf, off *Term) {
	return st.load(addrPath(p, mkFld(0))), st.load(addrPath(p, mkFld(1)))
}
func bufAppend(x *X, st *State, p *Term, e *Term) []Out {
	if p.op == ONil {
		return x.panicOut(st, "nil buffer")
	}
	buf, _ := bufFields(st, p)
	st.store(addrPath(p, mkFld(0)), x.appendVal(st, buf, e, arrT(types.Typ[types.Uint8])))
	return nil
}

// constBytes gives the bytes of a slice, or string, when all are known.
func (x *X) constBytes(st *State, s *Term) ([]byte, bool) {
	s = st.f.rw(s)
	if s.op == OStr {
		return []byte(s.name), true
	}
	if s.op != OSlice && s.op != ONil {
		return nil, false
	}
	es, ok := x.elems(st, s)
	if !ok {
		return nil, false
	}
	b := make([]byte, 0, len(es))
	for _, e := range es {
		k, ok := st.constOf(st.f.rw(e))
		if !ok {
			return nil, false
		}
		b = append(b, byte(k))
	}
	return b, true
}

func (x *X) elemSlice(st *State, et types.Type, els ...*Term) *Term {
	o := newObj("elems", arrT(et))
	st.setMem(o, mkStruct(arrT(et), els...))
	n := mkInt(int64(len(els)))
	return mkSlice(mkAddr(o), tZero, n, n)
}

func init() {
	byteT := types.Typ[types.Uint8]
	models = map[string]func(x *X, st *State, ci *CallInfo) []Out{
		"unicode/utf8.DecodeRune": decodeRuneModel(false),
		"unicode/utf8.FullRune":   fullRuneModel,
		"unicode/utf8.RuneCountInString": func(x *X, st *State, ci *CallInfo) []Out {
			if p := st.f.rw(ci.args[0]); p.op == OStr { // a known string
				return ret(st, mkInt(int64(utf8.RuneCountInString(p.name))))
			}
			return x.opaque(st, ci)
		},
		"unicode/utf8.DecodeRuneInString": decodeRuneModel(true),
		"strings.Repeat": func(x *X, st *State, ci *CallInfo) []Out {
			p, n := st.f.rw(ci.args[0]), st.f.rw(ci.args[1])
			if k, ok := st.constOf(n); ok && p.op == OStr && k >= 0 && k*int64(len(p.name)) < 1000 {
				return ret(st, mkStr(strings.Repeat(p.name, int(k))))
			}
			return x.opaque(st, ci)
		},
		"unicode/utf8.RuneCount": func(x *X, st *State, ci *CallInfo) []Out {
			if b, ok := x.constBytes(st, ci.args[0]); ok {
				return ret(st, mkInt(int64(utf8.RuneCount(b))))
			}
			n := mkApp("u8count", types.Typ[types.Int], x.contents(st, ci.args[0]))
			st.assumeGe(n)
			st.assumeGe(linSub(lenOf(ci.args[0]), n))
			return ret(st, n)
		},
		"unicode/utf8.DecodeLastRune": func(x *X, st *State, ci *CallInfo) []Out {
			if b, ok := x.constBytes(st, ci.args[0]); ok {
				r, m := utf8.DecodeLastRune(b)
				return ret(st, mkInt(int64(r)), mkInt(int64(m)))
			}
			n := lenOf(ci.args[0])
			var outs []Out
			a := st.fork()
			if a.assume(mkEq0(n), true) {
				outs = append(outs, ret(a, mkInt(0xFFFD), tZero)...)
			}
			if st.assumeGe(linK(n, -1)) {
				sz := mkApp("u8lastsize", types.Typ[types.Int], ci.args[0], n)
				r := mkApp("u8lastrune", types.Typ[types.Int32], ci.args[0], n)
				if st.assumeGe(linK(sz, -1)) && st.assumeGe(linK(linNeg(sz), 4)) && st.assumeGe(linSub(n, sz)) && st.assumeGe(r) && st.assumeGe(linK(linNeg(r), 0x10FFFF)) {
					outs = append(outs, ret(st, r, sz)...)
				}
			}
			return outs
		},

		"unicode/utf8.EncodeRune": func(x *X, st *State, ci *CallInfo) []Out {
			p, r := ci.args[0], ci.args[1]
			if st.f.prove(r) && st.f.prove(linK(linNeg(r), 0x7F)) {
				sl := toSlice(p)
				if sl.args[0].op != ONil {
					st.store(addrPath(sl.args[0], sl.args[1]), r)
				}
				return ret(st, tOne)
			}
			var enc []*Term
			if k, ok := st.constOf(st.f.rw(r)); ok {
				for _, b := range []byte(string(rune(k))) {
					enc = append(enc, mkInt(int64(b)))
				}
			} else if st.f.prove(linK(r, -0x80)) && st.f.prove(linK(linNeg(r), 0xBF)) {
				enc = []*Term{mkInt(0xC2), r}
			} else if st.f.prove(linK(r, -0xC0)) && st.f.prove(linK(linNeg(r), 0xFF)) {
				enc = []*Term{mkInt(0xC3), linK(r, -0x40)}
			}
			if len(enc) > 0 && toSlice(p).args[0].op == OAddr && st.f.prove(linK(lenOf(p), -int64(len(enc)))) {
				sl := toSlice(p)
				for i, b := range enc {
					st.store(addrPath(sl.args[0], linK(sl.args[1], int64(i))), b)
				}
				return ret(st, mkInt(int64(len(enc))))
			}
			n := mkApp("u8len", types.Typ[types.Int], r)
			st.assumeGe(linK(n, -1))
			st.assumeGe(linK(linNeg(n), 4))
			sl := toSlice(p)
			if sl.args[0].op == OAddr {
				enc := mkApp("u8enc", nil, r)
				b := sl.args[0]
				old, ty := st.getPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:])
				nv := mkApp("splice", nil, old, sl.args[1], enc, tZero, n)
				if len(b.args) == 1 {
					st.setMem(b.args[0], nv)
				} else {
					st.setMem(b.args[0], st.setPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:], nv))
				}
				_ = ty
			}
			return ret(st, n)
		},
		"unicode/utf8.RuneLen": func(x *X, st *State, ci *CallInfo) []Out {
			r := ci.args[0]
			if r.op == OConst {
				n := int64(-1)
				switch {
				case r.k < 0:
				case r.k < 0x80:
					n = 1
				case r.k < 0x800:
					n = 2
				case r.k >= 0xD800 && r.k <= 0xDFFF:
				case r.k < 0x10000:
					n = 3
				case r.k <= 0x10FFFF:
					n = 4
				}
				return ret(st, mkInt(n))
			}
			if st.f.prove(r) && st.f.prove(linK(linNeg(r), 0x7F)) {
				return ret(st, tOne)
			}
			n := mkApp("runelen", types.Typ[types.Int], r)
			st.assumeGe(linK(n, 1))
			st.assumeGe(linK(linNeg(n), 4))
			return ret(st, n)
		},
		"unicode/utf8.AppendRune": func(x *X, st *State, ci *CallInfo) []Out {
			return ret(st, x.appendRune(st, ci.args[0], ci.args[1]))
		},
		"errors.New": func(x *X, st *State, ci *CallInfo) []Out { return ret(st, newErr(ci.args[0])) },
		"fmt.Errorf": func(x *X, st *State, ci *CallInfo) []Out { return ret(st, newErr(ci.args[0])) },
		"strconv.AppendInt": func(x *X, st *State, ci *CallInfo) []Out {
			return ret(st, x.appendVal(st, ci.args[0], itoa(ci.args[1], ci.args[2]), arrT(byteT)))
		},
		"strconv.Itoa": func(x *X, st *State, ci *CallInfo) []Out { return ret(st, itoa(ci.args[0], mkInt(10))) },
		"strconv.FormatInt": func(x *X, st *State, ci *CallInfo) []Out {
			return ret(st, itoa(ci.args[0], ci.args[1]))
		},
		"(*bytes.Buffer).Write": func(x *X, st *State, ci *CallInfo) []Out {
			if o := bufAppend(x, st, ci.args[0], ci.args[1]); o != nil {
				return o
			}
			return ret(st, lenOf(ci.args[1]), tNil)
		},
		"(*bytes.Buffer).WriteString": func(x *X, st *State, ci *CallInfo) []Out {
			if o := bufAppend(x, st, ci.args[0], ci.args[1]); o != nil {
				return o
			}
			return ret(st, lenOf(ci.args[1]), tNil)
		},
		"(*bytes.Buffer).WriteByte": func(x *X, st *State, ci *CallInfo) []Out {
			if o := bufAppend(x, st, ci.args[0], x.elemSlice(st, byteT, ci.args[1])); o != nil {
				return o
			}
			return ret(st, tNil)
		},
		"(*bytes.Buffer).WriteRune": func(x *X, st *State, ci *CallInfo) []Out {
			buf, _ := bufFields(st, ci.args[0])
			nb := x.appendRune(st, buf, ci.args[1])
			n := linSub(lenOf(nb), lenOf(buf))
			st.store(addrPath(ci.args[0], mkFld(0)), nb)
			return ret(st, n, tNil)
		},
		"(*bytes.Buffer).Len": func(x *X, st *State, ci *CallInfo) []Out {
			if ci.args[0].op == ONil {
				return x.panicOut(st, "nil buffer")
			}
			b, o := bufFields(st, ci.args[0])
			n := linSub(lenOf(b), o)
			st.assumeGe(n)
			st.assumeGe(o)
			return ret(st, n)
		},
		"(*bytes.Buffer).Bytes": func(x *X, st *State, ci *CallInfo) []Out {
			b, o := bufFields(st, ci.args[0])
			if b.op == ONil || b.op == OSlice && b.args[0].op == ONil {
				return ret(st, tNil)
			}
			st.assumeGe(linSub(lenOf(b), o))
			st.assumeGe(o)
			b = st.f.rw(toSlice(b))
			o = st.f.rw(o)
			return ret(st, mkSlice(b.args[0], linAdd(b.args[1], o), linSub(b.args[2], o), linSub(b.args[3], o)))
		},
		"(*bytes.Buffer).Reset": func(x *X, st *State, ci *CallInfo) []Out {
			if ci.args[0].op == ONil {
				return x.panicOut(st, "nil buffer")
			}
			b, _ := bufFields(st, ci.args[0])
			if b.op == OSlice && b.args[0].op != ONil {
				st.store(addrPath(ci.args[0], mkFld(0)), mkSlice(b.args[0], b.args[1], tZero, b.args[3]))
			}
			st.store(addrPath(ci.args[0], mkFld(1)), tZero)
			return ret(st)
		},
		"(*bytes.Buffer).Next": func(x *X, st *State, ci *CallInfo) []Out {
			p, n := ci.args[0], ci.args[1]
			b, o := bufFields(st, p)
			m := linSub(lenOf(b), o)
			st.assumeGe(m)
			st.assumeGe(o)
			var outs []Out
			for k := 0; k < 2; k++ {
				s := st.fork()
				t := n
				if k == 0 {
					if !s.assumeGe(linSub(m, n)) {
						continue
					}
				} else {
					if !s.assumeGe(linK(linSub(n, m), -1)) {
						continue
					}
					t = m
				}
				sl := toSlice(b)
				var r *Term = tNil
				if sl.args[0].op != ONil {
					r = mkSlice(sl.args[0], linAdd(sl.args[1], o), t, linSub(sl.args[3], o))
				}
				s.store(addrPath(p, mkFld(1)), linAdd(o, t))
				outs = append(outs, Out{st: s, ret: []*Term{r}})
			}
			return outs
		},
		"(*bytes.Buffer).Truncate": func(x *X, st *State, ci *CallInfo) []Out {
			p, n := ci.args[0], ci.args[1]
			b, o := bufFields(st, p)
			sl := toSlice(b)
			if sl.args[0].op != ONil {
				st.store(addrPath(p, mkFld(0)), mkSlice(sl.args[0], sl.args[1], linAdd(o, n), sl.args[3]))
			}
			return ret(st)
		},
		"(*bytes.Buffer).Grow": func(x *X, st *State, ci *CallInfo) []Out { return ret(st) },
		"(*bytes.Buffer).WriteTo": func(x *X, st *State, ci *CallInfo) []Out {
			p := ci.args[0]
			b, o := bufFields(st, p)
			m := linSub(lenOf(b), o)
			st.assumeGe(m)
			st.assumeGe(o)
			sl := toSlice(b)
			var outs []Out
			// complete write
			a := st.fork()
			a.store(addrPath(p, mkFld(0)), mkSlice(sl.args[0], sl.args[1], tZero, sl.args[3]))
			a.store(addrPath(p, mkFld(1)), tZero)
			outs = append(outs, ret(a, m, tNil)...)
			// partial / failed write
			c := st.fork()
			freshSeq++
			n := mkApp("nwritten", types.Typ[types.Int], mkInt(int64(freshSeq)))
			c.assumeGe(n)
			c.assumeGe(linSub(m, n))
			e := fresh("werr", types.Universe.Lookup("error").Type())
			c.assume(mkEqv(e, tNil), false)
			c.store(addrPath(p, mkFld(1)), linAdd(o, n))
			outs = append(outs, ret(c, n, e)...)
			return outs
		},
		"(*bytes.Buffer).ReadFrom": nil,
		"(*sync.Mutex).Lock":       func(x *X, st *State, ci *CallInfo) []Out { return ret(st) },
		"(*sync.Mutex).Unlock":     func(x *X, st *State, ci *CallInfo) []Out { return ret(st) },
		"(*sync.RWMutex).Lock":     func(x *X, st *State, ci *CallInfo) []Out { return ret(st) },
		"(*sync.RWMutex).Unlock":   func(x *X, st *State, ci *CallInfo) []Out { return ret(st) },
	}
	delete(models, "(*bytes.Buffer).ReadFrom")
}

func (x *X) appendRune(st *State, s, r *Term) *Term {
	byteT := types.Typ[types.Uint8]
	if st.f.prove(r) && st.f.prove(linK(linNeg(r), 0x7F)) {
		return x.appendVal(st, s, x.elemSlice(st, byteT, r), arrT(byteT))
	}
	if r.op == OConst {
		var els []*Term
		for _, b := range []byte(string(rune(r.k))) {
			els = append(els, mkInt(int64(b)))
		}
		return x.appendVal(st, s, x.elemSlice(st, byteT, els...), arrT(byteT))
	}
	return x.appendVal(st, s, mkApp("runestr", types.Typ[types.String], r), arrT(byteT))
}

func itoa(n, base *Term) *Term {
	if n.op == OConst && base.op == OConst {
		return mkStr(strconv.FormatInt(n.k, int(base.k)))
	}
	return mkApp("itoa", types.Typ[types.String], n, base)
}

// appendVal models append(s, e...): a fresh backing object holding the
// concatenation.
func (x *X) appendVal(st *State, s, e *Term, typ types.Type) *Term {
	s, e = st.f.rw(s), st.f.rw(e)
	ne := lenOf(e)
	if ne == tZero {
		return s
	}
	cs, ce := x.sliceContent(st, s), x.sliceContent(st, e)
	c := mkCat([]*Term{cs, ce})
	et := elemType(typ)
	o := newObj("append", arrT(et))
	st.setMem(o, c)
	n := linAdd(lenOf(s), ne)
	freshSeq++
	cp := mkAtom(fmt.Sprintf("cap#%d", freshSeq), types.Typ[types.Int])
	st.assumeGe(linSub(cp, n))
	return mkSlice(mkAddr(o), tZero, n, cp)
}

// appendAlias models append exactly: in place when the capacity suffices
// (overwriting whatever else shares the backing array), fresh otherwise.
func (x *X) appendAlias(st *State, s, e *Term, typ types.Type) []Out {
	s, e = st.f.rw(s), st.f.rw(e)
	if s.op == OAtom || s.op == OApp {
		s = toSlice(s)
	}
	ne := lenOf(e)
	if ne == tZero {
		return ret(st, s)
	}
	if s.op != OSlice || s.args[0].op != OAddr || len(s.args[0].args) != 1 {
		if s.op == OSlice && s.args[0].op == OAddr {
			x.fail("append into a nested array")
		}
		return ret(st, x.appendVal(st, s, e, typ))
	}
	room := linSub(linSub(s.args[3], s.args[2]), ne)
	var outs []Out
	if st.f.decide(mkEq0(ne)) != 0 {
		z := st.fork()
		if z.assume(mkEq0(ne), true) {
			outs = append(outs, Out{st: z, ret: []*Term{z.f.rw(s)}})
		}
		st = st.fork()
		if !st.assumeGe(linK(ne, -1)) {
			return outs
		}
	}
	fr := st.fork()
	if fr.assumeGe(linK(linNeg(room), -1)) {
		outs = append(outs, Out{st: fr, ret: []*Term{x.appendVal(fr, s, e, typ)}})
	}
	in := st.fork()
	if in.assumeGe(room) {
		in.note("append writes into spare capacity of %v", s.args[0])
		s, e := in.f.rw(s), in.f.rw(e)
		o := s.args[0].args[0]
		old := in.content(o)
		end := linAdd(s.args[1], s.args[2])
		parts := []*Term{mkChunk(old, tZero, end), x.sliceContent(in, e)}
		var olen *Term
		switch old.op {
		case OCat:
			olen = catLen(old)
		case OStruct:
			olen = mkInt(int64(len(old.args)))
		default:
			olen = nil
		}
		ne := lenOf(e)
		if olen == nil {
			// what lies beyond is unknown
		} else if rest := linSub(olen, linAdd(end, ne)); in.f.prove(rest) {
			parts = append(parts, mkChunk(old, linAdd(end, ne), rest))
		} else if !in.f.prove(linNeg(rest)) {
			x.fail("append over a buffer of unknown extent")
		}
		in.setMem(o, mkCat(parts))
		outs = append(outs, Out{st: in, ret: []*Term{mkSlice(s.args[0], s.args[1], linAdd(s.args[2], ne), s.args[3])}})
	}
	return outs
}

func (x *X) builtin(st *State, ci *CallInfo, nm string) []Out {
	a := ci.args
	switch nm {
	case "len":
		v := a[0]
		if v.op == OAddr {
			if at, ok := ci.site.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
				return ret(st, mkInt(at.Elem().Underlying().(*types.Array).Len()))
			}
		}
		switch ci.site.Common().Args[0].Type().Underlying().(type) {
		case *types.Map, *types.Chan:
			if x.h.chlen != nil {
				if v := st.f.rw(v); v == tNil {
					return ret(st, tZero)
				} else if n := x.h.chlen(x, st, v); n != nil {
					return ret(st, n)
				}
			}
			freshSeq++
			n := mkApp("len", types.Typ[types.Int], v, mkInt(int64(freshSeq)))
			return ret(st, n)
		}
		return ret(st, lenOf(v))
	case "cap":
		if v := st.f.rw(a[0]); v.op == OApp && v.name == "chan" {
			return ret(st, v.args[1])
		}
		return ret(st, capOf(a[0]))
	case "append":
		if x.h.appnd != nil {
			x.h.appnd(x, st, ci.caller, ci.site, a[0], a[1])
		}
		if x.aliasAppend {
			return x.appendAlias(st, a[0], a[1], ci.site.Common().Args[0].Type())
		}
		return ret(st, x.appendVal(st, a[0], a[1], ci.site.Common().Args[0].Type()))
	case "copy":
		dst, src := a[0], a[1]
		nd, ns := lenOf(dst), lenOf(src)
		var outs []Out
		for k := 0; k < 2; k++ {
			s := st.fork()
			n := nd
			if k == 0 {
				if !s.assumeGe(linSub(ns, nd)) {
					continue
				}
			} else {
				n = ns
				if !s.assumeGe(linK(linSub(nd, ns), -1)) {
					continue
				}
			}
			x.copyInto(s, s.f.rw(dst), s.f.rw(src), s.f.rw(n))
			outs = append(outs, Out{st: s, ret: []*Term{n}})
		}
		return outs
	case "panic":
		return []Out{{st: st, panicked: true, pv: a[0]}}
	case "recover":
		p := st.g("$panic")
		if p == nil || p.op == ONil {
			return ret(st, tNil)
		}
		st.setG("$panic", tNil)
		if p.op == OIface || p.op == OApp && p.name == "tok" || nonNilTerm(p) {
			return ret(st, p)
		}
		st.assume(mkEqv(p, tNil), false)
		return ret(st, p)
	case "close":
		if x.h.chanop != nil {
			x.h.chanop(x, st, ci.caller, ci.site, "close", a[0], nil)
		}
		return ret(st)
	case "delete":
		st.setMem(a[0], fresh("mapdel", nil))
		return ret(st)
	case "print", "println":
		return ret(st)
	case "min", "max":
		if isIntType(ci.site.Common().Args[0].Type()) {
			outs := []Out{{st: st, ret: []*Term{a[0]}}}
			for _, b := range a[1:] {
				var next []Out
				for _, o := range outs {
					for k := 0; k < 2; k++ {
						s := o.st.fork()
						p, q := o.ret[0], b
						if k == 1 {
							p, q = q, p
						}
						// p is the winner
						d := linSub(q, p)
						if nm == "max" {
							d = linSub(p, q)
						}
						if k == 1 {
							d = linK(d, -1)
						}
						if s.assumeGe(d) {
							next = append(next, Out{st: s, ret: []*Term{p}})
						}
					}
				}
				outs = next
			}
			return outs
		}
		return ret(st, mkApp(nm, ci.resType(), a...))
	case "clear":
		st.havoc(a[0], "clear", 1)
		return ret(st)
	case "ssa:wrapnilchk":
		if a[0].op == ONil {
			return x.panicOut(st, "nil receiver")
		}
		return ret(st, a[0])
	}
	x.fail("builtin %s", nm)
	return nil
}

func (x *X) copyInto(st *State, dst, src, n *Term) {
	if n == tZero {
		return
	}
	dst = toSlice(dst)
	if dst.args[0].op != OAddr {
		return
	}
	var c, so *Term
	if src.op == OSlice {
		if src.args[0].op != OAddr {
			return
		}
		b := src.args[0]
		c, _ = st.getPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:])
		so = src.args[1]
	} else {
		c, so = strContent(src), tZero
	}
	b := dst.args[0]
	old, _ := st.getPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:])
	nv := old
	if n.op == OConst && n.k <= 64 {
		et := elemType(contentType(b.args[0]))
		if len(b.args) > 1 {
			_, ty := st.getPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:])
			et = elemType(ty)
		}
		vals := make([]*Term, n.k)
		for i := range vals {
			vals[i] = selTerm(c, linK(so, int64(i)), et, st)
		}
		for i := range vals {
			nv = mkStore(nv, linK(dst.args[1], int64(i)), vals[i])
		}
	} else {
		nv = mkApp("splice", nil, old, dst.args[1], c, so, n)
	}
	if len(b.args) == 1 {
		st.setMem(b.args[0], nv)
	} else {
		st.setMem(b.args[0], st.setPath(st.content(b.args[0]), contentType(b.args[0]), b.args[1:], nv))
	}
}

var _ = token.NoPos
