package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { clients["C30"] = c30 }

// the numbers term.h gives to the string capabilities that have a name here
var tiKeyCaps = map[string]int64{
	"KeyF1": 66, "KeyF2": 68, "KeyF3": 69, "KeyF4": 70, "KeyF5": 71, "KeyF6": 72, "KeyF7": 73, "KeyF8": 74, "KeyF9": 75,
	"KeyF10": 67, "KeyF11": 216, "KeyF12": 217, "KeyInsert": 77, "KeyDelete": 59, "KeyHome": 76, "KeyEnd": 164,
	"KeyPageUp": 82, "KeyPageDown": 81, "KeyUp": 87, "KeyDown": 61, "KeyLeft": 79, "KeyRight": 83,
}
var tiFuncCaps = map[string]int64{
	"FuncEnterCA": 28, "FuncExitCA": 40, "FuncShowCursor": 16, "FuncHideCursor": 13, "FuncClearScreen": 5, "FuncSGR0": 39,
	"FuncUnderline": 36, "FuncBold": 27, "FuncBlink": 26, "FuncReverse": 34, "FuncEnterKeypad": 89, "FuncExitKeypad": 88,
}

const tiMouseOn, tiMouseOff = "\x1b[?1000h\x1b[?1002h\x1b[?1015h\x1b[?1006h", "\x1b[?1006l\x1b[?1015l\x1b[?1002l\x1b[?1000l"

// what ncurses' database has for these terminals
var tiKeyNames = strings.Fields("F1 F2 F3 F4 F5 F6 F7 F8 F9 F10 F11 F12 Insert Delete Home End PageUp PageDown Up Down Left Right")
var tiFuncNames = strings.Fields("EnterCA ExitCA ShowCursor HideCursor ClearScreen SGR0 Underline Bold Blink Reverse EnterKeypad ExitKeypad EnterMouse ExitMouse")

const (
	tiRxvtKeys = `^[11~ ^[12~ ^[13~ ^[14~ ^[15~ ^[17~ ^[18~ ^[19~ ^[20~ ^[21~ ^[23~ ^[24~ ^[2~ ^[3~ ^[7~ ^[8~ ^[5~ ^[6~ ^[A ^[B ^[D ^[C`
	tiMouse    = ` ^[?1000h^[?1002h^[?1015h^[?1006h ^[?1006l^[?1015l^[?1002l^[?1000l`
	tiRxvtFunc = `^7^[?47h ^[2J^[?47l^8 ^[?25h ^[?25l ^[H^[2J ^[m% ^[4m ^[1m ^[5m ^[7m `
)

var tiBuiltin = map[string][2]string{
	"Eterm":         {tiRxvtKeys, tiRxvtFunc + `- - - -`},
	"rxvt-256color": {tiRxvtKeys, tiRxvtFunc + `^= ^>` + tiMouse},
	"rxvt-unicode":  {tiRxvtKeys, `^[?1049h ^[r^[?1049l ^[?25h ^[?25l ^[H^[2J ^[m^(B ^[4m ^[1m ^[5m ^[7m ^= ^>` + tiMouse},
	"linux": {`^[[A ^[[B ^[[C ^[[D ^[[E ^[17~ ^[18~ ^[19~ ^[20~ ^[21~ ^[23~ ^[24~ ^[2~ ^[3~ ^[1~ ^[4~ ^[5~ ^[6~ ^[A ^[B ^[D ^[C`,
		`- - ^[?25h^[?0c ^[?25l^[?1c ^[H^[J ^[0;10m ^[4m ^[1m ^[5m ^[7m - - - -`},
	"screen": {`^OP ^OQ ^OR ^OS ^[15~ ^[17~ ^[18~ ^[19~ ^[20~ ^[21~ ^[23~ ^[24~ ^[2~ ^[3~ ^[1~ ^[4~ ^[5~ ^[6~ ^OA ^OB ^OD ^OC`,
		`^[?1049h ^[?1049l ^[34h^[?25h ^[?25l ^[H^[J ^[m% ^[4m ^[1m ^[5m ^[7m ^[?1h^= ^[?1l^>` + tiMouse},
	"xterm": {`^OP ^OQ ^OR ^OS ^[15~ ^[17~ ^[18~ ^[19~ ^[20~ ^[21~ ^[23~ ^[24~ ^[2~ ^[3~ ^OH ^OF ^[5~ ^[6~ ^OA ^OB ^OD ^OC`,
		`^[?1049h ^[?1049l ^[?12l^[?25h ^[?25l ^[H^[2J ^(B^[m ^[4m ^[1m ^[5m ^[7m ^[?1h^= ^[?1l^>` + tiMouse},
}

func tiText(s string) string {
	if s == "-" {
		return ""
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "^", "\x1b"), "%", "\x0f")
}

// c30: descriptions of terminals.
func c30(r *Run) {
	w := r.w
	r.rule("read", "a compiled entry, whatever the sizes of its sections, is read as: for each key and function, the string of the capability that term.h numbers so, up to its NUL, or nothing if the entry has none", 100)
	r.rule("malformed", "what is no entry, is cut short or cannot be read is an error", 4)
	r.rule("mouse", "the functions for the mouse switch it on and off, in every description read", 2)
	r.rule("search", "the directories searched are those of terminfo(5), in its order", 6)
	r.rule("load", "loading a terminal takes the first entry in the search path that can be read, or else a builtin; what was loaded is given again", 10)
	r.rule("unknown", "a name that is empty or known nowhere is an error", 3)
	r.rule("builtin", "a builtin is that terminal's description, and stands in for terminals compatible with it", 30)
	r.rule("map", "the maps of keys and functions have each under its own name", 36)
	tiT := w.typ("terminfo", "Terminfo")
	readFrom := w.methodOf(tiT, "ReadFrom")
	load, search, getB := w.fn("terminfo", "Load"), w.fn("terminfo", "SearchPath"), w.fn("terminfo", "GetBuiltin")
	fKeys, fFuncs := fieldIdx(tiT, "Keys"), fieldIdx(tiT, "Funcs")
	strT := types.Typ[types.String]
	u16 := types.Typ[types.Uint16]
	str := func(st *State, o *Term, f int, name string) *Term {
		return st.f.rw(st.load(addrPath(o, mkFld(f), mkInt(w.constInt("terminfo", name)))))
	}
	eofObj := globalObj(w.prog.ImportedPackage("io").Var("EOF"))
	eof := tok("EOF")
	text := func(st *State, v *Term) string {
		if v.op == OStr {
			return v.name
		}
		return v.String()
	}

	// reading an entry
	type scene struct {
		name    string
		odd     bool  // size of names and booleans
		magic   int64 // 0: right
		chunk   int64 // bytes given by each read at most
		count   int64 // number of strings the entry has
		absent  int64 // value of every third string's offset, if not 0
		fail    int64 // operation that fails, from 1
		cut     bool  // the last string is not ended
		longest int64
	}
	run := func(s scene) {
		r.analyse("read: "+s.name, func(x *X) {
			x.precise, x.noMerge = true, true
			x.unrollSt = 100000
			st := newState()
			st.setMem(eofObj, eof)
			rs := tok("entry")
			hdr := make([]*Term, 6)
			for i := range hdr {
				hdr[i] = mkAtom(fmt.Sprint("header", i), types.Typ[types.Int16])
				st.assumeGe(hdr[i])
				st.assumeGe(linK(linNeg(hdr[i]), 1000))
			}
			hdr[0] = mkInt(0432)
			if s.magic != 0 {
				hdr[0] = mkInt(s.magic)
			}
			// the names section is of an even or odd size
			h := mkAtom("names", types.Typ[types.Int16])
			st.assumeGe(h)
			st.assumeGe(linK(linNeg(h), 400))
			hdr[1] = linScale(h, 2)
			b := mkAtom("bools", types.Typ[types.Int16])
			st.assumeGe(b)
			st.assumeGe(linK(linNeg(b), 400))
			hdr[2] = linScale(b, 2)
			pad := int64(0)
			if s.odd {
				hdr[1] = linK(hdr[1], 1)
				pad = 1
			}
			hdr[4] = mkInt(s.count)
			strOff := linK(linAdd(linAdd(hdr[1], hdr[2]), linScale(hdr[3], 2)), 12+pad)
			table := linK(strOff, 2*s.count)
			index := func(c int64) *Term {
				if s.absent != 0 && c%3 == 0 {
					return mkInt(s.absent)
				}
				return mkAtom(fmt.Sprint("offset", c), u16)
			}
			has := func(c int64) bool { return c < s.count && (s.absent == 0 || c%3 != 0) }
			size := func(c int64) int64 { return (c*7 + 3) % (s.longest + 1) }
			byteOf := func(c, i int64) *Term {
				if i == size(c) {
					return tZero
				}
				return mkInt(1 + (c*5+i*11)%250)
			}
			for c := int64(0); c < s.count; c++ {
				if has(c) {
					st.assumeGe(index(c))
					st.assumeGe(linK(linNeg(index(c)), 4096))
				}
			}
			want := func(c int64) string {
				if !has(c) {
					return ""
				}
				var sb []byte
				for i := int64(0); i < size(c); i++ {
					k, _ := st.constOf(byteOf(c, i))
					sb = append(sb, byte(k))
				}
				return string(sb)
			}
			// read16 gives the value of the 16 bits at an offset
			at16 := func(st *State, off *Term) *Term {
				for i := int64(0); i < 6; i++ {
					if st.eq(off, mkInt(2*i)) {
						return hdr[i]
					}
				}
				for c := int64(0); c < s.count; c++ {
					if st.eq(off, linK(strOff, 2*c)) {
						return index(c)
					}
				}
				return nil
			}
			failing := func(st *State) bool {
				n := linK(st.gInt("ops"), 1)
				st.setG("ops", n)
				if st.eq(n, mkInt(s.fail)) {
					st.setG("failed", tOne)
					return true
				}
				return false
			}
			bad := tok("read failed")
			x.h.typeOK = func(x *X, st *State, in *ssa.TypeAssert, v *Term) int {
				if v.op == OApp && v.name == "tok" {
					return 0
				}
				return -1
			}
			byteAt := func(st *State, off *Term) *Term {
				for c := int64(0); c < s.count; c++ {
					if !has(c) {
						continue
					}
					d, ok := st.constOf(st.f.rw(linSub(off, linAdd(table, index(c)))))
					if ok && d >= 0 && d <= size(c) {
						if s.cut && d == size(c) {
							return nil
						}
						return byteOf(c, d)
					}
					if ok && d > size(c) && d < size(c)+16 {
						return mkInt(200) // of what follows
					}
				}
				if d, ok := st.constOf(off); ok && d < 12 {
					return fromBits(toBits(at16(st, mkInt(d&^1)), 16, 16, false)[8*(d&1):8*(d&1)+8], false)
				}
				for c := int64(0); c < s.count; c++ {
					if d, ok := st.constOf(st.f.rw(linSub(off, linK(strOff, 2*c)))); ok && (d == 0 || d == 1) {
						return fromBits(toBits(index(c), 16, 16, false)[8*d:8*d+8], false)
					}
				}
				return mkInt(-1)
			}
			astray := func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				rule := "read"
				if st.gInt("failed") == tOne || s.magic != 0 || s.cut {
					rule = "malformed"
				}
				x.check(st, rule, s.name+": reads what it needs", false, ci.site.Pos(), "reads where no part of the entry starts, at %v", st.gInt("pos"))
				return []Out{{st: st, panicked: true, pv: mkStr("stop")}}, true
			}
			x.h.call = func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
				nm := ci.name()
				switch {
				case nm == "encoding/binary.Read":
					if ci.args[0] != rs && unIface(ci.args[0]) != rs {
						x.fail("reads from %v", ci.args[0])
					}
					if T, ok := ci.args[1].ref.(types.Type); !ok || !strings.HasSuffix(T.String(), "littleEndian") {
						x.check(st, "read", s.name+": order", false, ci.site.Pos(), "reads in the byte order of %v", ci.args[1])
					}
					if failing(st) {
						return ret(st, bad), true
					}
					v := ci.args[2]
					T, ok := v.ref.(types.Type)
					if v.op != OIface || !ok {
						x.fail("reads into %v", v)
					}
					pos := st.gInt("pos")
					switch T := T.Underlying().(type) {
					case *types.Pointer:
						if b, ok := T.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint16 || b.Kind() == types.Int16) {
							k := at16(st, pos)
							if k == nil {
								return astray(x, st, ci)
							}
							st.store(v.args[0], k)
							st.setG("pos", linK(pos, 2))
							return ret(st, tNil), true
						}
						if a, ok := T.Elem().Underlying().(*types.Array); ok {
							for i := int64(0); i < a.Len(); i++ {
								k := at16(st, linK(pos, 2*i))
								if k == nil {
									return astray(x, st, ci)
								}
								st.store(addrPath(v.args[0], mkInt(i)), k)
							}
							st.setG("pos", linK(pos, 2*a.Len()))
							return ret(st, tNil), true
						}
					case *types.Slice:
						sl := st.f.rw(toSlice(v.args[0]))
						n, ok := st.constOf(sl.args[2])
						if ok {
							for i := int64(0); i < n; i++ {
								k := at16(st, linK(pos, 2*i))
								if k == nil {
									return astray(x, st, ci)
								}
								st.store(addrPath(sl.args[0], linK(sl.args[1], i)), k)
							}
							st.setG("pos", linK(pos, 2*n))
							return ret(st, tNil), true
						}
					}
					x.fail("reads into %v", T)
				case ci.method != nil && ci.recv == rs && ci.method.Name() == "Seek":
					if failing(st) {
						return ret(st, tZero, bad), true
					}
					wh, ok := st.constOf(st.f.rw(ci.args[1]))
					if !ok || wh > 1 {
						x.fail("seeks from %v", ci.args[1])
					}
					p := st.f.rw(ci.args[0])
					if wh == 1 {
						p = linAdd(st.gInt("pos"), p)
					}
					st.setG("pos", p)
					return ret(st, p, tNil), true
				case ci.method != nil && ci.recv == rs && ci.method.Name() == "Read":
					if failing(st) {
						return ret(st, tZero, bad), true
					}
					sl := st.f.rw(toSlice(ci.args[0]))
					n, ok := st.constOf(sl.args[2])
					if !ok {
						x.fail("reads %v bytes", sl.args[2])
					}
					if n > s.chunk {
						n = s.chunk
					}
					pos := st.gInt("pos")
					i := int64(0)
					for ; i < n; i++ {
						b := byteAt(st, linK(pos, i))
						if b == nil {
							break
						}
						if b == mkInt(-1) && i > 0 {
							b = mkInt(201)
						}
						if b == mkInt(-1) {
							return astray(x, st, ci)
						}
						st.store(addrPath(sl.args[0], linK(sl.args[1], i)), b)
					}
					if i == 0 && n > 0 {
						return ret(st, tZero, eof), true
					}
					st.setG("pos", linK(pos, i))
					return ret(st, mkInt(i), tNil), true
				}
				return nil, false
			}
			o0 := x.objWith(st, "info", tiT, zeroVal(tiT))
			outs := x.exec(st, readFrom, []*Term{o0, rs}, nil)
			if len(outs) == 0 {
				x.fail("no outcome")
			}
			for _, o := range outs {
				st := o.st
				if o.panicked && o.pv == mkStr("stop") {
					continue
				}
				if o.panicked {
					x.check(st, "read", s.name, false, readFrom.Pos(), "panics with %v", o.pv)
					continue
				}
				ok := st.isTrue(mkEqv(o.ret[0], tNil))
				if s.magic != 0 || s.cut || st.gInt("failed") == tOne {
					x.check(st, "malformed", s.name, !ok, readFrom.Pos(), "is read without an error")
					continue
				}
				if s.fail != 0 {
					st.setG("failed", tZero)
					r.notes = append(r.notes, fmt.Sprintf("%s: only %v operations", s.name, st.gInt("ops")))
					continue
				}
				x.check(st, "read", s.name+": succeeds", ok, readFrom.Pos(), "gives the error %v", o.ret[0])
				if !ok {
					continue
				}
				for _, g := range []struct {
					f    int
					caps map[string]int64
				}{{fKeys, tiKeyCaps}, {fFuncs, tiFuncCaps}} {
					for _, n := range sortedKeys(g.caps) {
						got := str(st, o0, g.f, n)
						x.check(st, "read", s.name+": "+n, st.eq(got, mkStr(want(g.caps[n]))), readFrom.Pos(), "is %q, want %q", text(st, got), want(g.caps[n]))
					}
				}
				for n, v := range map[string]string{"FuncEnterMouse": tiMouseOn, "FuncExitMouse": tiMouseOff} {
					got := str(st, o0, fFuncs, n)
					x.check(st, "mouse", s.name+": "+n, st.eq(got, mkStr(v)), readFrom.Pos(), "is %q, want %q", text(st, got), v)
				}
			}
		})
	}
	scenes := []scene{
		{name: "full", chunk: 8, count: 414, longest: 12},
		{name: "odd", odd: true, chunk: 8, count: 414, longest: 12},
		{name: "short reads", odd: true, chunk: 3, count: 400, longest: 20},
		{name: "long reads", chunk: 64, count: 400, longest: 9},
		{name: "absent", chunk: 8, count: 414, longest: 9, absent: 0xffff},
		{name: "cancelled", odd: true, chunk: 8, count: 414, longest: 9, absent: 0xfffe},
		{name: "few", chunk: 8, count: 70, longest: 9},
		{name: "fewer", odd: true, chunk: 8, count: 30, longest: 9, absent: 0xffff},
		{name: "none", chunk: 8, count: 0, longest: 9},
		{name: "218", chunk: 8, count: 218, longest: 8},
		{name: "217", chunk: 8, count: 217, longest: 8},
		{name: "magic", magic: 0433, chunk: 8, count: 414, longest: 9},
		{name: "swapped magic", magic: 0x1a01, chunk: 8, count: 414, longest: 9},
		{name: "cut short", cut: true, chunk: 8, count: 414, longest: 9},
	}
	fails := []int64{1, 2, 3, 4, 5, 40, 90, 95, 96, 97, 98, 99, 100, 101, 110}
	if r.tier != "quick" {
		fails = nil
		for i := int64(1); i < 150; i++ {
			fails = append(fails, i)
		}
		for _, l := range []int64{0, 1, 7, 8, 15, 16, 17, 31} {
			for _, c := range []int64{1, 2, 7, 8} {
				scenes = append(scenes, scene{name: fmt.Sprintf("strings of up to %d, %d at once", l, c), chunk: c, count: 414, longest: l})
			}
		}
		for c := int64(1); c < 230; c++ {
			scenes = append(scenes, scene{name: fmt.Sprintf("%d strings", c), odd: c%2 == 0, chunk: 8, count: c, longest: 9, absent: []int64{0, 0xffff}[c/2%2]})
		}
	}
	for _, f := range fails {
		scenes = append(scenes, scene{name: fmt.Sprint("failing operation ", f), chunk: 8, count: 414, longest: 9, fail: f})
	}
	for _, s := range scenes {
		run(s)
	}

	// searching
	type env struct {
		vars map[string]string
		home string
		file map[string]string // "" good, else bad
		open []string
	}
	baseHook := func(e *env) func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
		osFile := types.NewPointer(w.prog.ImportedPackage("os").Type("File").Type())
		return func(x *X, st *State, ci *CallInfo) ([]Out, bool) {
			arg := func(i int) string {
				v := st.f.rw(ci.args[i])
				if v.op != OStr {
					x.fail("%s of %v", ci.name(), v)
				}
				return v.name
			}
			switch nm := ci.name(); nm {
			case "os.Getenv":
				return ret(st, mkStr(e.vars[arg(0)])), true
			case "os.LookupEnv":
				v, ok := e.vars[arg(0)]
				return ret(st, mkStr(v), mkBool(ok)), true
			case "os/user.Current":
				T := ci.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
				if e.home == "" {
					return ret(st, tNil, newErr(mkStr("no user"))), true
				}
				return ret(st, x.objWith(st, "user", T, withF(T, zeroVal(T), fieldIdx(T, "HomeDir"), mkStr(e.home))), tNil), true
			case "os.UserHomeDir":
				if e.home == "" {
					return ret(st, mkStr(""), newErr(mkStr("no user"))), true
				}
				return ret(st, mkStr(e.home), tNil), true
			case "path/filepath.Join":
				els, ok := x.elems(st, ci.args[0])
				if !ok {
					x.fail("joins %v", ci.args[0])
				}
				var ps []string
				for _, v := range els {
					v = st.f.rw(v)
					if v.op != OStr {
						x.fail("joins %v", v)
					}
					ps = append(ps, v.name)
				}
				return ret(st, mkStr(path.Join(ps...))), true
			case "encoding/hex.EncodeToString":
				bs, ok := x.constBytes(st, ci.args[0])
				if !ok {
					x.fail("encodes %v", ci.args[0])
				}
				return ret(st, mkStr(fmt.Sprintf("%x", bs))), true
			case "strings.Split":
				var els []*Term
				for _, s := range strings.Split(arg(0), arg(1)) {
					els = append(els, mkStr(s))
				}
				return ret(st, x.elemSlice(st, strT, els...)), true
			case "strings.Count":
				return ret(st, mkInt(int64(strings.Count(arg(0), arg(1))))), true
			case "strings.Contains":
				return ret(st, mkBool(strings.Contains(arg(0), arg(1)))), true
			case "strings.HasPrefix":
				return ret(st, mkBool(strings.HasPrefix(arg(0), arg(1)))), true
			case "os.Open", "os.OpenFile":
				if _, ok := e.file[arg(0)]; !ok {
					return ret(st, tNil, newErr(mkStr("no such file"))), true
				}
				st.setG("opened", linK(st.gInt("opened"), 1))
				o := tok("file " + arg(0))
				return ret(st, o, tNil), true
			case "(*os.File).Close":
				st.setG("closed", linK(st.gInt("closed"), 1))
				return ret(st, tNil), true
			case "(*terminfo.Terminfo).ReadFrom", "(*github.com/jcorbin/anansi/terminfo.Terminfo).ReadFrom":
				f := unIface(ci.args[1])
				if f.op != OApp || f.name != "tok" || !strings.HasPrefix(f.args[0].name, "file ") {
					x.fail("reads from %v", f)
				}
				nm := f.args[0].name[5:]
				st.store(addrPath(ci.args[0], mkFld(fieldIdx(tiT, "Name"))), mkStr("read "+nm))
				if e.file[nm] != "" {
					return ret(st, newErr(mkStr("malformed"))), true
				}
				return ret(st, tNil), true
			}
			_ = osFile
			return nil, false
		}
	}
	prep := func(x *X, e *env) *State {
		x.precise, x.noMerge = true, true
		x.unrollSt = 4000
		x.h.call = baseHook(e)
		st := newState()
		w.setInit(st, w.spkg[w.pkgPath("terminfo")])
		return st
	}
	const std = "/usr/share/terminfo"
	for _, c := range []struct {
		terminfo, dirs, home string
		want                 []string
	}{
		{"", "", "/home/u", []string{"/home/u/.terminfo", std}},
		{"", "", "", []string{std}},
		{"/t", "", "/home/u", []string{"/t"}},
		{"/t", "/a:/b", "/home/u", []string{"/t"}},
		{"", "/a", "/home/u", []string{"/home/u/.terminfo", "/a", std}},
		{"", "/a:/b:/c", "/h", []string{"/h/.terminfo", "/a", "/b", "/c", std}},
		{"", "/a::/b", "/h", []string{"/h/.terminfo", "/a", std, "/b"}},
		{"", ":/a", "", []string{std, "/a"}},
		{"", "/a:", "/h", []string{"/h/.terminfo", "/a", std}},
	} {
		c := c
		nm := fmt.Sprintf("TERMINFO=%q TERMINFO_DIRS=%q home %q", c.terminfo, c.dirs, c.home)
		r.analyse("search: "+nm, func(x *X) {
			e := &env{vars: map[string]string{}, home: c.home}
			if c.terminfo != "" {
				e.vars["TERMINFO"] = c.terminfo
			}
			if c.dirs != "" {
				e.vars["TERMINFO_DIRS"] = c.dirs
			}
			st := prep(x, e)
			for _, o := range x.exec(st, search, nil, nil) {
				if o.panicked {
					x.check(o.st, "search", nm, false, search.Pos(), "panics with %v", o.pv)
					continue
				}
				els, ok := x.elems(o.st, o.ret[0])
				if !ok {
					x.fail("unknown result %v", o.ret[0])
				}
				var got []string
				for _, v := range els {
					got = append(got, text(o.st, o.st.f.rw(v)))
				}
				x.check(o.st, "search", nm, strings.Join(got, " ") == strings.Join(c.want, " "), search.Pos(), "searches %v, want %v", got, c.want)
			}
		})
	}

	// name gives the name of what a call gave: "" for an error
	name := func(x *X, o Out) string {
		if o.panicked {
			return fmt.Sprintf("panic %v", o.pv)
		}
		if !o.st.isTrue(mkEqv(o.ret[1], tNil)) {
			return ""
		}
		p := o.st.f.rw(o.ret[0])
		if o.st.isTrue(mkEqv(p, tNil)) {
			return "nil"
		}
		return text(o.st, o.st.f.rw(o.st.load(addrPath(p, mkFld(fieldIdx(tiT, "Name"))))))
	}
	for _, c := range []struct {
		term  string
		files string // those with a ! are malformed
		want  string
	}{
		{"xterm", "/a/x/xterm", "read /a/x/xterm"},
		{"xterm", "/a/78/xterm /usr/share/terminfo/x/xterm", "read /a/78/xterm"},
		{"xterm", "/a/x/xterm /a/78/xterm /b/x/xterm", "read /a/x/xterm"},
		{"xterm", "/b/x/xterm", "read /b/x/xterm"},
		{"xterm", "/h/.terminfo/x/xterm /a/x/xterm", "read /h/.terminfo/x/xterm"},
		{"foo", std + "/f/foo /a/x/xterm", "read " + std + "/f/foo"},
		{"foo", std + "/66/foo", "read " + std + "/66/foo"},
		{"xterm", "", "xterm"},
		{"xterm", "/a/x/linux /a/x/xterm-256color", "xterm"},
		{"xterm", "!/a/x/xterm", "xterm"},
		{"xterm", "!/a/x/xterm !/b/x/xterm " + std + "/x/xterm", "read " + std + "/x/xterm"},
		{"foo", "!/a/f/foo", ""},
		{"foo", "", ""},
		{"", "", ""},
		{"", "/a/x/xterm", ""},
	} {
		c := c
		nm := fmt.Sprintf("%q of %q", c.term, c.files)
		r.analyse("load: "+nm, func(x *X) {
			e := &env{vars: map[string]string{"TERMINFO_DIRS": "/a:/b"}, home: "/h", file: map[string]string{}}
			for _, f := range strings.Fields(c.files) {
				e.file[strings.TrimPrefix(f, "!")] = f[:1]
				if f[0] != '!' {
					e.file[f] = ""
				}
			}
			rule := "load"
			if c.want == "" {
				rule = "unknown"
			}
			st := prep(x, e)
			for _, o := range x.exec(st, load, []*Term{mkStr(c.term)}, nil) {
				got := name(x, o)
				x.check(o.st, rule, nm, got == c.want, load.Pos(), "gives %q, want %q", got, c.want)
				if o.panicked || got == "" {
					continue
				}
				n, ok := o.st.constOf(o.st.gInt("opened"))
				m, ok2 := o.st.constOf(o.st.gInt("closed"))
				x.check(o.st, "load", nm+": closed", ok && ok2 && n == m, load.Pos(), "%v files are opened, %v closed", n, m)
				if !strings.HasPrefix(got, "read") {
					continue
				}
				// again: the same, without any file
				files := e.file
				e.file = map[string]string{}
				first := o.st.f.rw(o.ret[0])
				for _, o := range x.exec(o.st, load, []*Term{mkStr(c.term)}, nil) {
					again := name(x, o)
					x.check(o.st, "load", nm+": again", again == got && o.st.f.rw(o.ret[0]) == first, load.Pos(), "gives another, %q", again)
				}
				for _, other := range []string{"linux", "screen"} {
					for _, o := range x.exec(o.st.fork(), load, []*Term{mkStr(other)}, nil) {
						got := name(x, o)
						x.check(o.st, "load", nm+": then "+other, got == other, load.Pos(), "gives %q", got)
					}
				}
				e.file = files
			}
		})
	}

	// builtins
	for _, n := range sortedKeys(tiBuiltin) {
		n := n
		r.analyse("builtin: "+n, func(x *X) {
			st := prep(x, &env{})
			for _, o := range x.exec(st, getB, []*Term{mkStr(n)}, nil) {
				got := name(x, o)
				x.check(o.st, "builtin", n, got == n, getB.Pos(), "gives %q", got)
				if got != n {
					continue
				}
				p := o.st.f.rw(o.ret[0])
				for i, names := range [][]string{tiKeyNames, tiFuncNames} {
					pre, f := "Key", fKeys
					if i == 1 {
						pre, f = "Func", fFuncs
					}
					want := strings.Fields(tiBuiltin[n][i])
					for j, k := range names {
						got := str(o.st, p, f, pre+k)
						x.check(o.st, "builtin", n+": "+pre+k, o.st.eq(got, mkStr(tiText(want[j]))), getB.Pos(), "is %q, want %q", text(o.st, got), tiText(want[j]))
					}
				}
			}
		})
	}
	for _, c := range [][2]string{{"xterm-256color", "xterm"}, {"screen-256color", "screen"}, {"screen.linux", "linux screen"}, {"linux-16color", "linux"}, {"rxvt", "rxvt-unicode"},
		{"rxvt-88color", "rxvt-unicode"}, {"cygwin", "xterm"}, {"st", "xterm"}, {"Eterm-color", "Eterm"}, {"vt100", ""}, {"", ""}, {"XTERM", ""}} {
		c := c
		r.analyse("compatible: "+c[0], func(x *X) {
			st := prep(x, &env{})
			for _, o := range x.exec(st, getB, []*Term{mkStr(c[0])}, nil) {
				got := name(x, o)
				ok := got == c[1]
				for _, n := range strings.Fields(c[1]) {
					ok = ok || got == n
				}
				rule := "builtin"
				if c[1] == "" {
					rule = "unknown"
				}
				x.check(o.st, rule, "compatible: "+c[0], ok, getB.Pos(), "gives %q, want %q", got, c[1])
			}
		})
	}

	// maps
	for _, m := range []struct {
		method, pre string
		f           int
		names       []string
	}{{"KeyMap", "Key", fKeys, tiKeyNames}, {"FuncMap", "Func", fFuncs, tiFuncNames}} {
		m := m
		fn := w.methodOf(tiT, m.method)
		if fn == nil {
			panic(anchorErr{"Terminfo." + m.method + " not found", true})
		}
		r.analyse("map: "+m.method, func(x *X) {
			st := prep(x, &env{})
			o0 := x.objWith(st, "info", tiT, zeroVal(tiT))
			for i := range m.names {
				st.store(addrPath(o0, mkFld(m.f), mkInt(w.constInt("terminfo", m.pre+m.names[i]))), mkStr(fmt.Sprint("the ", m.names[i])))
			}
			for _, o := range x.exec(st, fn, []*Term{st.load(o0)}, nil) {
				if o.panicked {
					x.check(o.st, "map", m.method, false, fn.Pos(), "panics with %v", o.pv)
					continue
				}
				for _, k := range m.names {
					v, has := x.mapLookup(o.st, o.ret[0], mkStr(k), strT)
					x.check(o.st, "map", m.method+": "+k, o.st.isTrue(has) && o.st.eq(v, mkStr("the "+k)), fn.Pos(), "is %v (%v)", v, has)
				}
			}
		})
	}
}
