package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// vtSim is a small terminal: what a screen shows after known bytes were
// written to it. It is written from ECMA-48 and the xterm control sequence
// list, not from the code under analysis.
type vtSim struct {
	w, h    int
	cell    []rune
	attr    []string
	x, y    int // from 0
	wrap    bool
	sgr     map[int]bool
	modes   map[string]bool // private modes that were set
	hidden  bool
	unknown string
}

func newVT(w, h int, garble bool) *vtSim {
	t := &vtSim{w: w, h: h, sgr: map[int]bool{}, modes: map[string]bool{}}
	t.clear(garble)
	return t
}

func (t *vtSim) clear(garble bool) {
	t.cell, t.attr = make([]rune, t.w*t.h), make([]string, t.w*t.h)
	for i := range t.cell {
		t.cell[i] = ' '
		if garble {
			t.cell[i] = rune('!' + i%14)
			t.attr[i] = "1"
		}
	}
}

func (t *vtSim) sgrStr() string {
	var ns []int
	for n, on := range t.sgr {
		if on {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	s := ""
	for _, n := range ns {
		s += fmt.Sprint(n, ";")
	}
	return s
}

func (t *vtSim) blank(i int) {
	t.cell[i] = ' '
	t.attr[i] = ""
}

func (t *vtSim) scroll() {
	copy(t.cell, t.cell[t.w:])
	copy(t.attr, t.attr[t.w:])
	for i := (t.h - 1) * t.w; i < t.w*t.h; i++ {
		t.blank(i)
	}
}

func (t *vtSim) put(c rune) {
	if t.w == 0 || t.h == 0 {
		return
	}
	if t.wrap {
		t.wrap = false
		t.x = 0
		t.lf()
	}
	t.cell[t.y*t.w+t.x] = c
	t.attr[t.y*t.w+t.x] = t.sgrStr()
	if t.x++; t.x >= t.w {
		t.x = t.w - 1
		t.wrap = true
	}
}

func (t *vtSim) lf() {
	if t.y == t.h-1 {
		t.scroll()
	} else {
		t.y++
	}
}

func (t *vtSim) clamp() {
	t.wrap = false
	if t.x >= t.w {
		t.x = t.w - 1
	}
	if t.y >= t.h {
		t.y = t.h - 1
	}
	if t.x < 0 {
		t.x = 0
	}
	if t.y < 0 {
		t.y = 0
	}
}

func (t *vtSim) bad(f string, a ...any) {
	if t.unknown == "" {
		t.unknown = fmt.Sprintf(f, a...)
	}
}

// write plays bytes, which are to be whole units.
func (t *vtSim) write(s string) {
	for len(s) > 0 {
		switch c := s[0]; {
		case c == 0x1b && len(s) > 1 && s[1] == '[':
			j := 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			if j == len(s) {
				t.bad("incomplete sequence %q", s)
				return
			}
			t.csi(s[2:j], s[j])
			s = s[j+1:]
		case c == 0x1b:
			t.bad("sequence %q", s)
			return
		case c == '\r':
			t.x, t.wrap = 0, false
			s = s[1:]
		case c == '\n':
			t.wrap = false
			t.lf()
			s = s[1:]
		case c < 0x20 || c == 0x7f:
			t.bad("control %#x", c)
			s = s[1:]
		default:
			r, n := utf8.DecodeRuneInString(s)
			t.put(r)
			s = s[n:]
		}
	}
}

func (t *vtSim) csi(arg string, fin byte) {
	if strings.HasPrefix(arg, "?") && (fin == 'h' || fin == 'l') {
		for _, m := range strings.Split(arg[1:], ";") {
			if m == "25" {
				t.hidden = fin == 'l'
				continue
			}
			if fin == 'h' {
				t.modes[m] = true
			} else {
				delete(t.modes, m)
			}
			if m == "1049" {
				t.clear(false)
			}
		}
		return
	}
	if arg == "!" && fin == 'p' {
		t.sgr = map[int]bool{}
		t.hidden = false
		return
	}
	var ns []int
	for _, p := range strings.Split(arg, ";") {
		n, err := strconv.Atoi(p)
		if p == "" {
			n, err = -1, nil
		}
		if err != nil {
			t.bad("sequence CSI %s %c", arg, fin)
			return
		}
		ns = append(ns, n)
	}
	num := func(i, d int) int {
		if i < len(ns) && ns[i] > 0 {
			return ns[i]
		}
		return d
	}
	switch fin {
	case 'H', 'f':
		t.y, t.x = num(0, 1)-1, num(1, 1)-1
		t.clamp()
	case 'A':
		t.y -= num(0, 1)
		t.clamp()
	case 'B':
		t.y += num(0, 1)
		t.clamp()
	case 'C':
		t.x += num(0, 1)
		t.clamp()
	case 'D':
		t.x -= num(0, 1)
		t.clamp()
	case 'E':
		t.y += num(0, 1)
		t.x = 0
		t.clamp()
	case 'F':
		t.y -= num(0, 1)
		t.x = 0
		t.clamp()
	case 'G':
		t.x = num(0, 1) - 1
		t.clamp()
	case 'd':
		t.y = num(0, 1) - 1
		t.clamp()
	case 'J', 'K':
		k := ns[0]
		if k < 0 {
			k = 0
		}
		at := t.y*t.w + t.x
		lo, hi := at, t.w*t.h
		if fin == 'K' {
			hi = (t.y + 1) * t.w
		}
		switch k {
		case 1:
			hi = at + 1
			lo = 0
			if fin == 'K' {
				lo = t.y * t.w
			}
		case 2:
			lo = 0
			if fin == 'K' {
				lo = t.y * t.w
			}
		case 0:
		default:
			t.bad("erase %d", k)
		}
		for i := lo; i < hi; i++ {
			t.blank(i)
		}
	case 'm':
		for i := 0; i < len(ns); i++ {
			n := ns[i]
			switch {
			case n <= 0:
				t.sgr = map[int]bool{}
			case n < 10:
				t.sgr[n] = true
			case n == 22:
				delete(t.sgr, 1)
				delete(t.sgr, 2)
			case 23 <= n && n <= 29:
				delete(t.sgr, n-20)
			case 30 <= n && n <= 37, n == 39, 90 <= n && n <= 97:
				for k := range t.sgr {
					if 30 <= k && k <= 37 || 90 <= k && k <= 97 {
						delete(t.sgr, k)
					}
				}
				if n != 39 {
					t.sgr[n] = true
				}
			case 40 <= n && n <= 47, n == 49, 100 <= n && n <= 107:
				for k := range t.sgr {
					if 40 <= k && k <= 47 || 100 <= k && k <= 107 {
						delete(t.sgr, k)
					}
				}
				if n != 49 {
					t.sgr[n] = true
				}
			default:
				t.bad("attribute %d", n)
			}
		}
	default:
		t.bad("sequence CSI %s %c", arg, fin)
	}
}

func (t *vtSim) String() string {
	s := ""
	for y := 0; y < t.h; y++ {
		s += fmt.Sprintf("%q", string(t.cell[y*t.w:(y+1)*t.w]))
	}
	return s
}
