package main

// Truth tables over single bits: two bit expressions agree when they evaluate
// alike under every assignment of the bits they are made of that the facts of
// the path allow.

type bitAsg map[*Term]int

// bitLeaves collects the bits a bit expression is made of.
func bitLeaves(t *Term, out map[*Term]bool) {
	if t == bit0 || t == bit1 {
		return
	}
	if isBit(t) && t.k == 0 && t.args[0].op == OApp {
		switch t.args[0].name {
		case "band", "bor", "bxor", "bnot":
			for _, a := range t.args[0].args {
				bitLeaves(a, out)
			}
			return
		}
	}
	out[t] = true
}

// bitEval evaluates a bit expression, -1 when it depends on further bits.
func bitEval(t *Term, m bitAsg) int {
	if t == bit0 {
		return 0
	}
	if t == bit1 {
		return 1
	}
	if v, ok := m[t]; ok {
		return v
	}
	if isBit(t) && t.k == 0 && t.args[0].op == OApp {
		as := t.args[0].args
		switch t.args[0].name {
		case "band":
			a, b := bitEval(as[0], m), bitEval(as[1], m)
			switch {
			case a == 0 || b == 0:
				return 0
			case a == 1 && b == 1:
				return 1
			}
		case "bor":
			a, b := bitEval(as[0], m), bitEval(as[1], m)
			switch {
			case a == 1 || b == 1:
				return 1
			case a == 0 && b == 0:
				return 0
			}
		case "bxor":
			a, b := bitEval(as[0], m), bitEval(as[1], m)
			if a >= 0 && b >= 0 {
				return a ^ b
			}
		case "bnot":
			if a := bitEval(as[0], m); a >= 0 {
				return 1 - a
			}
		}
	}
	return -1
}

// bitFact evaluates a path fact made of bits: 0 violated, 1 holds, -1 open.
func bitFact(t *Term, m bitAsg) int {
	switch {
	case t.op == OApp && t.name == "biteq":
		all := 1
		for _, b := range t.args {
			switch bitEval(b, m) {
			case 1:
				return 0
			case -1:
				all = -1
			}
		}
		return all
	case t.op == ONot:
		if v := bitFact(t.args[0], m); v >= 0 {
			return 1 - v
		}
	case t.op == OEq0:
		ms, cs, k := linParts(t.args[0])
		if len(ms) == 1 && isBit(ms[0]) {
			if v := bitEval(ms[0], m); v >= 0 {
				if int64(v)*cs[0]+k == 0 {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// bitSame decides whether two single bits agree on the path.
func (s *State) bitSame(a, b *Term) bool {
	a, b = s.f.rw(a), s.f.rw(b)
	if a == b {
		return true
	}
	leaves := map[*Term]bool{}
	bitLeaves(a, leaves)
	bitLeaves(b, leaves)
	var ls []*Term
	for l := range leaves {
		ls = append(ls, l)
	}
	if len(ls) > 8 {
		return false
	}
	facts := s.f.allFacts()
	for n := 0; n < 1<<len(ls); n++ {
		m := bitAsg{}
		for i, l := range ls {
			m[l] = n >> i & 1
		}
		va, vb := bitEval(a, m), bitEval(b, m)
		if va == vb && va >= 0 {
			continue
		}
		possible := true
		for _, f := range facts {
			if bitFact(f, m) == 0 {
				possible = false
				break
			}
		}
		for k, v := range s.f.sub {
			if !possible {
				break
			}
			if isBit(k) && v.op == OConst {
				if e := bitEval(k, m); e >= 0 && int64(e) != v.k {
					possible = false
				}
			} else if isBit(k) && isBit(v) {
				if e, g := bitEval(k, m), bitEval(v, m); e >= 0 && g >= 0 && e != g {
					possible = false
				}
			}
		}
		if possible {
			return false
		}
	}
	return true
}

// toBits is toBits seeing through k+v where the facts keep v below the lowest
// bit of k, which is what or-ing a constant into a small value turns into.
func (st *State) toBits(t *Term, w int, sw int, ss bool) []*Term {
	if t.op == OLin && len(t.args) == 1 && t.coefs[0] == 1 && t.k > 0 {
		v, low := t.args[0], t.k&-t.k
		if low > 1 && st.f.prove(v) && st.f.prove(linK(linNeg(v), low-1)) {
			vw, vs := termWidth(v)
			n := 0
			for int64(1)<<uint(n) < low {
				n++
			}
			out := toBits(mkInt(t.k), w, sw, ss)
			for i, b := range toBits(v, w, vw, vs) {
				if i < n && i < w {
					out[i] = b
				}
			}
			return out
		}
	}
	return toBits(t, w, sw, ss)
}
