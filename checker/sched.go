package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A sched interprets the code of several threads on one abstract state, one at
// a time, switching where they wait for each other and where it is told to.

type schThread struct {
	x     *X
	in    chan *State
	out   chan schMsg
	id    int
	where string
	begun bool
	done  bool
	stuck bool // waits, when last seen
	spins int
	slice int // points left before it is to pause; 0 is no limit
}

type schMsg struct {
	st   *State
	kind string // wait, pause, end, fail
	err  any
}

type schKilled struct{}

type sched struct {
	x       *X
	threads []*schThread
	cur     *schThread // nil is the main one
	points  int        // of main's, so far
	// which of main's points a switch is made at, and for how many points of the other; -1: every one
	at, slice int
	check     func(st *State, rule, at string, ok bool, pos token.Pos, format string, a ...any)
	waits     func(st *State, t *schThread) // t waits on its channels
	dead      bool
}

// start makes a thread of a call.
func (s *sched) start(fn *ssa.Function, args, binds []*Term, where string) *schThread {
	t := &schThread{x: newX(s.x.prog), in: make(chan *State), out: make(chan schMsg), id: len(s.threads) + 1, where: where}
	t.x.h, t.x.precise, t.x.noMerge, t.x.unrollSt, t.x.aliasAppend = s.x.h, s.x.precise, s.x.noMerge, s.x.unrollSt, s.x.aliasAppend
	s.threads = append(s.threads, t)
	go func() {
		st, ok := <-t.in
		if !ok {
			close(t.out)
			return
		}
		defer func() {
			switch e := recover().(type) {
			case nil:
			case schKilled:
				close(t.out)
			default:
				t.out <- schMsg{kind: "fail", err: e}
			}
		}()
		outs := t.x.exec(st, fn, args, binds)
		if len(outs) != 1 {
			if s.dead {
				panic(schKilled{})
			}
			panic(undecided{fmt.Sprintf("a thread of %v ends in %d ways", fn, len(outs))})
		}
		if outs[0].panicked {
			t.out <- schMsg{kind: "panic", st: outs[0].st, err: outs[0].pv}
			return
		}
		t.out <- schMsg{kind: "end", st: outs[0].st}
	}()
	return t
}

// run lets a thread go on until it waits, ends, or has passed n points.
func (s *sched) run(st *State, t *schThread, n int) *State {
	prev := s.cur
	s.cur = t
	t.slice = n
	t.stuck, t.begun = false, true
	t.in <- st
	m, ok := <-t.out
	s.cur = prev
	if !ok { // it was given up
		t.done, s.dead = true, true
		return st
	}
	switch m.kind {
	case "fail":
		t.done = true
		panic(m.err)
	case "panic":
		t.done = true
		s.check(m.st, "live", t.where, false, token.NoPos, "panics with %v", m.err)
	case "end":
		t.done = true
	case "wait":
		t.stuck = true
		if s.waits != nil {
			s.waits(m.st, t)
		}
	}
	return m.st
}

// hand gives the state back from the current thread to the main one.
func (s *sched) hand(st *State, kind string) *State {
	t := s.cur
	t.out <- schMsg{kind: kind, st: st}
	n, ok := <-t.in
	if !ok {
		panic(schKilled{})
	}
	return n
}

// point is where another thread may come in between.
func (s *sched) point(st *State) *State {
	if s.dead {
		return st
	}
	if t := s.cur; t != nil {
		if t.slice > 0 {
			if t.slice--; t.slice == 0 {
				return s.hand(st, "pause")
			}
		}
		return st
	}
	k := s.points
	s.points++
	if s.at == -1 || s.at == k {
		for _, t := range s.threads {
			if !t.done {
				st = s.run(st, t, s.slice)
			}
		}
	}
	return st
}

// wait lets the others go on until what the current thread waits for has come.
func (s *sched) wait(st *State, pos token.Pos, ready func(st *State) bool) (*State, bool) {
	for n := 0; ; n++ {
		if ready(st) {
			return st, true
		}
		if s.dead {
			return st, false
		}
		if s.cur != nil {
			st = s.hand(st, "wait")
			continue
		}
		went := false
		for _, t := range s.threads {
			if t.done {
				continue
			}
			st = s.run(st, t, 0)
			went = went || !t.stuck
			if ready(st) {
				return st, true
			}
		}
		if !went || n > 100 {
			return st, false
		}
	}
}

// drain lets the threads go on as far as they can.
func (s *sched) drain(st *State) *State {
	for _, t := range s.threads {
		if !t.done {
			st = s.run(st, t, 0)
		}
	}
	return st
}

func (s *sched) live() (n int) {
	for _, t := range s.threads {
		if !t.done {
			n++
		}
	}
	return n
}

// end stops all threads, and takes what they found.
func (s *sched) end() {
	s.dead = true
	for _, t := range s.threads {
		if !t.done {
			close(t.in)
			for range t.out {
			}
			t.done = true
		}
		s.x.log = append(s.x.log, t.x.log...)
		s.x.soft = append(s.x.soft, t.x.soft...)
		for f := range t.x.fnsSet {
			s.x.fnsSet[f] = true
		}
		s.x.steps += t.x.steps
		s.x.nBlk += t.x.nBlk
		t.x.log = nil
	}
}
