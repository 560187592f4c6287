package main

import (
	"sync"
	"time"
)

// shrink makes the plan smaller while some violation of the same class stays.
type shrinker struct {
	bin      string
	class    string
	deadline time.Time
	runs     int
	best     *Plan
	known    func(Violation) bool
}

func (s *shrinker) fails(p *Plan) *Plan {
	r, err := runPlan(s.bin, p)
	if err != nil {
		return nil
	}
	for _, v := range r.Violations {
		if v.Class == s.class && !s.known(v) {
			return r.Plan
		}
	}
	return nil
}

// try evaluates candidates in order, eight at a time, and adopts the first
// that still fails. It returns its index or -1.
func (s *shrinker) try(cands []*Plan) int {
	const par = 8
	for i := 0; i < len(cands); i += par {
		if time.Now().After(s.deadline) {
			return -1
		}
		n := min(par, len(cands)-i)
		got := make([]*Plan, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[j] = s.fails(cands[i+j])
			}()
		}
		wg.Wait()
		s.runs += n
		for j, g := range got {
			if g != nil {
				// Keep the candidate as it was written, not as the run
				// recorded it: unused schedule entries fall away with it.
				if g.Explicit {
					g.Sched.Policy = 3
				}
				s.best = g
				return i + j
			}
		}
	}
	return -1
}

func dropOp(p *Plan, k int) *Plan {
	q := p.clone()
	q.Ops = append(q.Ops[:k:k], q.Ops[k+1:]...)
	var fs []Fault
	for _, f := range q.Faults {
		if f.In == k {
			continue
		}
		if f.In > k {
			f.In--
		}
		fs = append(fs, f)
	}
	q.Faults = fs
	return q
}

func (s *shrinker) run() {
	for round := 0; round < 6; round++ {
		before := s.runs
		changed := false
		ok := func(c []*Plan) bool {
			if s.try(c) >= 0 {
				changed = true
				return true
			}
			return false
		}
		// No schedule choices at all?
		if len(s.best.Sched.Picks)+len(s.best.Sched.Preempts) > 0 {
			a := s.best.clone()
			a.Sched.Picks, a.Sched.Preempts = nil, nil
			b := s.best.clone()
			b.Sched.Preempts = nil
			c := s.best.clone()
			c.Sched.Picks = nil
			ok([]*Plan{a, b, c})
		}
		for {
			var c []*Plan
			if len(s.best.Faults) > 1 {
				q := s.best.clone()
				q.Faults = nil
				c = append(c, q)
			}
			for i := range s.best.Faults {
				q := s.best.clone()
				q.Faults = append(q.Faults[:i:i], q.Faults[i+1:]...)
				c = append(c, q)
			}
			if len(c) == 0 || !ok(c) {
				break
			}
		}
		for len(s.best.Ops) > 1 {
			var c []*Plan
			for i := range s.best.Ops {
				c = append(c, dropOp(s.best, i))
			}
			if !ok(c) {
				break
			}
		}
		for {
			var c []*Plan
			for i := range s.best.Ops {
				for j := range s.best.Ops[i].L {
					q := s.best.clone()
					l := q.Ops[i].L
					q.Ops[i].L = append(l[:j:j], l[j+1:]...)
					c = append(c, q)
				}
				if s.best.Ops[i].M != 0 {
					q := s.best.clone()
					q.Ops[i].M = 0
					c = append(c, q)
				}
			}
			if len(c) == 0 || !ok(c) {
				break
			}
		}
		var c []*Plan
		for _, k := range []string{"latjit", "latmin", "chunk", "norange", "unknownlen", "overlaps", "epoch", "droptar"} {
			if s.best.P[k] != 0 {
				q := s.best.clone()
				q.P[k] = 0
				c = append(c, q)
			}
		}
		for len(c) > 0 {
			i := s.try(c)
			if i < 0 {
				break
			}
			changed = true
			c = c[i+1:]
			for j := range c { // re-derive from the new best
				for k, v := range c[j].P {
					if v == 0 && s.best.P[k] != 0 {
						q := s.best.clone()
						q.P[k] = 0
						c[j] = q
						break
					}
				}
			}
		}
		s.ddmin()
		if !changed || s.runs == before || time.Now().After(s.deadline) {
			break
		}
	}
}

// ddmin thins out the schedule: pairs of picks, and preemption points.
func (s *shrinker) ddmin() {
	for n := 2; ; {
		np, nq := len(s.best.Sched.Picks)/2, len(s.best.Sched.Preempts)
		tot := np + nq
		if tot == 0 || time.Now().After(s.deadline) {
			return
		}
		if n > tot {
			n = tot
		}
		var c []*Plan
		for i := 0; i < n; i++ {
			lo, hi := tot*i/n, tot*(i+1)/n
			q := s.best.clone()
			var pk []uint32
			var pr []int64
			for j := 0; j < np; j++ {
				if j < lo || j >= hi {
					pk = append(pk, q.Sched.Picks[2*j], q.Sched.Picks[2*j+1])
				}
			}
			for j := 0; j < nq; j++ {
				if np+j < lo || np+j >= hi {
					pr = append(pr, q.Sched.Preempts[j])
				}
			}
			q.Sched.Picks, q.Sched.Preempts = pk, pr
			c = append(c, q)
		}
		if s.try(c) >= 0 {
			n = max(2, n-1)
			continue
		}
		if n >= tot || n > 256 {
			return
		}
		n *= 2
	}
}
