package errs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"

	"verifharness/mon"
)

type e struct{ g, n int }

func (x *e) Error() string { return fmt.Sprintf("error %d of goroutine %d", x.n, x.g) }

type params struct {
	writers, readers, per int
	clock                 bool // record real-time order (adds synchronisation, so no race detection value)
	tamper                bool
}

type stamp struct {
	err       error
	call, ret int64
}

func (c params) run(s *mon.S) {
	var errs goroutines.Errors
	if err := errs.Error(); err != nil {
		s.Fail("Error() of an empty collector is %v", err)
	}
	if l := errs.Errors(); len(l) != 0 {
		s.Fail("Errors() of an empty collector is %v", l)
	}
	var clock atomic.Int64
	now := func() int64 {
		if c.clock {
			return clock.Add(1)
		}
		return 0
	}
	stamps := make([][]stamp, c.writers)
	reads := make([][][]error, c.readers)
	firsts := make([][]error, c.readers)
	type readAt struct {
		call, ret int64
		n         int
	}
	readAts := make([][]readAt, c.readers)
	seeds := make([]uint64, c.writers+c.readers)
	for i := range seeds {
		seeds[i] = s.R.Uint64()
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.writers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[g], 1))
			<-start
			for n := 0; n < c.per; n++ {
				x := stamp{err: &e{g, n}}
				x.call = now()
				errs.Record(x.err)
				x.ret = now()
				stamps[g] = append(stamps[g], x)
				if r.IntN(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	for g := 0; g < c.readers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[c.writers+g], 1))
			<-start
			for n := 0; n < c.per; n++ {
				if r.IntN(3) == 0 {
					firsts[g] = append(firsts[g], errs.Error())
					continue
				}
				at := readAt{call: now()}
				l := errs.Errors()
				at.ret = now()
				at.n = len(l)
				reads[g] = append(reads[g], append([]error(nil), l...))
				readAts[g] = append(readAts[g], at)
				if c.tamper {
					// A caller may do what it wants with the list it got.
					if r.IntN(2) == 0 {
						l = append(l, &e{-1, n}, &e{-2, n})
					}
					for i := range l {
						if r.IntN(2) == 0 {
							l[i] = &e{-3, i}
						}
					}
				}
				if r.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	final := errs.Errors()
	pos := map[error]int{}
	for i, x := range final {
		if _, dup := pos[x]; dup {
			s.Fail("%v is listed twice", x)
		}
		pos[x] = i
	}
	total := 0
	for g := range stamps {
		for i, x := range stamps[g] {
			total++
			p, ok := pos[x.err]
			if !ok {
				s.Fail("%v was recorded but is not listed", x.err)
				return
			}
			if i > 0 && pos[stamps[g][i-1].err] > p {
				s.Fail("%v is listed before %v, which its goroutine recorded earlier", x.err, stamps[g][i-1].err)
				return
			}
		}
	}
	if total != len(final) {
		s.Fail("%d errors recorded, %d listed", total, len(final))
	}
	if total > 0 && errs.Error() != final[0] {
		s.Fail("Error() is %v, the first error listed is %v", errs.Error(), final[0])
	}
	for g := range reads {
		last := 0
		for _, l := range reads[g] {
			if len(l) < last {
				s.Fail("a later list is shorter (%d) than an earlier one (%d)", len(l), last)
				return
			}
			last = len(l)
			if len(l) > len(final) {
				s.Fail("a list has %d errors, only %d were recorded", len(l), len(final))
				return
			}
			for i := range l {
				if l[i] != final[i] {
					s.Fail("list entry %d was %v and is %v later", i, l[i], final[i])
					return
				}
			}
			s.Event(1)
		}
		var seen error
		for _, f := range firsts[g] {
			if f == nil && seen != nil || f != nil && f != final[0] {
				s.Fail("Error() returned %v, the first error is %v", f, final[0])
				return
			}
			seen = f
			s.Event(1)
		}
	}
	if c.clock {
		// real time: an entry whose Record returned before another's call precedes it.
		byPos := make([]stamp, len(final))
		for g := range stamps {
			for _, x := range stamps[g] {
				byPos[pos[x.err]] = x
			}
		}
		var maxCall int64
		var who error
		for _, x := range byPos {
			if x.ret < maxCall {
				s.Fail("%v is listed after %v but its Record returned before that one began", x.err, who)
				return
			}
			if x.call > maxCall {
				maxCall, who = x.call, x.err
			}
		}
		// a read contains everything recorded completely before it.
		for g := range readAts {
			for _, a := range readAts[g] {
				for i, x := range byPos {
					if i >= a.n && x.ret < a.call {
						s.Fail("a list of %d errors lacks %v, recorded before it was read", a.n, x.err)
						return
					}
					if i < a.n && x.call > a.ret {
						s.Fail("a list contains %v, recorded after it was read", x.err)
						return
					}
				}
			}
		}
	}
	s.Obs("errors", total)
}

// list is an error whose type is not comparable.
type list []string

func (l list) Error() string { return fmt.Sprintf("list %v", []string(l)) }

// mixed records a mix of errors that include equal ones, the same value again
// and again, wrapped and joined ones, ones with a type that is not comparable,
// and a nil pointer; none of which may be dropped, merged or reordered.
type mixed struct {
	writers, readers, per int
	kinds                 int // distinct values
}

// key identifies a recorded error.
func key(err error) any {
	if l, ok := err.(list); ok {
		return "list" + l.Error()
	}
	return err
}

func (c mixed) run(s *mon.S) {
	var errs goroutines.Errors
	base := &e{0, 0}
	var nilPtr *e
	vals := []error{context.Canceled, io.EOF, base, fmt.Errorf("wrapped: %w", base), errors.Join(base, io.EOF), list{"a"}, list{"a", "b"},
		context.DeadlineExceeded, errors.New("x"), errors.New("x"), error(nilPtr), list(nil)}
	r := s.R
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	vals = vals[:min(max(1, c.kinds), len(vals))]
	pick := func(r *rand.Rand) error { return vals[r.IntN(len(vals))] }
	same := func(a, b error) bool { return key(a) == key(b) }

	recs := make([][]error, c.writers)
	reads := make([][][]error, c.readers)
	var wg sync.WaitGroup
	for g := 0; g < c.writers; g++ {
		r := rand.New(rand.NewPCG(s.R.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < c.per; n++ {
				x := pick(r)
				if r.IntN(3) == 0 && n > 0 {
					x = recs[g][n-1]
				}
				errs.Record(x)
				recs[g] = append(recs[g], x)
				if r.IntN(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	for g := 0; g < c.readers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < c.per; n++ {
				reads[g] = append(reads[g], errs.Errors())
				if first := errs.Error(); len(reads[g][n]) > 0 && !same(first, reads[g][n][0]) {
					s.Fail("Error() is %v, the first error listed is %v", first, reads[g][n][0])
				}
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	final := errs.Errors()
	count := map[any]int{}
	total := 0
	for g := range recs {
		for _, x := range recs[g] {
			count[key(x)]++
			total++
		}
		// The errors of one writer are in the list in its order.
		i := 0
		for _, x := range final {
			if i < len(recs[g]) && same(x, recs[g][i]) {
				i++
			}
		}
		if i != len(recs[g]) {
			s.Fail("the %d errors one goroutine recorded are not listed in its order (%d found)", len(recs[g]), i)
			return
		}
	}
	for _, x := range final {
		count[key(x)]--
		s.Event(1)
	}
	for k, n := range count {
		if n != 0 {
			s.Fail("%v was recorded %d times more often than it is listed", k, n)
			return
		}
	}
	for g := range reads {
		for _, l := range reads[g] {
			if len(l) > len(final) {
				s.Fail("a list has %d errors, only %d were recorded", len(l), len(final))
				return
			}
			for i := range l {
				if !same(l[i], final[i]) {
					s.Fail("list entry %d was %v and is %v later", i, l[i], final[i])
					return
				}
			}
			s.Event(1)
		}
	}
	s.Obs("repeated errors", total-min(total, len(vals)))
}

func gen(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c params) { cs = append(cs, mon.Case{Name: "log", Params: mon.P(c), Run: c.run}) }
	for _, clock := range []bool{false, true} {
		add(params{writers: 1, readers: 1, per: 50, clock: clock, tamper: true})
		add(params{writers: 4, readers: 4, per: 60, clock: clock, tamper: true})
		add(params{writers: 8, readers: 2, per: 100, clock: clock})
		add(params{writers: 2, readers: 6, per: 30, clock: clock, tamper: true})
		add(params{writers: 8, readers: 0, per: 200, clock: clock})
		add(params{writers: 0, readers: 2, per: 5, clock: clock})
		add(params{writers: 6, readers: 3, per: 1, clock: clock, tamper: true})
		add(params{writers: 3, readers: 3, per: 3, clock: clock, tamper: true})
	}
	for _, kinds := range []int{1, 2, 5, 12} {
		for _, w := range []int{1, 4} {
			c := mixed{writers: w, readers: 2, per: 40, kinds: kinds}
			cs = append(cs, mon.Case{Name: "mixed", Params: mon.P(c), Run: c.run})
		}
	}
	// Many errors.
	for _, c := range []params{{writers: 3, per: 10000}, {writers: 1, per: 70000}} {
		cs = append(cs, mon.Case{Name: "log", Params: mon.P(c), Run: c.run, Reps: 1})
	}
	n := 4
	if thorough {
		n = 30
	}
	for i := 0; i < n; i++ {
		add(params{writers: 1 + r.IntN(8), readers: 1 + r.IntN(6), per: 1 + r.IntN(80), clock: r.IntN(2) == 0, tamper: r.IntN(2) == 0})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"E01": {Gen: gen, NoBubble: true, Reps: 12, MinEvents: 1000, Rule: "a case is a number of recording and reading goroutines, readers that change the lists they get, and whether real-time order is recorded, or a mix of repeated, equal, wrapped and uncomparable errors; run under the race detector; distinct by parameters and library steps"},
	})
}
