package pools

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/goroutines"

	"verifharness/mon"
)

// patience uses a pool over a long (virtual) time: jobs that take that long, submissions and
// calls of Wait that wait that long, and nothing at all to do for that long.
type patience struct {
	k     kind
	size  int
	pause time.Duration
	named bool
}

func (c patience) run(s *mon.S) {
	name := ""
	if c.named {
		name = "patience"
	}
	before := len(mon.Goroutines(poolFrame))
	var p goroutines.Pool
	if !s.Within(time.Minute, "New", func() { p = c.k.new(s, name, c.size) }) {
		return
	}
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), ctxKey{}, 7), 100*c.pause+time.Hour)
	defer cancel()

	for round := 0; round < 3 && !s.Failed(); round++ {
		time.Sleep(c.pause) // Idle.
		var executing, most, nbStarted, runs atomic.Int64
		gate := make(chan struct{})
		jobs := make([]atomic.Int32, 2*c.size+4)
		held := func(nb bool, i int) goroutines.Job {
			return func(got context.Context) {
				if jobs[i].Add(1) > 1 {
					s.Fail("job %d runs again", i)
				}
				if got.Value(ctxKey{}) != 7 || got.Err() != nil {
					s.Fail("job %d has another context than was submitted (error %v)", i, got.Err())
				}
				if nb {
					nbStarted.Add(1)
				} else {
					n := executing.Add(1)
					for m := most.Load(); n > m && !most.CompareAndSwap(m, n); m = most.Load() {
					}
					if n > int64(c.size) {
						s.Fail("%d blocking jobs are executing in a pool of %d", n, c.size)
					}
					defer executing.Add(-1)
				}
				<-gate
				runs.Add(1)
			}
		}
		id := 0
		for ; id < c.size; id++ {
			if !s.Within(time.Minute, "Submit with a place free", func() {
				if err := p.Submit(ctx, held(false, id)); err != nil {
					s.Fail("Submit: %v", err)
				}
			}) {
				return
			}
		}
		s.Settle()
		if n := executing.Load(); n != int64(c.size) {
			s.Fail("%d of %d jobs execute after the pool was idle for %v", n, c.size, c.pause)
		}
		var subs sync.WaitGroup
		more := c.size + 2
		if round == 1 {
			more = 0
		}
		for i := 0; i < more; i++ {
			n := id
			id++
			subs.Add(1)
			go func() {
				defer subs.Done()
				if err := p.Submit(ctx, held(false, n)); err != nil {
					s.Fail("Submit: %v", err)
				}
			}()
		}
		s.Settle()
		nb := func(i int) {
			n := id
			id++
			if !s.Within(time.Minute, "non-blocking Submit", func() {
				if err := p.Submit(ctx, held(true, n), c.k.nb()); err != nil {
					s.Fail("Submit: %v", err)
				}
			}) {
				return
			}
			s.Settle()
			if n := nbStarted.Load(); n != int64(i) {
				s.Fail("%d of %d non-blocking jobs have started, the pool has been full for %v", n, i, time.Duration(i-1)*c.pause)
			}
		}
		check := func(when string) {
			if n := executing.Load(); n != int64(c.size) {
				s.Fail("%s: %d blocking jobs execute in a pool of %d", when, n, c.size)
			}
			if n := p.Len(); n != c.size {
				s.Fail("%s: Len() is %d, want %d", when, n, c.size)
			}
			min, max := executing.Load()+nbStarted.Load(), int64(id)
			if n := int64(p.Running()); n < min || n > max {
				s.Fail("%s: Running() is %d, %d jobs execute and %d were submitted", when, n, min, max)
			}
			s.Event(1)
		}
		nb(1)
		check("full")
		time.Sleep(c.pause)
		nb(2)
		check("after a long time")
		time.Sleep(c.pause)
		check("after a longer time")

		// Wait is for when nobody submits.
		waited := make(chan struct{})
		if more == 0 {
			go func() {
				p.Wait()
				close(waited)
			}()
			s.Settle()
			time.Sleep(c.pause)
			select {
			case <-waited:
				s.Fail("Wait returned after %v while %d jobs were executing", c.pause, executing.Load()+nbStarted.Load())
			default:
			}
		} else {
			close(waited)
		}
		close(gate)
		if !s.Within(time.Minute, "the jobs, once let go", func() { subs.Wait(); <-waited; p.Wait() }) {
			return
		}
		for i := range id {
			if n := jobs[i].Load(); n != 1 {
				s.Fail("Wait returned: job %d ran %d times", i, n)
			}
		}
		if n := runs.Load(); n != int64(id) {
			s.Fail("Wait returned: %d of %d jobs have finished", n, id)
		}
		if n := p.Running(); n != 0 {
			s.Fail("Wait returned: Running() is %d", n)
		}
		s.Event(id)
	}

	// Close while a job takes long.
	ended := atomic.Bool{}
	for i := 0; i < 2; i++ {
		if err := p.Submit(ctx, func(context.Context) {
			time.Sleep(c.pause)
			ended.Store(true)
		}, c.k.opts(i == 1, i)...); err != nil {
			s.Fail("Submit: %v", err)
		}
	}
	if !s.Within(3*c.pause, "Close", p.Close) {
		return
	}
	if !ended.Load() {
		s.Fail("Close returned while a job was executing")
	}
	s.Settle()
	if s.Alone() {
		if after := len(mon.Goroutines(poolFrame)); after > before {
			s.Fail("%d goroutines of the pool are left after Close", after-before)
		}
	}
	s.Obs(fmt.Sprintf("pools idle, full and waited for %v at a time", c.pause), 1)
}

func patienceCases(r *rand.Rand) []mon.Case {
	var cs []mon.Case
	for _, k := range []kind{kLimited, kPooled} {
		for _, d := range []time.Duration{40 * time.Second, 11 * time.Minute, 3 * time.Hour, 26 * time.Hour} {
			c := patience{k: k, size: 1 + r.IntN(5), pause: d + time.Duration(r.Int64N(int64(d/2))), named: r.IntN(2) == 0}
			cs = append(cs, mon.Case{Name: "patience", Params: mon.P(c), Run: c.run, Reps: 3, Early: true})
		}
	}
	return cs
}
