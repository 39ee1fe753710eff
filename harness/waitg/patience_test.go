package waitg

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/mon"
)

// patience uses a Group over a long (virtual) time: functions that take that long and fail
// or don't, and nothing to do for that long before, in and between the rounds.
type patience struct {
	kind, size, n int
	pause         time.Duration
	fail          bool // the last function fails, after the pause
	stuck         bool // and the others wait for their context, or twice as long as that takes
}

func (c patience) run(s *mon.S) {
	pool, opts := newPool(s, c.kind, c.size)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	for round := 0; round < 4 && !s.Failed(); round++ {
		time.Sleep(c.pause)
		ctx, cancel := context.WithCancel(context.Background())
		var cancelled atomic.Int64
		fail, stuck := c.fail && round%2 == 0, c.stuck
		if round < 2 {
			g.CancelOnErr = func() { cancelled.Add(1); cancel() }
		} else {
			stuck = false
		}
		boom := errors.New("boom")
		late := errors.New("late")
		var started, ended atomic.Int64
		gone := make(chan struct{}) // the failing function has returned
		fn := func(i int) wait.FuncCall {
			return func(ctx context.Context) error {
				started.Add(1)
				defer ended.Add(1)
				if i == 0 {
					defer func() {
						if fail {
							close(gone)
						}
					}()
					time.Sleep(c.pause)
					if fail {
						return boom
					}
					return nil
				}
				if fail && stuck {
					<-ctx.Done()
					time.Sleep(c.pause)
					return nil
				}
				time.Sleep(2 * c.pause)
				if cancelled.Load() > 0 && !fail {
					s.Fail("the cancel function was called while a function was executing and none had failed")
				}
				if fail && i == 1 {
					return late
				}
				return nil
			}
		}
		for i := 0; i < c.n; i++ {
			if !s.Within(100*c.pause, "Go", func() { g.Go(ctx, fn(i)) }) {
				return
			}
			if i == c.n/2 {
				time.Sleep(c.pause / 4)
			}
		}
		s.Settle()
		if r, n := int64(g.Running()), started.Load()-ended.Load(); r < n || r > int64(c.n) {
			s.Fail("Running() is %d, %d functions are executing of %d", r, n, c.n)
		}
		waited := make(chan struct{})
		var err error
		go func() {
			err = g.Wait(context.Background())
			close(waited)
		}()
		if fail && round < 2 {
			select {
			case <-gone:
			case <-time.After(100 * c.pause):
				s.Fail("the failing function never ended")
				return
			}
			s.Settle()
			if cancelled.Load() == 0 {
				s.Fail("a function failed after %v and the cancel function is not called", c.pause)
			}
		}
		if !mon.Recv(waited, time.Duration(10*c.n)*c.pause) {
			s.Fail("Wait has not returned\n%s", mon.Blocked())
			return
		}
		skipped := fail && round < 2 // functions may have been skipped
		if n := ended.Load(); n != started.Load() || !skipped && n != int64(c.n) {
			s.Fail("Wait returned: %d functions were started and %d have ended, of %d", started.Load(), n, c.n)
		}
		switch {
		case !fail && err != nil:
			s.Fail("Wait returned %v, no function failed", err)
		case fail && !errors.Is(err, boom):
			s.Fail("Wait returned %v, a function failed after %v", err, c.pause)
		case fail && round >= 2 && c.n > 1 && !errors.Is(err, late):
			s.Fail("Wait returned %v, a function failed after %v", err, 2*c.pause)
		}
		if round < 2 && cancelled.Load() == 0 {
			s.Fail("Wait returned and the cancel function was never called")
		}
		if n := g.Running(); n != 0 {
			s.Fail("Wait returned: Running() is %d", n)
		}
		s.Event(c.n)
		cancel()
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
	s.Obs(fmt.Sprintf("Groups with functions that take %v", c.pause), 1)
}

// manyRounds uses one Group again and again.
func manyRounds(s *mon.S, kind, rounds int) {
	pool, opts := newPool(s, kind, 2)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	var last error
	for round := 0; round < rounds && !s.Failed(); round++ {
		ctx, cancel := context.WithCancel(context.Background())
		var runs, cancels atomic.Int64
		var want error
		with := s.R.IntN(3) == 0
		if with {
			g.CancelOnErr = func() { cancels.Add(1); cancel() }
		}
		if s.R.IntN(2) == 0 {
			want = fmt.Errorf("round %d", round)
		}
		n := 1 + round%3
		for i := 0; i < n; i++ {
			g.Go(ctx, func(context.Context) error {
				runs.Add(1)
				return want
			})
		}
		var err error
		if !s.Within(minute, "Wait", func() { err = g.Wait(context.Background()) }) {
			return
		}
		if m := runs.Load(); m != int64(n) && !(with && want != nil) {
			s.Fail("round %d: %d of %d functions have run", round, m, n)
		}
		if want == nil && err != nil || !errors.Is(err, want) {
			s.Fail("round %d: Wait returned %v, the functions returned %v", round, err, want)
		}
		if last != nil && errors.Is(err, last) {
			s.Fail("round %d: Wait returned %v of the round before", round, err)
		}
		last = want
		if with != (cancels.Load() > 0) {
			s.Fail("round %d: CancelOnErr was called %d times, it was set for this round: %v", round, cancels.Load(), with)
		}
		if r := g.Running(); r != 0 {
			s.Fail("round %d: Running() is %d after Wait", round, r)
		}
		cancel()
		s.Event(1)
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
	s.ObsMax("most rounds of one Group", rounds)
}

// umbrella is an error that claims to be every other.
type umbrella struct{}

func (umbrella) Error() string   { return "umbrella" }
func (umbrella) Is(e error) bool { return true }

// claims has functions fail of which the errors have Is methods that match errors of other types.
func claims(s *mon.S, kind, order int) {
	pool, opts := newPool(s, kind, 3)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	fails := []error{umbrella{}, &myErr{1}, valErr{2}, umbrella{}, &myErr{3}}
	for i := range fails {
		e := fails[(i+order)%len(fails)]
		g.Go(context.Background(), func(context.Context) error {
			time.Sleep(time.Duration(i) * time.Millisecond)
			return e
		})
	}
	var err error
	if !s.Within(minute, "Wait", func() { err = g.Wait(context.Background()) }) {
		return
	}
	var m *myErr
	var v valErr
	var u umbrella
	if !errors.As(err, &m) || !errors.As(err, &v) || !errors.As(err, &u) {
		s.Fail("Wait's error has not the errors of all types of %v: %v", fails, err)
	}
	s.Event(len(fails))
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

func patienceCases(r *rand.Rand, most int) []mon.Case {
	var cs []mon.Case
	for kind := 0; kind < 5; kind++ {
		for j, d := range []time.Duration{40 * time.Second, 11 * time.Minute, 3 * time.Hour, 26 * time.Hour} {
			c := patience{kind: kind, size: 1 + r.IntN(4), n: 1 + r.IntN(6), pause: d + time.Duration(r.Int64N(int64(d/2))), fail: (j+kind)%2 == 0, stuck: r.IntN(2) == 0}
			cs = append(cs, mon.Case{Name: "patience", Params: mon.P(c), Run: c.run, Reps: 3, Early: true})
		}
		n := []int{200, most}[r.IntN(2)]
		cs = append(cs, mon.Case{Name: "many rounds", Params: fmt.Sprintf("kind=%d rounds=%d", kind, n), Run: func(s *mon.S) { manyRounds(s, kind, n) }, Reps: 1, Calm: true})
	}
	return cs
}
