package prims

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"

	"verifharness/kit"
	"verifharness/mon"
)

// patience makes calls that take a long (virtual) time: accessors take it, and for channels also
// the input to come and the results to be read.
type patience struct {
	api, kind, size, n int
	pause              time.Duration
	mode               int // 0 all goes through, 1 the first accessor fails with WithStopOnErr, 2 the caller cancels
	fail               bool
	idle               bool // the input is open and idle, the results aren't read
}

func (c patience) run(s *mon.S) {
	pool, so := kit.NewPool(c.kind, c.size)
	bound := runtime.NumCPU()
	switch c.kind {
	case 1, 2:
		bound = c.size
	case 3, 4:
		bound = c.n
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	boom := errors.New("boom")
	calls := make([]atomic.Int32, c.n)
	var running, ended, stoppedAt atomic.Int64
	start := time.Now()
	stoppedAt.Store(1 << 62)
	f := func(ctx context.Context, i int) error {
		if calls[i].Add(1) > 1 {
			s.Fail("the accessor is called again for %d", i)
		}
		if now := int64(time.Since(start)); now > stoppedAt.Load() {
			s.Fail("an accessor is called %v after the stop", time.Duration(now-stoppedAt.Load()))
		}
		if n := running.Add(1); n > int64(bound) {
			s.Fail("%d accessor calls are running, at most %d may", n, bound)
		}
		defer ended.Add(1)
		defer running.Add(-1)
		switch {
		case c.mode == 0:
			time.Sleep(c.pause + time.Duration(i)*c.pause/8)
			if ctx.Err() != nil {
				s.Fail("the context of an accessor is done: %v", ctx.Err())
			}
			if c.fail && i == c.n-1 {
				return boom
			}
		case c.mode == 1 && i == 0:
			time.Sleep(c.pause)
			if c.api != 2 {
				stoppedAt.Store(int64(time.Since(start)))
			}
			return boom
		default:
			<-ctx.Done()
			stoppedAt.CompareAndSwap(1<<62, int64(time.Since(start)))
			time.Sleep(c.pause)
		}
		return nil
	}
	in := make(chan int)
	stop := make(chan struct{})
	defer close(stop)
	if c.api > 0 {
		go func() {
			for i := 0; i < c.n; i++ {
				if c.mode == 0 && i%3 == 1 {
					time.Sleep(c.pause)
				}
				select {
				case in <- i:
				case <-stop:
					return
				}
			}
			if c.mode == 0 {
				time.Sleep(c.pause)
			}
			if !c.idle {
				close(in)
			}
		}()
	}
	out := make(chan chans.StreamResult[int])
	read := make(chan struct{})
	results, fails := map[int]int{}, 0
	go func() {
		defer close(read)
		if c.api != 2 || c.idle && c.mode == 2 {
			return
		}
		for r := range out {
			if r.Err != nil {
				fails++
			} else {
				results[r.Value]++
			}
			if c.mode == 0 && len(results)%2 == 0 {
				time.Sleep(c.pause)
			}
		}
	}()
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		stop := c.mode == 1
		switch c.api {
		case 0:
			err = slices.Access(ctx, make([]int, c.n), func(ctx context.Context, i int, _ int, _ slices.Modifier[int]) error { return f(ctx, i) }, sliceOpts(pool, so, stop, c.n)...)
		case 1:
			err = chans.Access(ctx, in, f, chanOpts(pool, so, stop, c.n)...)
		case 2:
			err = chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, chanOpts(pool, so, stop, c.n)...)
		}
		if n := running.Load(); n != 0 {
			s.Fail("the call returned while %d accessors were running", n)
		}
	}()
	if c.mode == 2 {
		time.Sleep(5*c.pause + c.pause/3)
		select {
		case <-done:
			s.Fail("the call returned %v although accessors were running and nothing stopped it", err)
		default:
		}
		stoppedAt.Store(int64(time.Since(start)))
		cancel()
	}
	limit := time.Duration(20*c.n+20) * c.pause
	if c.mode > 0 {
		limit = 10 * c.pause
	}
	if !s.Within(limit, "the call and the reading of its results", func() { <-done; <-read }) {
		return
	}
	n := 0
	for i := range calls {
		n += int(calls[i].Load())
	}
	if int64(n) != ended.Load() {
		s.Fail("%d accessor calls were made and %d have ended", n, ended.Load())
	}
	switch {
	case c.mode == 0 && n != c.n:
		s.Fail("%d accessor calls were made for %d elements", n, c.n)
	case c.mode == 0 && !c.fail && err != nil:
		s.Fail("the call returned %v, no accessor failed", err)
	case (c.mode == 1 || c.fail && c.mode == 0) && !errors.Is(err, boom):
		s.Fail("the call returned %v, an accessor failed with %v", err, boom)
	case c.mode == 2 && err == nil && (n < c.n || c.api > 0 && c.idle):
		s.Fail("the call returned nil, it was cancelled")
	}
	if c.api == 2 && c.mode == 0 {
		want := c.n
		if c.fail {
			want--
			if fails != 1 {
				s.Fail("%d results have errors, one modifier failed", fails)
			}
		}
		for i := 0; i < want; i++ {
			if results[i] != 1 {
				s.Fail("the result %d was sent %d times", i, results[i])
			}
		}
	}
	time.Sleep(c.pause)
	if pool != nil {
		ran := false
		s.Within(minute, "Submit to the pool after the call", func() { pool.Submit(context.Background(), func(context.Context) { ran = true }); pool.Wait() })
		if !ran {
			s.Fail("the pool does not run jobs after the call")
		}
	}
	closePool(s, pool)
	s.Event(1 + n)
	s.Obs(fmt.Sprintf("calls with accessors that take %v", c.pause), 1)
}

// patienceCases makes cases of these APIs and modes.
func patienceCases(r *rand.Rand, apis, modes []int) []mon.Case {
	var cs []mon.Case
	for _, d := range []time.Duration{40 * time.Second, 11 * time.Minute, 3 * time.Hour, 26 * time.Hour} {
		for _, api := range apis {
			for _, mode := range modes {
				for kind := 0; kind < 5; kind++ {
					if (kind+api+mode+int(d/time.Second))%2 == r.IntN(2) {
						continue
					}
					c := patience{api: api, kind: kind, size: 1 + r.IntN(4), n: 1 + r.IntN(12), mode: mode, pause: d + time.Duration(r.Int64N(int64(d/2))), fail: r.IntN(2) == 0, idle: mode > 0 && r.IntN(2) == 0}
					cs = append(cs, mon.Case{Name: "patience", Params: mon.P(c), Run: c.run, Reps: 3, Early: true})
				}
			}
		}
	}
	return cs
}
