package prims

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/kit"
	"verifharness/mon"
)

// ---------------------------------------------------------------- X01

// userErr is an error of one call of one user.
type userErr struct{ user, round, i int }

func (e *userErr) Error() string {
	return fmt.Sprintf("user %d round %d element %d", e.user, e.round, e.i)
}

// x01 is a number of users of one pool. Some are slow, their jobs take until a gate
// opens; together they leave the fast ones at least one place.
type x01 struct {
	kind, size int
	slow, each int // slow users and their jobs, slow*each < size unless they do not block
	fast, n    int
	rounds     int
	maxDur     int
	noPool     bool // some users have no pool
	mixed      bool // some of the users submit without blocking
	seed       int
}

type sharer struct {
	c        x01
	s        *mon.S
	pool     goroutines.Pool
	blocking []goroutines.SubmitOption // with room behind it, all users have this same slice
	nonBlock []goroutines.SubmitOption
	gate     chan struct{}
	active   atomic.Int64 // jobs in progress that take a place of the pool
	peak     atomic.Int64
	calls    atomic.Int64
}

// use is one call of a user: the jobs, how they end and what the user is told.
type use struct {
	user, round int
	api         int // 0 Submit, 1 wait.Group, 2 slices.Access, 3 chans.Access, 4 chans.Modify
	n           int
	mode        int // 0 all succeed, 1 some fail, 2 one fails and stops the call, 3 the context is cancelled
	nonBlock    bool
	noPool      bool
	slow        bool
	nested      bool
	durs        []int
}

func (u use) String() string {
	return fmt.Sprintf("user %d (%s, round %d, mode %d)", u.user, []string{"Submit", "wait.Group", "slices.Access", "chans.Access", "chans.Modify"}[u.api], u.round, u.mode)
}

// run makes the call and checks it. group is reused by the rounds of one user.
func (h *sharer) run(u use, group *wait.Group) {
	s := h.s
	type userKey struct{}
	own := fmt.Sprint(u.user, "/", u.round)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), userKey{}, own))
	defer cancel()
	var pool goroutines.Pool
	var so []goroutines.SubmitOption
	if !u.noPool {
		pool, so = h.pool, h.blocking
		if u.nonBlock {
			so = h.nonBlock
		}
	}
	counts := make([]atomic.Int64, u.n)
	var started, ended atomic.Int64
	var stopped atomic.Bool // something of this user's own can have cancelled its contexts
	var mu sync.Mutex
	var made []error
	f := func(ctx context.Context, i int) error {
		defer ended.Add(1)
		if counts[i].Add(1) > 1 {
			s.Fail("%v: function %d called twice", u, i)
		}
		started.Add(1)
		h.calls.Add(1)
		if got := ctx.Value(userKey{}); got != own {
			s.Fail("%v: the context of function %d has the value %v of another call", u, i, got)
		}
		if pool != nil && !u.nonBlock {
			n := h.active.Add(1)
			kit.Max(&h.peak, n)
			if int(n) > h.c.size {
				s.Fail("%v: %d jobs in progress in a pool of %d", u, n, h.c.size)
			}
			defer h.active.Add(-1)
		}
		check := func(when string) {
			if ctx.Err() != nil && !stopped.Load() {
				s.Fail("%v: the context of function %d is done %s although nothing of this user cancelled it: %v", u, i, when, context.Cause(ctx))
			}
		}
		if u.api == 1 {
			if r := group.Running(); r < 1 || r > u.n {
				s.Fail("%v: Running() of the Group is %d in one of its %d functions", u, r, u.n)
			}
		}
		check("at the start")
		switch {
		case u.slow:
			select {
			case <-h.gate:
			case <-ctx.Done():
				check("while it runs")
			}
		case u.nested:
			// Does not wait for a place, so it cannot wait for itself.
			var n atomic.Int64
			err := slices.Access(ctx, make([]int, 3), func(context.Context, int, int, slices.Modifier[int]) error { n.Add(1); return nil }, slices.WithPoolOptions(h.pool, h.nonBlock...))
			if !stopped.Load() && (err != nil || n.Load() != 3) {
				s.Fail("%v: nested Access: %d of 3 calls, error %v", u, n.Load(), err)
			}
		default:
			kit.Work(u.durs[i])
		}
		check("at the end")
		fail := false
		switch u.mode {
		case 1:
			fail = i%2 == 0
		case 2:
			fail = i == u.n/2
		case 3:
			if i == u.n/2 {
				stopped.Store(true)
				cancel()
			}
		}
		if fail {
			err := &userErr{u.user, u.round, i}
			mu.Lock()
			made = append(made, err)
			mu.Unlock()
			if u.mode == 2 && u.api != 0 {
				stopped.Store(true)
			}
			return err
		}
		return nil
	}
	begin := time.Now()
	var err error
	results := 0
	switch u.api {
	case 0:
		var wg sync.WaitGroup
		for i := 0; i < u.n; i++ {
			wg.Add(1)
			if e := pool.Submit(ctx, func(ctx context.Context) { defer wg.Done(); f(ctx, i) }, so...); e != nil {
				s.Fail("%v: Submit: %v", u, e)
				wg.Done()
			}
		}
		wg.Wait()
		err = errors.Join(made...)
	case 1:
		g := group
		g.Pool, g.PoolOptions = pool, so
		gctx := ctx
		if u.mode == 2 {
			var c context.CancelFunc
			gctx, c = context.WithCancel(ctx)
			g.CancelOnErr = c
		}
		for i := 0; i < u.n; i++ {
			g.Go(gctx, func(ctx context.Context) error { return f(ctx, i) })
		}
		err = g.Wait(ctx)
	case 2:
		err = slices.Access(ctx, make([]int, u.n), func(ctx context.Context, i int, _ int, _ slices.Modifier[int]) error { return f(ctx, i) }, sliceOpts(pool, so, u.mode == 2, u.user)...)
	default:
		in := make(chan int, u.n)
		for i := 0; i < u.n; i++ {
			in <- i
		}
		close(in)
		o := chanOpts(pool, so, u.mode == 2, u.user)
		if u.api == 3 {
			err = chans.Access(ctx, in, f, o...)
			break
		}
		out := make(chan chans.StreamResult[int], u.n)
		err = chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, o...)
		for r := range out {
			results++
			if e := new(userErr); errors.As(r.Err, &e) && e.user != u.user {
				s.Fail("%v: its output has the error %v", u, r.Err)
			}
		}
	}
	took := time.Since(begin)
	if started.Load() != ended.Load() {
		s.Fail("%v: returned while %d of its functions run", u, started.Load()-ended.Load())
	}
	if !u.slow && took > time.Second {
		s.Fail("%v: took %v although its functions take a few milliseconds and the pool has places for them", u, took)
	}
	mu.Lock()
	defer mu.Unlock()
	kit.Walk(err, func(e error) bool {
		if x, ok := e.(*userErr); ok && (x.user != u.user || x.round != u.round) {
			s.Fail("%v: its result has an error of another call: %v", u, x)
		}
		return false
	})
	cancelledErr := kit.Walk(err, func(e error) bool { return e == context.Canceled || e == context.DeadlineExceeded })
	if u.mode < 2 || u.mode == 2 && u.api == 0 {
		if int(started.Load()) != u.n {
			s.Fail("%v: %d of %d functions called", u, started.Load(), u.n)
		}
		if u.api == 4 && results != u.n {
			s.Fail("%v: %d results for %d values", u, results, u.n)
		}
		if cancelledErr {
			s.Fail("%v: the result says it was cancelled: %v", u, err)
		}
		for _, e := range made {
			if !errors.Is(err, e) {
				s.Fail("%v: its error %v is not in its result %v", u, e, err)
			}
		}
	}
	if u.mode == 0 && err != nil {
		s.Fail("%v: no function failed and the result is %v", u, err)
	}
	if u.mode == 2 && u.n > 0 && !errors.Is(err, made[0]) {
		s.Fail("%v: its first error %v is not in its result %v", u, made[0], err)
	}
	s.Event(int(started.Load()))
}

func (c x01) run(s *mon.S) {
	pool, _ := kit.NewPool(c.kind, c.size)
	h := &sharer{c: c, s: s, gate: make(chan struct{})}
	rec := &recPool{Pool: pool}
	h.pool = rec
	h.blocking = make([]goroutines.SubmitOption, 0, 8)
	h.nonBlock = make([]goroutines.SubmitOption, 0, 8)
	if c.kind == 1 {
		h.blocking = append(h.blocking, limited.Caller("c"))
		h.nonBlock = append(h.nonBlock, limited.NonBlocking())
	} else {
		h.blocking = append(h.blocking, pooled.Caller("c"))
		h.nonBlock = append(h.nonBlock, pooled.NonBlocking())
	}
	r := rand.New(rand.NewPCG(uint64(c.seed), s.R.Uint64()))

	var slow sync.WaitGroup
	var slowDone atomic.Int64
	for i := 0; i < c.slow; i++ {
		u := use{user: i, api: r.IntN(5), n: c.each, mode: r.IntN(2), slow: true, nonBlock: c.mixed && i%3 == 1}
		slow.Add(1)
		go func() {
			defer slow.Done()
			var g wait.Group
			h.run(u, &g)
			slowDone.Add(1)
		}()
	}
	s.Settle()
	held := c.slow * c.each
	if got := pool.Running(); got != held {
		s.Fail("Running() is %d with %d slow jobs in the pool of %d", got, held, c.size)
	}

	var fast sync.WaitGroup
	for i := 0; i < c.fast; i++ {
		api, mode := r.IntN(5), r.IntN(4)
		us := make([]use, c.rounds)
		for k := range us {
			us[k] = use{user: c.slow + i, round: k, api: api, mode: mode, n: c.n, nonBlock: c.mixed && i%2 == 1, noPool: c.noPool && api != 0 && i%3 == 2, nested: i%5 == 4}
			for range c.n {
				us[k].durs = append(us[k].durs, r.IntN(c.maxDur+1))
			}
			if r.IntN(3) == 0 {
				mode = r.IntN(4)
			}
			if r.IntN(4) == 0 {
				api = r.IntN(5)
			}
		}
		fast.Add(1)
		go func() {
			defer fast.Done()
			var g wait.Group
			for _, u := range us {
				if u.noPool && u.api == 0 {
					u.noPool = false
				}
				if !s.Failed() {
					h.run(u, &g)
				}
			}
		}()
	}
	ok := s.Within(10*minute, "calls that share the pool with slow ones", fast.Wait)
	if ok {
		s.Settle()
		if got := pool.Running(); got != held {
			s.Fail("Running() is %d after the calls, %d slow jobs are in the pool", got, held)
		}
		if n := slowDone.Load(); n != 0 && c.each > 0 {
			s.Fail("%d calls returned while their functions run", n)
		}
		// The places that were free are free again.
		if !c.mixed {
			var n atomic.Int64
			g2 := make(chan struct{})
			for i := 0; i < c.size-held; i++ {
				s.Within(minute, "Submit to a free place", func() {
					if err := rec.Submit(context.Background(), func(context.Context) { n.Add(1); <-g2 }); err != nil {
						s.Fail("Submit: %v", err)
					}
				})
			}
			s.Settle()
			if int(n.Load()) != c.size-held {
				s.Fail("%d jobs run in the %d free places of the pool", n.Load(), c.size-held)
			}
			close(g2)
		}
	}
	close(h.gate)
	if ok {
		s.Within(minute, "slow calls after their functions ended", slow.Wait)
		s.Within(minute, "Wait of the pool", pool.Wait)
		if got := pool.Running(); got != 0 {
			s.Fail("Running() is %d at the end", got)
		}
		if n := rec.closed.Load(); n != 0 {
			s.Fail("the shared pool was closed")
		}
		s.Within(minute, "Close of the pool", pool.Close)
	}
	s.Obs("calls in shared pools", int(h.calls.Load()))
	s.ObsMax("max places in use", int(h.peak.Load()))
}

func genX01(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c x01) {
		if c.slow*c.each >= c.size {
			c.each = 1
			c.slow = c.size - 1
		}
		c.seed = r.IntN(1 << 30)
		cs = append(cs, mon.Case{Name: "shared " + []string{"", "limited", "pooled"}[c.kind], Params: mon.P(c), Run: c.run})
	}
	for kind := 1; kind < 3; kind++ {
		for _, mixed := range []bool{false, true} {
			add(x01{kind: kind, size: 1, fast: 6, n: 4, rounds: 3, maxDur: 3, mixed: mixed})
			add(x01{kind: kind, size: 2, slow: 1, each: 1, fast: 8, n: 6, rounds: 3, maxDur: 4, mixed: mixed})
			add(x01{kind: kind, size: 4, slow: 3, each: 1, fast: 8, n: 7, rounds: 3, maxDur: 4, mixed: mixed})
			add(x01{kind: kind, size: 6, slow: 2, each: 2, fast: 12, n: 9, rounds: 4, maxDur: 6, mixed: mixed, noPool: true})
			add(x01{kind: kind, size: 12, slow: 4, each: 2, fast: 10, n: 20, rounds: 2, maxDur: 3, mixed: mixed})
			add(x01{kind: kind, size: 3, slow: 1, each: 2, fast: 20, n: 3, rounds: 5, maxDur: 0, mixed: mixed})
			add(x01{kind: kind, size: 5, slow: 2, each: 1, fast: 5, n: 1, rounds: 12, maxDur: 2, mixed: mixed, noPool: true})
		}
	}
	n := 24
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		add(x01{kind: 1 + r.IntN(2), size: 1 + r.IntN(9), slow: r.IntN(4), each: 1 + r.IntN(2), fast: 2 + r.IntN(12), n: 1 + r.IntN(14), rounds: 1 + r.IntN(5), maxDur: r.IntN(7), mixed: r.IntN(3) == 0, noPool: r.IntN(3) == 0})
	}
	return cs
}
