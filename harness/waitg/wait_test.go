package waitg

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/kit"
	"verifharness/mon"
)

const minute = time.Minute

// newPool makes pool kind: 0 none, 1 limited, 2 pooled, 3 limited non-blocking, 4 pooled non-blocking.
func newPool(s *mon.S, kind, size int) (goroutines.Pool, []goroutines.SubmitOption) {
	var p goroutines.Pool
	var o []goroutines.SubmitOption
	var err error
	switch kind {
	case 0:
		return nil, nil
	case 1:
		p, err = limited.New("", size)
	case 3:
		p, err = limited.New("", size)
		o = []goroutines.SubmitOption{limited.NonBlocking(), limited.Caller("x")}
	case 2:
		p, err = pooled.New("", size)
	case 4:
		p, err = pooled.New("", size)
		o = []goroutines.SubmitOption{pooled.Caller("x"), pooled.NonBlocking()}
	}
	if err != nil {
		panic(err)
	}
	return p, o
}

func work(d int) {
	switch {
	case d == 0:
	case d == 1:
		runtime.Gosched()
	case d == 2:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(d) * 10 * time.Microsecond)
	}
}

type ctxKey struct{}

// myErr is an error type for errors.As.
type myErr struct{ id int }

func (e *myErr) Error() string { return fmt.Sprintf("myErr %d", e.id) }

type valErr struct{ id int }

func (e valErr) Error() string { return fmt.Sprintf("valErr %d", e.id) }

// ctxLike claims to be context.Canceled but is not the bare error.
type ctxLike struct{ id int }

func (e *ctxLike) Error() string        { return context.Canceled.Error() }
func (e *ctxLike) Is(target error) bool { return target == context.Canceled }

// listErr cannot be compared: doing so panics.
type listErr []int

func (e listErr) Error() string { return fmt.Sprintf("listErr %d", e[0]) }

// nilErr is an error although it is a nil pointer.
type nilErr struct{}

func (e *nilErr) Error() string { return "nilErr" }

// errShared is returned by several functions, in several rounds.
var errShared = errors.New("shared")

// made is an error together with the way to recognise it.
type made struct {
	err  error
	in   func(got error) bool
	anon bool // the same in every round
}

const styles = 12

func mkErr(id, style int) made {
	base := fmt.Errorf("base %d", id)
	is := func(x error) func(error) bool { return func(g error) bool { return errors.Is(g, x) } }
	switch style % styles {
	case 0:
		return made{err: base, in: is(base)}
	case 1:
		e := &myErr{id}
		return made{err: e, in: is(e)}
	case 2:
		w := fmt.Errorf("wrap: %w", base)
		return made{err: w, in: func(g error) bool { return errors.Is(g, w) && errors.Is(g, base) }}
	case 3:
		// Wraps a context error: not a bare one.
		w := fmt.Errorf("wrap: %w", context.Canceled)
		return made{err: w, in: is(w)}
	case 4:
		e := valErr{id}
		return made{err: e, in: is(e)}
	case 5:
		o := &myErr{id}
		j := errors.Join(base, o)
		return made{err: j, in: func(g error) bool { return errors.Is(g, base) && errors.Is(g, o) }}
	case 6:
		w := fmt.Errorf("wrap: %w", context.DeadlineExceeded)
		return made{err: w, in: is(w)}
	case 7:
		e := &ctxLike{id}
		return made{err: e, in: func(g error) bool { return contains(g, e) }}
	case 8:
		return made{err: listErr{id, id}, in: func(g error) bool {
			return walk(g, func(x error) bool { l, ok := x.(listErr); return ok && l[0] == id })
		}}
	case 9:
		var e *nilErr
		return made{err: e, in: is(e), anon: true}
	case 10:
		e := errors.New("")
		return made{err: e, in: is(e)}
	default:
		return made{err: errShared, in: is(errShared), anon: true}
	}
}

// walk says whether f holds somewhere in the error tree.
func walk(g error, f func(error) bool) bool {
	if f(g) {
		return true
	}
	switch x := g.(type) {
	case interface{ Unwrap() error }:
		return x.Unwrap() != nil && walk(x.Unwrap(), f)
	case interface{ Unwrap() []error }:
		for _, y := range x.Unwrap() {
			if walk(y, f) {
				return true
			}
		}
	}
	return false
}

// contains walks the error tree for exactly e.
func contains(g, e error) bool { return walk(g, func(x error) bool { return same(x, e) }) }

// same compares errors, also those that cannot be compared.
func same(a, b error) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok || ok2 {
		return ok && ok2 && x[0] == y[0]
	}
	return a == b
}

// ---------------------------------------------------------------- W01

type w01 struct {
	kind, size, n, nest, rounds int
	maxDur                      int
	precancelPct                int // functions given a context that is already done
	midCancel                   bool
	errPct                      int
	cancelOnErr                 bool
	adders                      int
	exitPct                     int // functions that end with runtime.Goexit
}

func (c w01) run(s *mon.S) {
	pool, opts := newPool(s, c.kind, c.size)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	nestSem := make(chan struct{}, max(c.size-1, 1))
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		type fn struct {
			id           int
			calls, ended atomic.Int32
			mayskip      atomic.Bool
			pre          bool
			fail         error
		}
		var mu sync.Mutex
		var all []*fn
		var executing, added, finished, lastEnd atomic.Int64
		t0 := time.Now()
		base, cancelBase := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, round))
		cancelled := atomic.Int32{}
		if c.cancelOnErr && round%2 == 0 {
			cc := cancelBase
			g.CancelOnErr = func() { cancelled.Add(1); cc() }
		}
		var add func(r *rand.Rand, depth int)
		add = func(r *rand.Rand, depth int) {
			f := &fn{}
			ctx := base
			if r.IntN(100) < c.precancelPct {
				cc, cancel := context.WithCancel(ctx)
				cancel()
				ctx = cc
				f.pre = true
			} else if c.precancelPct > 0 {
				ctx = kit.Ctx(r, base)
				f.pre = ctx != base
			}
			exits := r.IntN(100) < c.exitPct
			d, nested, fails := r.IntN(c.maxDur+1), 0, r.IntN(100) < c.errPct
			if depth > 0 {
				nested = r.IntN(3)
			}
			mu.Lock()
			f.id = len(all)
			all = append(all, f)
			mu.Unlock()
			added.Add(1)
			if fails {
				f.fail = &myErr{f.id}
			}
			r2 := rand.New(rand.NewPCG(r.Uint64(), 3))
			g.Go(ctx, func(ctx context.Context) error {
				if n := executing.Add(1); (c.kind == 1 || c.kind == 2) && n > int64(c.size) {
					s.Fail("%d functions execute at once in a Group with a pool of size %d", n, c.size)
				}
				if pool != nil && pool.Running() < 1 {
					s.Fail("round %d: a function executes while the Group's pool is running nothing", round)
				}
				if n := f.calls.Add(1); n > 1 {
					s.Fail("function called %d times", n)
				}
				if v, _ := ctx.Value(ctxKey{}).(int); v != round {
					s.Fail("function of round %d sees the context of round %v", round, ctx.Value(ctxKey{}))
				}
				if r := g.Running(); r < 1 {
					s.Fail("Running() is %d inside a function", r)
				}
				work(d)
				for i := 0; i < nested; i++ {
					if c.kind == 1 || c.kind == 2 {
						if c.size == 1 {
							break
						}
						select {
						case nestSem <- struct{}{}:
							add(r2, depth-1)
							<-nestSem
						default:
						}
					} else {
						add(r2, depth-1)
					}
				}
				work(d / 2)
				ns := int64(time.Since(t0))
				for {
					o := lastEnd.Load()
					if o >= ns || lastEnd.CompareAndSwap(o, ns) {
						break
					}
				}
				executing.Add(-1)
				f.ended.Add(1)
				finished.Add(1)
				if exits && f.fail == nil {
					s.Obs("functions that end their goroutine", 1)
					runtime.Goexit()
				}
				return f.fail
			})
		}
		var wg sync.WaitGroup
		for a := 0; a < c.adders; a++ {
			r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(a)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < c.n; i++ {
					add(r, c.nest)
				}
			}()
		}
		if c.midCancel {
			d := s.R.IntN(c.maxDur*15 + 1)
			go func() {
				time.Sleep(time.Duration(d) * time.Microsecond)
				cancelBase()
			}()
		}
		// Running is exact at rest.
		for i := 0; i < 3; i++ {
			s.Settle()
			r, ex := int64(g.Running()), executing.Load()
			if r < ex || r > added.Load() {
				s.Fail("at rest: Running() is %d, %d functions execute, %d were added", r, ex, added.Load())
			}
			s.Event(1)
			time.Sleep(time.Duration(s.R.IntN(60)) * time.Microsecond)
		}
		waitCtx := context.Background()
		switch round % 3 {
		case 1: // at some time while functions run
			cc, cancel := context.WithTimeout(waitCtx, time.Duration(s.R.IntN(c.maxDur*15+1))*time.Microsecond)
			defer cancel()
			waitCtx = cc
		case 2:
			cc, cancel := context.WithCancel(waitCtx)
			cancel()
			waitCtx = cc
		}
		var err error
		if !s.Within(10*minute, "Wait", func() {
			wg.Wait()
			err = g.Wait(waitCtx)
			at := time.Since(t0)
			if n := g.Running(); n != 0 {
				s.Fail("Running() is %d when Wait has returned", n)
			}
			skipped, failed := 0, 0
			mu.Lock()
			defer mu.Unlock()
			for _, f := range all {
				n, e := f.calls.Load(), f.ended.Load()
				if n != e {
					s.Fail("Wait returned while function %d was running", f.id)
					return
				}
				if n == 0 {
					skipped++
					if base.Err() == nil && !f.pre {
						s.Fail("function %d was never called", f.id)
						return
					}
				}
				if n > 0 && f.fail != nil {
					failed++
				}
				s.Event(1)
			}
			if skipped > 0 && err == nil {
				s.Fail("Wait returned nil although %d of %d functions were not called", skipped, len(all))
			}
			if skipped == 0 && failed == 0 && err != nil {
				s.Fail("round %d: Wait returned %v although every function was called and returned nil", round, err)
			}
			if late := at - time.Duration(lastEnd.Load()); skipped < len(all) && late > time.Second {
				s.Fail("Wait returned %v after the last function had finished", late)
			}
			s.Obs("functions", len(all))
			s.Obs("skipped because of their context", skipped)
		}) {
			return
		}
		s.Settle()
		if n := g.Running(); n != 0 {
			s.Fail("Running() is %d at rest after Wait", n)
		}
		was := cancelled.Load()
		if g.CancelOnErr != nil {
			s.Fail("CancelOnErr is still set after Wait")
		}
		// A round without CancelOnErr must not call the old one.
		if c.cancelOnErr && round%2 == 0 {
			g.Go(context.Background(), func(context.Context) error { return &myErr{-1} })
			if !s.Within(minute, "Wait", func() { err = g.Wait(context.Background()) }) {
				return
			}
			if err == nil {
				s.Fail("Wait returned nil for a failed function")
			}
			if cancelled.Load() != was {
				s.Fail("the cancel function of an old round was called in a new round")
			}
			s.Obs("old cancel probes", 1)
		}
		cancelBase()
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

// together runs n functions that wait for each other.
func together(s *mon.S, kind, n, rounds int) {
	size := 2
	if kind == 1 || kind == 2 {
		size = n
	}
	pool, opts := newPool(s, kind, size)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	for range rounds {
		gate := make(chan struct{})
		var in, calls atomic.Int64
		for range n {
			if !s.Within(minute, "Go", func() {
				g.Go(context.Background(), func(context.Context) error {
					calls.Add(1)
					in.Add(1)
					<-gate
					in.Add(-1)
					return nil
				})
			}) {
				close(gate)
				return
			}
		}
		s.Settle()
		if got := in.Load(); got != int64(n) {
			s.Fail("%d of %d functions that wait for each other are running", got, n)
		}
		if got := g.Running(); got != n {
			s.Fail("Running() is %d while %d functions run", got, n)
		}
		close(gate)
		var err error
		if !s.Within(minute, "Wait", func() {
			err = g.Wait(context.Background())
			if got := in.Load(); got != 0 {
				s.Fail("Wait returned while %d functions were running", got)
			}
		}) {
			return
		}
		if err != nil || calls.Load() != int64(n) {
			s.Fail("Wait returned %v after %d of %d calls", err, calls.Load(), n)
		}
		s.Event(n)
		s.ObsMax("max functions running together", n)
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

// crowd gives a Group very many functions in one round, the last of which fail.
func crowd(s *mon.S, kind, n int) {
	pool, opts := newPool(s, kind, 8)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	for round := 0; round < 2; round++ {
		calls := make([]atomic.Int32, n)
		fails := []error{errors.New("last but two"), errors.New("last but one"), errors.New("last")}
		for i := 0; i < n; i++ {
			g.Go(context.Background(), func(context.Context) error {
				calls[i].Add(1)
				if round == 0 && i >= n-3 {
					return fails[i-(n-3)]
				}
				return nil
			})
		}
		var err error
		if !s.Within(time.Hour, "Wait", func() { err = g.Wait(context.Background()) }) {
			return
		}
		for i := range calls {
			if c := calls[i].Load(); c != 1 {
				s.Fail("function %d of %d was called %d times", i, n, c)
				return
			}
		}
		for _, e := range fails {
			if errors.Is(err, e) != (round == 0) {
				s.Fail("round %d: %v in the result: %v", round, e, errors.Is(err, e))
			}
		}
		if r := g.Running(); r != 0 {
			s.Fail("Running() is %d after Wait", r)
		}
		s.Event(n)
	}
	if pool != nil {
		s.Within(time.Hour, "Close of the pool", pool.Close)
	}
}

func genW01(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, 70000)
	add := func(c w01) { cs = append(cs, mon.Case{Name: "rounds", Params: mon.P(c), Run: c.run}) }
	for kind := 0; kind < 5; kind++ {
		add(w01{kind: kind, size: 3, n: 20, adders: 1, rounds: 3, maxDur: 4})
		add(w01{kind: kind, size: 4, n: 6, adders: 3, nest: 2, rounds: 3, maxDur: 5, errPct: 10, cancelOnErr: true})
		add(w01{kind: kind, size: 2, n: 12, adders: 2, rounds: 4, maxDur: 6, precancelPct: 20, errPct: 5})
		add(w01{kind: kind, size: 2, n: 1, adders: 1, rounds: 12, maxDur: 0})
		add(w01{kind: kind, size: 3, n: 15, adders: 2, rounds: 4, maxDur: 8, midCancel: true})
		add(w01{kind: kind, size: 1, n: 5, adders: 1, rounds: 3, maxDur: 3})
		add(w01{kind: kind, size: 8, n: 300, adders: 1, rounds: 2, maxDur: 2})
		add(w01{kind: kind, size: 2, n: 0, adders: 1, rounds: 3})
		add(w01{kind: kind, size: 2, n: 10, adders: 2, rounds: 3, maxDur: 3, exitPct: 20, precancelPct: 5})
	}
	for kind := 0; kind < 5; kind++ {
		cs = append(cs, mon.Case{Name: "many together", Params: fmt.Sprintf("kind=%d n=1500", kind), Run: func(s *mon.S) { together(s, kind, 1500, 2) }, Reps: 2})
		cs = append(cs, mon.Case{Name: "many together", Params: fmt.Sprintf("kind=%d n=30", kind), Run: func(s *mon.S) { together(s, kind, 30, 4) }, Reps: 4})
	}
	for kind := 0; kind < 5; kind++ {
		cs = append(cs, mon.Case{Name: "crowd", Params: fmt.Sprintf("kind=%d n=67000", kind), Run: func(s *mon.S) { crowd(s, kind, 67000) }, Reps: 1, Calm: true})
	}
	n := 10
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		add(w01{kind: r.IntN(5), size: 1 + r.IntN(8), n: r.IntN(25), adders: 1 + r.IntN(4), nest: r.IntN(3), rounds: 1 + r.IntN(5), maxDur: r.IntN(8), precancelPct: r.IntN(2) * r.IntN(40), midCancel: r.IntN(4) == 0, errPct: r.IntN(2) * r.IntN(50), cancelOnErr: r.IntN(2) == 0, exitPct: r.IntN(3) / 2 * 10})
	}
	return cs
}

// ---------------------------------------------------------------- W02

type w02 struct {
	kind, size, n, fails int
	simultaneous         bool
	rounds               int
	bare                 int // 0 none, 1 bare context errors come after the first error, 2 before, 3 at any time, 4 certainly first
	styleFrom            int
	cancelOnErr          bool
	long                 int // length of the text of the errors
	ownCtx               int // percentage of the functions whose context is done when they return
}

func (c w02) run(s *mon.S) {
	pool, opts := newPool(s, c.kind, c.size)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	var old []made
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		fails := c.fails
		if round%4 == 3 {
			fails = 0
		}
		base := context.Background()
		cancelFn := context.CancelFunc(func() {})
		if c.cancelOnErr {
			// A cancel function that does not concern the functions.
			_, cancelFn = context.WithCancel(base)
			g.CancelOnErr = cancelFn
		}
		var mu sync.Mutex
		var got []made
		gate := make(chan struct{})
		start := time.Now()
		ids := s.R.Perm(c.n)
		bareAt := func(i int) bool { return false }
		switch c.bare {
		case 1, 2, 4:
			bareAt = func(i int) bool { return i%3 == 1 && fails > 0 }
		case 3:
			bareAt = func(i int) bool { return i%3 == 1 && fails > 0 }
		}
		nbare := 0
		for i := 0; i < c.n; i++ {
			id := ids[i]
			isBare := bareAt(i)
			if isBare {
				nbare++
			}
			style := c.styleFrom + id
			d := s.R.IntN(50)
			ctx, cancel := base, context.CancelFunc(func() {})
			if s.R.IntN(100) < c.ownCtx {
				if s.R.IntN(2) == 0 {
					ctx, cancel = context.WithCancel(base)
				} else {
					c, cl := context.WithCancelCause(base)
					ctx, cancel = c, func() { cl(errors.New("cause")) }
				}
			}
			g.Go(ctx, func(ctx context.Context) error {
				defer cancel()
				if c.simultaneous {
					<-gate
				}
				if isBare {
					switch c.bare {
					case 1: // certainly after the first error
						time.Sleep(time.Hour - time.Since(start) + time.Duration(d)*time.Microsecond)
					case 2: // certainly before
						time.Sleep(time.Duration(d) * time.Microsecond)
					case 3:
						if !c.simultaneous {
							time.Sleep(time.Duration(d) * time.Millisecond)
						}
					}
					if id%2 == 0 {
						return context.DeadlineExceeded
					}
					return context.Canceled
				}
				if c.bare == 4 {
					time.Sleep(time.Hour)
				} else if !c.simultaneous || c.bare == 1 || c.bare == 2 {
					time.Sleep(time.Millisecond + time.Duration(d)*time.Millisecond)
				}
				if id >= fails {
					return nil
				}
				e := mkErr(id+1000*round, style)
				cancel()
				if c.long > 0 {
					w := fmt.Errorf("%s: %w", strings.Repeat("x", c.long), e.err)
					e = made{err: w, in: func(g error) bool { return errors.Is(g, w) }}
				}
				mu.Lock()
				got = append(got, e)
				mu.Unlock()
				return e.err
			})
		}
		if c.simultaneous {
			s.Settle()
			close(gate)
		}
		var err error
		waitCtx := context.Background()
		switch s.R.IntN(4) {
		case 0:
			waitCtx, _ = context.WithDeadline(waitCtx, time.Unix(1, 0))
		case 1:
			c, cancel := context.WithCancel(waitCtx)
			cancel()
			waitCtx = c
		}
		if !s.Within(100*time.Hour, "Wait", func() { err = g.Wait(waitCtx) }) {
			return
		}
		cancelFn()
		mu.Lock()
		if len(got) == 0 && nbare == 0 && err != nil {
			s.Fail("round %d: Wait returned %v although no function failed", round, err)
		}
		if (len(got) > 0 || nbare > 0) && err == nil {
			s.Fail("round %d: Wait returned nil although %d functions failed", round, len(got)+nbare)
		}
		for _, e := range got {
			if !e.in(err) {
				s.Fail("round %d: %d functions failed, Wait's error does not contain %q (%T): %q", round, len(got), e.err, e.err, err)
				break
			}
			s.Event(1)
		}
		for _, e := range old {
			if !e.anon && contains(err, e.err) {
				s.Fail("round %d: Wait's error contains %q of an earlier round", round, e.err)
				break
			}
		}
		if c.bare == 1 && len(got) > 0 {
			for _, b := range []error{context.Canceled, context.DeadlineExceeded} {
				if contains(stripOwn(err, got), b) {
					s.Fail("round %d: Wait's error contains a bare %v that was not the first error: %q", round, b, err)
				}
			}
			s.Event(1)
		}
		// Without a place to wait for, the context errors came first: the first of them counts.
		if c.bare == 4 && nbare > 0 && c.kind != 1 && c.kind != 2 {
			rest := stripOwn(err, got)
			if !contains(rest, context.Canceled) && !contains(rest, context.DeadlineExceeded) {
				s.Fail("round %d: Wait's error does not contain the first error, a context error: %v", round, err)
			}
			s.Obs("context errors that came first", 1)
			s.Event(1)
		}
		if err == nil {
			s.Event(1)
		}
		old = append(old, got...)
		s.Obs("errors", len(got))
		s.Obs("bare context errors", nbare)
		s.ObsMax("max errors in a round", len(got))
		mu.Unlock()
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

// oneStyle lets one, two or three functions fail with errors of one kind, one after the other.
func oneStyle(s *mon.S, kind, style int) {
	pool, opts := newPool(s, kind, 2)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	for n := 1; n <= 3 && !s.Failed(); n++ {
		var all []made
		for i := 0; i < n; i++ {
			e := mkErr(10*n+i, style)
			if n == 3 && i == 1 {
				e = mkErr(31, 0)
			}
			all = append(all, e)
			g.Go(context.Background(), func(context.Context) error {
				time.Sleep(time.Duration(i) * time.Millisecond)
				return e.err
			})
		}
		var err error
		if !s.Within(minute, "Wait", func() { err = g.Wait(context.Background()) }) {
			return
		}
		for _, e := range all {
			if err == nil || !e.in(err) {
				s.Fail("%d functions failed, Wait's error does not contain %q (%T): %v", n, e.err, e.err, err)
			}
			s.Event(1)
		}
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

// stripOwn removes the errors functions returned themselves (which may wrap
// context errors) from the tree.
func stripOwn(g error, own []made) error {
	for _, o := range own {
		if same(g, o.err) {
			return nil
		}
	}
	switch x := g.(type) {
	case interface{ Unwrap() error }:
		return stripOwn(x.Unwrap(), own)
	case interface{ Unwrap() []error }:
		var l []error
		for _, y := range x.Unwrap() {
			if z := stripOwn(y, own); z != nil {
				l = append(l, z)
			}
		}
		return errors.Join(l...)
	}
	return g
}

func genW02(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, 300)
	add := func(c w02) { cs = append(cs, mon.Case{Name: "errors", Params: mon.P(c), Run: c.run}) }
	for order := 0; order < 5; order++ {
		for kind := 0; kind < 5; kind++ {
			cs = append(cs, mon.Case{Name: "errors with Is methods", Params: fmt.Sprintf("kind=%d order=%d", kind, order), Run: func(s *mon.S) { claims(s, kind, order) }, Reps: 3})
		}
	}
	for kind := 0; kind < 5; kind++ {
		// In a blocking pool all functions must fit when they wait for each other.
		add(w02{kind: kind, size: 16, n: 16, fails: 16, simultaneous: true, rounds: 4})
		add(w02{kind: kind, size: 4, n: 20, fails: 7, rounds: 5, styleFrom: 1})
		add(w02{kind: kind, size: 4, n: 3, fails: 1, rounds: 5, styleFrom: kind})
		add(w02{kind: kind, size: 12, n: 12, fails: 12, rounds: 2, bare: 1, styleFrom: 2})
		add(w02{kind: kind, size: 12, n: 12, fails: 12, rounds: 2, bare: 2, styleFrom: 3})
		add(w02{kind: kind, size: 12, n: 9, fails: 9, rounds: 3, bare: 4, styleFrom: kind})
		add(w02{kind: kind, size: 12, n: 12, fails: 8, rounds: 4, bare: 3, simultaneous: true, cancelOnErr: true})
		add(w02{kind: kind, size: 2, n: 2, fails: 2, simultaneous: true, rounds: 8, styleFrom: 4})
		add(w02{kind: kind, size: 9, n: 9, fails: 6, simultaneous: true, rounds: 4, styleFrom: kind, ownCtx: 50})
		add(w02{kind: kind, size: 3, n: 6, fails: 3, rounds: 4, styleFrom: 5 + kind, ownCtx: 100})
	}
	for st := 0; st < styles; st++ { // each kind of error alone, and twice
		for kind := 0; kind < 5; kind++ {
			cs = append(cs, mon.Case{Name: "one kind of error", Params: fmt.Sprintf("kind=%d style=%d", kind, st), Run: func(s *mon.S) {
				oneStyle(s, kind, st)
			}, Reps: 4})
		}
	}
	add(w02{kind: 0, n: 200, fails: 200, simultaneous: true, rounds: 1})
	for kind := 0; kind < 5; kind++ {
		for _, c := range []w02{{kind: kind, size: 6, n: 1200, fails: 1100, rounds: 1, long: 300 * (kind % 2)}, {kind: kind, size: 2, n: 40, fails: 40, rounds: 2, long: 3000}} {
			cs = append(cs, mon.Case{Name: "many errors", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	// In a non-blocking pool the functions need not fit.
	add(w02{kind: 3, size: 1, n: 20, fails: 9, simultaneous: true, rounds: 3})
	add(w02{kind: 4, size: 1, n: 20, fails: 9, simultaneous: true, rounds: 3})
	n := 10
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		c := w02{kind: r.IntN(5), n: 1 + r.IntN(24), simultaneous: r.IntN(2) == 0, rounds: 1 + r.IntN(5), bare: r.IntN(5), styleFrom: r.IntN(styles), cancelOnErr: r.IntN(2) == 0, ownCtx: r.IntN(2) * r.IntN(100)}
		c.fails = r.IntN(c.n + 1)
		c.size = c.n
		if !c.simultaneous && c.bare == 0 {
			c.size = 1 + r.IntN(c.n)
		}
		add(c)
	}
	return cs
}

// ---------------------------------------------------------------- W03

type w03 struct {
	kind, size, n int
	failAt        int // index of the failing function, -1 none
	failAfter     int // virtual µs after its start
	style         int // error style, -1 bare context.Canceled, -2 bare context.DeadlineExceeded
	late          int // functions added after the cancellation
	rounds        int
	blockers      bool // the other functions run until they see the cancellation
	two           bool // a second function fails much later
	skip          int  // functions added first whose own context is done
}

func (c w03) run(s *mon.S) {
	pool, opts := newPool(s, c.kind, c.size)
	g := &wait.Group{Pool: pool, PoolOptions: opts}
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		ctx, cancelCtx := context.WithCancel(context.Background())
		var calls atomic.Int32
		var cancelAt atomic.Int64
		start := time.Now()
		vnow := func() int64 { return int64(time.Since(start)) }
		cancelAt.Store(-1)
		g.CancelOnErr = func() {
			calls.Add(1)
			cancelAt.CompareAndSwap(-1, vnow())
			cancelCtx()
		}
		var failTime atomic.Int64
		failTime.Store(-1)
		failed := make(chan struct{})
		var running, finished atomic.Int64
		sawCancel := make([]atomic.Int64, c.n+c.late)
		settled := atomic.Bool{}
		var failErr error
		fn := func(i int) wait.FuncCall {
			return func(ctx context.Context) error {
				running.Add(1)
				defer running.Add(-1)
				defer finished.Add(1)
				if settled.Load() {
					s.Fail("function %d started after the cancellation had settled", i)
				}
				if ft := failTime.Load(); ft >= 0 && vnow() > ft {
					s.Fail("function %d started %v after the failure", i, time.Duration(vnow()-ft))
				}
				if i == c.failAt {
					time.Sleep(time.Duration(c.failAfter) * time.Microsecond)
					failTime.CompareAndSwap(-1, vnow())
					switch c.style {
					case -1:
						failErr = context.Canceled
					case -2:
						failErr = context.DeadlineExceeded
					default:
						failErr = mkErr(i, c.style).err
					}
					close(failed)
					return failErr
				}
				if c.failAt >= 0 && c.blockers {
					<-ctx.Done()
					sawCancel[i].Store(vnow() + 1)
					// Keep running: the cancel function must not have waited for this.
					time.Sleep(10 * time.Millisecond)
					if c.two {
						return &myErr{i}
					}
					return nil
				}
				time.Sleep(time.Duration(1+i%7) * 10 * time.Microsecond)
				if c.failAt < 0 {
					if ctx.Err() != nil || calls.Load() != 0 {
						s.Fail("the context was cancelled (%d calls of the cancel function) while function %d was running and none had failed", calls.Load(), i)
					}
				}
				return nil
			}
		}
		addDone := make(chan struct{})
		go func() {
			defer close(addDone)
			for i := 0; i < c.skip; i++ {
				// No function fails by this: it is never called.
				own, cancel := context.WithCancel(ctx)
				cancel()
				g.Go(own, func(context.Context) error { return nil })
			}
			for i := 0; i < c.n; i++ {
				g.Go(ctx, fn(i))
			}
		}()
		if c.failAt >= 0 {
			if !mon.Recv(failed, minute) {
				s.Fail("function %d never ran\n%s", c.failAt, mon.Blocked())
				return
			}
			s.Settle()
			if calls.Load() == 0 {
				s.Fail("function %d failed, %d others are running, and the cancel function is not called", c.failAt, running.Load())
				return
			}
			if at, ft := cancelAt.Load(), failTime.Load(); at-ft > int64(time.Millisecond) {
				s.Fail("the cancel function was called %v after the failure", time.Duration(at-ft))
			}
			settled.Store(true)
			s.Event(1)
			for i := 0; i < c.late; i++ {
				i := c.n + i
				if !s.Within(minute, "Go", func() { g.Go(ctx, fn(i)) }) {
					return
				}
			}
		} else {
			if !s.Within(minute, "adding functions", func() { <-addDone }) {
				return
			}
			s.Settle()
			if finished.Load() < int64(c.n) && calls.Load() != 0 {
				s.Fail("the cancel function was called although no function failed and %d are still to finish", int64(c.n)-finished.Load())
			}
			s.Event(1)
		}
		var err error
		var n int32
		if !s.Within(10*minute, "Wait", func() {
			<-addDone
			err = g.Wait(context.Background())
			n = calls.Load()
		}) {
			return
		}
		if n == 0 {
			s.Fail("Wait returned and the cancel function was never called")
		}
		if c.skip == 0 && (c.failAt >= 0) != (err != nil) {
			s.Fail("Wait returned %v", err)
		}
		s.Event(1)
		s.Obs("functions run", int(finished.Load()))
		s.Obs("rounds", 1)
		cancelCtx()
	}
	if pool != nil {
		s.Within(minute, "Close of the pool", pool.Close)
	}
}

func genW03(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, 300)
	add := func(c w03) { cs = append(cs, mon.Case{Name: "cancel", Params: mon.P(c), Run: c.run}) }
	for kind := 0; kind < 5; kind++ {
		blocking := kind == 1 || kind == 2
		add(w03{kind: kind, size: 6, n: 6, failAt: 2, failAfter: 50, blockers: true, late: 3, rounds: 3})
		add(w03{kind: kind, size: 6, n: 6, failAt: 5, failAfter: 0, blockers: true, rounds: 2, two: true, style: 1})
		add(w03{kind: kind, size: 3, n: 12, failAt: -1, rounds: 4})
		add(w03{kind: kind, size: 1, n: 1, failAt: 0, failAfter: 5, late: 2, rounds: 3, style: -1})
		add(w03{kind: kind, size: 1, n: 4, failAt: -1, rounds: 2})
		add(w03{kind: kind, size: 1, n: 0, failAt: -1, rounds: 3})
		add(w03{kind: kind, size: 2, n: 5, failAt: -1, rounds: 3, skip: 1})
		add(w03{kind: kind, size: 2, n: 5, failAt: 1, failAfter: 9, blockers: true, rounds: 2, skip: 3})
		for st := -2; st < styles; st++ {
			c := w03{kind: kind, size: 3, n: 3, failAt: (st + 2) % 3, failAfter: 3, blockers: true, rounds: 2, style: st}
			cs = append(cs, mon.Case{Name: "kinds of errors", Params: mon.P(c), Run: c.run, Reps: 4})
		}
		if blocking { // functions queued for a place when the failure happens
			add(w03{kind: kind, size: 3, n: 12, failAt: 0, failAfter: 30, blockers: true, rounds: 3, style: 2})
			add(w03{kind: kind, size: 1, n: 8, failAt: 0, failAfter: 30, rounds: 3, style: 3})
			add(w03{kind: kind, size: 2, n: 20, failAt: 1, failAfter: 100, blockers: true, rounds: 2, late: 2, style: 4})
		} else {
			add(w03{kind: kind, size: 1, n: 30, failAt: 17, failAfter: 20, blockers: true, late: 5, rounds: 2, style: 3})
		}
	}
	n := 10
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		c := w03{kind: r.IntN(5), n: 1 + r.IntN(16), failAfter: r.IntN(100), style: r.IntN(styles+2) - 2, late: r.IntN(4), rounds: 1 + r.IntN(3), blockers: r.IntN(2) == 0, two: r.IntN(2) == 0}
		c.failAt = r.IntN(c.n+1) - 1
		c.size = 1 + r.IntN(c.n)
		if c.failAt >= c.size { // it must be able to run
			c.size = c.failAt + 1
		}
		add(c)
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"W01": {Gen: genW01, Twins: 16, Reps: 20, MinEvents: 1000, Rule: "a case is a pool kind, number of functions and adders, nesting, rounds on one Group, errors and cancelled contexts; distinct by parameters and order of library steps"},
		"W02": {Gen: genW02, Twins: 16, Reps: 24, MinEvents: 1000, Rule: "a case is a pool kind, a number of functions, how many fail, with which kinds of errors and when, over several rounds of one Group; distinct by parameters and order of library steps"},
		"W03": {Gen: genW03, Twins: 16, Reps: 24, MinEvents: 500, Rule: "a case is a pool kind and size, the position and time of the failing function (or none), running, queued and later functions; distinct by parameters and order of library steps"},
	})
}
