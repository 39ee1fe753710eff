package prims

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"

	"verifharness/kit"
	"verifharness/mon"
)

const minute = time.Minute

// sliceOpts makes the option list in one of several orders.
func sliceOpts(pool goroutines.Pool, so []goroutines.SubmitOption, stop bool, order int) []slices.SliceOption {
	var o []slices.SliceOption
	p := func() {
		if pool != nil {
			o = append(o, slices.WithPoolOptions(pool, so...))
		}
	}
	st := func() {
		if stop {
			o = append(o, slices.WithStopOnErr())
		}
	}
	switch order % 4 {
	case 0:
		p()
		st()
	case 1:
		st()
		p()
	case 2:
		st()
		p()
		st()
	case 3:
		p()
		p()
		st()
	}
	return o
}

func chanOpts(pool goroutines.Pool, so []goroutines.SubmitOption, stop bool, order int) []chans.Option {
	var o []chans.Option
	p := func() {
		if pool != nil {
			o = append(o, chans.WithPoolOptions(pool, so...))
		}
	}
	st := func() {
		if stop {
			o = append(o, chans.WithStopOnErr())
		}
	}
	switch order % 4 {
	case 0:
		p()
		st()
	case 1:
		st()
		p()
	case 2:
		st()
		p()
		st()
	case 3:
		p()
		p()
		st()
	}
	return o
}

func closePool(s *mon.S, p goroutines.Pool) {
	if p != nil && !s.Failed() {
		s.Within(minute, "Close of the pool after use", p.Close)
	}
}

// ---------------------------------------------------------------- S01

type s01 struct {
	typ, n, extra int
	kind, size    int
	mod           int // 0 none, 1 once, 2 twice, 3 from another goroutine, 4 some elements only
	maxDur        int
	stop          bool
	order         int
	fails         int
	first         int // the failures are among so many first elements, 0 all
	parallel      int // Access calls at the same time on adjacent parts of one array
	cancelable    bool
}

type big struct {
	A [48]int
	S string
}

func (c s01) run(s *mon.S) {
	switch c.typ {
	case 0:
		runS01(s, c, func(i int) int { return i })
	case 1:
		runS01(s, c, func(i int) string { return fmt.Sprint("v", i) })
	case 2:
		runS01(s, c, func(i int) byte { return byte(i * 7) })
	case 3:
		runS01(s, c, func(i int) big {
			b := big{S: fmt.Sprint(i)}
			for k := range b.A {
				b.A[k] = i
			}
			return b
		})
	case 4:
		all := make([]*int, 8000)
		for i := range all {
			all[i] = new(int)
		}
		runS01(s, c, func(i int) *int { return all[i%8000] })
	case 5:
		runS01(s, c, func(i int) any {
			switch i % 4 {
			case 0:
				return nil
			case 1:
				return i
			case 2:
				return fmt.Sprint(i)
			}
			return valErr{i}
		})
	case 6:
		runS01(s, c, func(i int) struct{} { return struct{}{} })
	case 7:
		runS01(s, c, func(i int) error {
			if i%2 == 0 {
				return nil
			}
			return valErr{i}
		})
	}
}

type valErr struct{ id int }

func (e valErr) Error() string { return fmt.Sprint("valErr ", e.id) }

func runS01[T comparable](s *mon.S, c s01, mk func(int) T) {
	pool, so := kit.NewPool(c.kind, c.size)
	const guard = 3
	par := max(c.parallel, 1)
	total := guard + par*(c.n+c.extra) + guard
	arr := make([]T, total)
	want := make([]T, total)
	for i := range arr {
		arr[i] = mk(i)
		want[i] = arr[i]
	}
	orig := append([]T(nil), arr...)
	var wg sync.WaitGroup
	for k := 0; k < par; k++ {
		lo := guard + k*(c.n+c.extra)
		sl := arr[lo : lo+c.n : lo+c.n+c.extra]
		r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(k)))
		durs := make([]int, c.n)
		fail := map[int]kit.Made{}
		for i := range durs {
			durs[i] = r.IntN(c.maxDur + 1)
		}
		for i := 0; i < c.fails && c.n > 0; i++ {
			j := r.IntN(c.n)
			if c.first > 0 {
				j %= c.first
			}
			fail[j] = kit.MkErr(j, i)
		}
		one := func() {
			defer wg.Done()
			calls := make([]atomic.Int32, c.n)
			ended := make([]atomic.Int32, c.n)
			var bad atomic.Bool
			ctx := context.WithValue(context.Background(), kit.Key{}, k)
			if c.cancelable {
				cc, cancel := context.WithCancel(ctx)
				defer cancel()
				ctx = cc
			}
			var returned atomic.Bool
			acc := func(ctx context.Context, i int, v T, m slices.Modifier[T]) error {
				if returned.Load() {
					s.Fail("accessor called after Access had returned")
				}
				if i < 0 || i >= c.n {
					s.Fail("accessor called with index %d of %d", i, c.n)
					bad.Store(true)
					return nil
				}
				if n := calls[i].Add(1); n > 1 {
					s.Fail("accessor called %d times for index %d", n, i)
				}
				if v != orig[lo+i] {
					s.Fail("accessor for index %d got the value %v, want %v", i, v, orig[lo+i])
				}
				if ctx.Value(kit.Key{}) != k {
					s.Fail("accessor got another context")
				}
				kit.Work(durs[i])
				set := func(x T) {
					m(x)
					if sl[i] != x {
						s.Fail("element %d of %d is %v after its modifier was called with %v", i, c.n, sl[i], x)
					}
				}
				switch c.mod {
				case 1:
					set(mk(1000 + i))
				case 2:
					set(mk(2000 + i))
					kit.Work(durs[i] / 2)
					set(mk(3000 + i))
				case 3:
					done := make(chan struct{})
					go func() { m(mk(4000 + i)); close(done) }()
					<-done
				case 4:
					if i%3 == 1 {
						set(mk(5000 + i))
					}
				}
				kit.Work(durs[i])
				ended[i].Add(1)
				return fail[i].Err
			}
			for i := 0; i < c.n; i++ {
				switch c.mod {
				case 1:
					want[lo+i] = mk(1000 + i)
				case 2:
					want[lo+i] = mk(3000 + i)
				case 3:
					want[lo+i] = mk(4000 + i)
				case 4:
					if i%3 == 1 {
						want[lo+i] = mk(5000 + i)
					}
				}
			}
			err := slices.Access(ctx, sl, acc, sliceOpts(pool, so, c.stop, c.order)...)
			returned.Store(true)
			for i := range calls {
				n, e := calls[i].Load(), ended[i].Load()
				if n != e {
					s.Fail("Access returned while the accessor of index %d was running", i)
					return
				}
				if n != 1 && !(c.stop && c.fails > 0) {
					s.Fail("accessor called %d times for index %d of %d", n, i, c.n)
					return
				}
				if n == 0 && err == nil {
					s.Fail("Access returned nil although index %d of %d was not visited", i, c.n)
					return
				}
				if n == 0 {
					want[lo+i] = orig[lo+i]
				}
				s.Event(1)
			}
			if err != nil && len(fail) == 0 {
				s.Fail("Access returned %v although all accessor calls returned nil", err)
			}
			if err == nil && len(fail) > 0 {
				s.Fail("Access returned nil although an accessor failed")
			}
			snap := append([]T(nil), sl...)
			for i := range snap {
				if snap[i] != want[lo+i] {
					s.Fail("element %d of %d is %v, want %v", i, c.n, snap[i], want[lo+i])
					return
				}
			}
			s.Obs("elements", c.n)
			if c.n == 0 {
				s.Event(1)
			}
		}
		wg.Add(1)
		go one()
	}
	if !s.Within(10*minute, "Access", wg.Wait) {
		return
	}
	time.Sleep(time.Second)
	for i := range arr {
		if arr[i] != want[i] {
			s.Fail("array element %d (guards %d, parts of %d+%d) is %v later, want %v", i, guard, c.n, c.extra, arr[i], want[i])
			break
		}
	}
	closePool(s, pool)
}

// nilSlice visits nothing.
func nilSlice(s *mon.S) {
	for order := 0; order < 4; order++ {
		for kind := 0; kind < 5; kind++ {
			pool, so := kit.NewPool(kind, 2)
			s.Within(minute, "Access of a nil slice", func() {
				var none []int
				err := slices.Access(context.Background(), none, func(context.Context, int, int, slices.Modifier[int]) error {
					s.Fail("accessor called for a nil slice")
					return nil
				}, sliceOpts(pool, so, order > 1, order)...)
				if err != nil {
					s.Fail("Access of a nil slice returned %v", err)
				}
			})
			s.Event(1)
			closePool(s, pool)
		}
	}
}

func genS01(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, []int{0}, []int{0})
	add := func(c s01) { cs = append(cs, mon.Case{Name: "access", Params: mon.P(c), Run: c.run}) }
	nc := runtime.NumCPU()
	for typ := 0; typ < 8; typ++ {
		for i, n := range []int{0, 1, 2, nc - 1, nc, nc + 1, 40, 250} {
			add(s01{typ: typ, n: n, extra: i % 3, kind: (typ + i) % 5, size: 1 + (typ+i)%4, mod: (typ + i) % 5, maxDur: i % 6, order: i, cancelable: i%2 == 0})
		}
		add(s01{typ: typ, n: 20, extra: 2, kind: typ % 5, size: 3, mod: 1, maxDur: 5, parallel: 3, order: typ})
		add(s01{typ: typ, n: 20, extra: 1, kind: (typ + 2) % 5, size: 3, mod: 4, maxDur: 5, fails: 3, stop: typ%2 == 0, order: typ})
	}
	cs = append(cs, mon.Case{Name: "nil slice", Run: nilSlice, Reps: 2})
	add(s01{typ: 0, n: 1000, kind: 0, mod: 1, maxDur: 2})
	add(s01{typ: 2, n: 1000, kind: 0, mod: 2, maxDur: 2})
	for kind := 0; kind < 5; kind += 3 {
		c := s01{typ: 2 - kind%2*2, n: 67000 + kind, kind: kind, size: 8, mod: 1}
		cs = append(cs, mon.Case{Name: "long", Params: mon.P(c), Run: c.run, Reps: 1})
		for i, n := range []int{5000, 66000} {
			c := s01{typ: i, n: n, kind: kind + i, size: 8, mod: 1, fails: 3, first: 1000}
			cs = append(cs, mon.Case{Name: "long", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	n := 20
	if thorough {
		n = 120
	}
	for i := 0; i < n; i++ {
		add(s01{typ: r.IntN(8), n: r.IntN(60), extra: r.IntN(4), kind: r.IntN(5), size: 1 + r.IntN(10), mod: r.IntN(5), maxDur: r.IntN(8), stop: r.IntN(2) == 0, order: r.IntN(4), fails: r.IntN(3) * r.IntN(3), parallel: r.IntN(4), cancelable: r.IntN(2) == 0})
	}
	return cs
}

// ---------------------------------------------------------------- early stop, common part

// stopper watches accessor calls of a run that is stopped by an error or a
// cancellation.
type stopper struct {
	s       *mon.S
	start   time.Time
	stopAt  atomic.Int64 // virtual time at which it must stop, -1 none yet
	calls   atomic.Int64
	running atomic.Int64
	lastEnd atomic.Int64
}

func newStopper(s *mon.S) *stopper {
	st := &stopper{s: s, start: time.Now()}
	st.stopAt.Store(-1)
	return st
}

func (st *stopper) now() int64 { return int64(time.Since(st.start)) }

func (st *stopper) enter(id int) {
	st.calls.Add(1)
	st.running.Add(1)
	if at := st.stopAt.Load(); at >= 0 && st.now() > at {
		st.s.Fail("accessor of %d started %v after the stop", id, time.Duration(st.now()-at))
	}
}

func (st *stopper) leave() {
	kit.Max(&st.lastEnd, st.now())
	st.running.Add(-1)
}

// stop notes that from now on nothing may start.
func (st *stopper) stop() { st.stopAt.CompareAndSwap(-1, st.now()) }

// ---------------------------------------------------------------- S02

type s02 struct {
	n, kind, size int
	mode          int // 0 errors without stop, 1 stop on error, 2 cancellation
	fails         int
	style         int
	failAt        int // µs
	hold          bool
	how           int // cancellation: 0 cancel, 1 deadline, 2 before the call, 3 cause, 4 deadline passed
	at            int // µs
	order         int
	busy          int // foreign jobs occupying the pool
	stop          bool
	simultaneous  bool
}

func cancelCtx(how, at int) (context.Context, context.CancelFunc) {
	ctx := context.WithValue(context.Background(), kit.Key{}, 7)
	d := time.Duration(at) * time.Microsecond
	switch how {
	case 0:
		c, cancel := context.WithCancel(ctx)
		time.AfterFunc(d, cancel)
		return c, cancel
	case 1:
		return context.WithTimeout(ctx, d)
	case 2:
		c, cancel := context.WithCancel(ctx)
		cancel()
		return c, cancel
	case 3:
		c, cancel := context.WithCancelCause(ctx)
		time.AfterFunc(d, func() { cancel(errors.New("cause")) })
		return c, func() { cancel(nil) }
	default:
		return context.WithDeadline(ctx, time.Now().Add(-time.Second))
	}
}

func occupy(s *mon.S, pool goroutines.Pool, busy int) (release func()) {
	gate := make(chan struct{})
	if pool == nil {
		return func() {}
	}
	for i := 0; i < busy; i++ {
		if err := pool.Submit(context.Background(), func(context.Context) { <-gate }); err != nil {
			s.Fail("Submit: %v", err)
		}
	}
	return func() { close(gate) }
}

func (c s02) run(s *mon.S) {
	pool, so := kit.NewPool(c.kind, c.size)
	st := newStopper(s)
	release := occupy(s, pool, c.busy)
	in := make([]int, c.n)
	var mu sync.Mutex
	var got []kit.Made
	var firsts []kit.Made
	firstAt := int64(-1)
	failing := map[int]int{}
	for k, i := range s.R.Perm(c.n) {
		if k < c.fails {
			failing[i] = k
		}
	}
	durs := make([]int, c.n)
	for i := range durs {
		durs[i] = 10 + 10*s.R.IntN(40)
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), kit.Key{}, 7))
	if c.mode == 2 {
		cancel()
		ctx, cancel = cancelCtx(c.how, c.at)
		if c.how == 2 || c.how == 4 {
			// Nothing at all may start.
			st.stopAt.Store(-2)
		} else {
			st.stopAt.Store(int64(c.at) * 1000)
		}
	}
	defer cancel()
	if st.stopAt.Load() == -2 {
		time.Sleep(time.Microsecond)
		st.stopAt.Store(0)
	}
	acc := func(actx context.Context, i int, v int, m slices.Modifier[int]) error {
		st.enter(i)
		defer st.leave()
		k, fails := failing[i]
		switch c.mode {
		case 0:
			if actx.Err() != nil {
				s.Fail("accessor's context is done although nothing was cancelled: %v", actx.Err())
			}
			if !c.simultaneous {
				time.Sleep(time.Duration(durs[i]) * time.Microsecond)
			}
			if actx.Err() != nil {
				s.Fail("accessor's context is done although nothing was cancelled: %v", actx.Err())
			}
			if fails {
				e := kit.MkErr(i, c.style+k)
				mu.Lock()
				got = append(got, e)
				mu.Unlock()
				return e.Err
			}
			return nil
		case 1:
			if fails {
				time.Sleep(time.Duration(c.failAt) * time.Microsecond)
				e := kit.MkErr(i, c.style+k)
				if c.style < 0 {
					e = kit.Made{Err: context.Canceled, In: func(g error) bool { return errors.Is(g, context.Canceled) }}
				}
				mu.Lock()
				got = append(got, e)
				if now := st.now(); firstAt < 0 || firstAt == now {
					firstAt = now
					firsts = append(firsts, e)
				}
				st.stop()
				mu.Unlock()
				return e.Err
			}
			if !c.hold {
				time.Sleep(time.Duration(durs[i]) * time.Microsecond)
				if c.fails == 0 && actx.Err() != nil {
					s.Fail("accessor's context is done although nothing failed: %v", actx.Err())
				}
				return nil
			}
			if !mon.Recv(actx.Done(), 10*minute) {
				s.Fail("accessor of %d still waits for its context to be cancelled (first failure at %v)", i, time.Duration(firstAt))
			}
			time.Sleep(time.Duration(durs[i]) * time.Microsecond)
			return nil
		default:
			if c.hold {
				if !mon.Recv(actx.Done(), 10*minute) {
					s.Fail("accessor of %d still waits for its context to be cancelled", i)
				}
			}
			time.Sleep(time.Duration(durs[i]) * time.Microsecond)
			return nil
		}
	}
	relAt := int64(0)
	if c.busy > 0 {
		go func() {
			time.Sleep(time.Millisecond)
			relAt = st.now()
			release()
		}()
	}
	var err error
	if !s.Within(100*minute, "Access", func() {
		err = slices.Access(ctx, in, acc, sliceOpts(pool, so, c.mode == 1 || c.stop, c.order)...)
		now := st.now()
		if n := st.running.Load(); n != 0 {
			s.Fail("Access returned while %d accessor calls were running", n)
		}
		if c.mode == 1 && c.fails > 0 || c.mode == 2 {
			if lim := max(st.lastEnd.Load(), st.stopAt.Load(), relAt); now > lim+int64(time.Second) {
				s.Fail("Access returned %v after the stop and the last accessor call", time.Duration(now-lim))
			}
		}
	}) {
		return
	}
	n := int(st.calls.Load())
	mu.Lock()
	defer mu.Unlock()
	switch c.mode {
	case 0:
		if n != c.n {
			s.Fail("%d accessor calls for %d elements although only accessors failed and WithStopOnErr is not given", n, c.n)
		}
		if len(got) != c.fails {
			s.Fail("%d failing accessors were called, want %d", len(got), c.fails)
		}
		if (err == nil) != (c.fails == 0) {
			s.Fail("Access returned %v, %d accessors failed", err, c.fails)
		}
		for _, e := range got {
			if !e.In(err) {
				s.Fail("Access's error does not contain %q (%T): %v", e.Err, e.Err, err)
				break
			}
			s.Event(1)
		}
	case 1:
		if c.fails == 0 {
			if err != nil || n != c.n {
				s.Fail("WithStopOnErr and no error: %d of %d visited, error %v", n, c.n, err)
			}
			s.Event(1)
			break
		}
		if n == c.n {
			s.Obs("stops after everything was started", 1)
		}
		if len(firsts) == 0 {
			s.Fail("%d of %d elements visited, no accessor failed, yet Access returned %v", n, c.n, err)
			break
		}
		ok := false
		for _, e := range firsts {
			ok = ok || e.In(err)
		}
		if !ok {
			s.Fail("Access's error does not contain the first accessor error %q: %v", firsts[0].Err, err)
		}
		s.Event(n)
	case 2:
		if n < c.n && err == nil {
			s.Fail("Access returned nil although it was cancelled when %d of %d elements had been visited", n, c.n)
		}
		if n < c.n {
			s.Obs("cancelled early", 1)
		}
		s.Event(n + 1)
	}
	if c.mode != 2 && ctx.Err() != nil {
		s.Fail("the caller's context was cancelled")
	}
	before := st.calls.Load()
	time.Sleep(time.Minute)
	if st.calls.Load() != before {
		s.Fail("accessors were called after Access had returned")
	}
	s.Obs("accessor calls", n)
	closePool(s, pool)
}

func genS02(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, []int{0}, []int{1, 2})
	add := func(c s02) {
		if c.kind != 1 && c.kind != 2 {
			c.busy = 0 // foreign jobs would need places
		} else if c.busy > c.size {
			c.busy = c.size
		}
		if c.fails > c.n {
			c.fails = c.n
		}
		if c.mode == 0 && c.fails > 0 {
			c.stop = false
		}
		if c.mode == 1 && c.hold && (c.fails == 0 || c.kind == 0 && c.n > runtime.NumCPU() || (c.kind == 1 || c.kind == 2) && c.n > c.size) {
			c.hold = false // the failing accessor might not get a place
		}
		cs = append(cs, mon.Case{Name: []string{"errors", "stop on error", "cancellation"}[c.mode], Params: mon.P(c), Run: c.run})
	}
	for kind := 0; kind < 5; kind++ {
		add(s02{n: 30, kind: kind, size: 4, mode: 0, fails: 7, style: kind, order: kind})
		add(s02{n: 8, kind: kind, size: 8, mode: 0, fails: 8, simultaneous: true})
		add(s02{n: 1, kind: kind, size: 2, mode: 0, fails: 1})
		add(s02{n: 12, kind: kind, size: 2, mode: 0, fails: 0, order: kind})
		add(s02{n: 300, kind: kind, size: 5, mode: 0, fails: 100 + 50*kind, order: kind, style: kind})
		add(s02{n: 40, kind: kind, size: 3, mode: 1, fails: 1, failAt: 100, order: kind, style: kind})
		add(s02{n: 8, kind: kind, size: 8, mode: 1, fails: 1, failAt: 300, hold: true, order: kind + 1, style: kind})
		add(s02{n: 40, kind: kind, size: 3, mode: 1, fails: 5, failAt: 55, order: kind, style: 1})
		add(s02{n: 40, kind: kind, size: 3, mode: 1, fails: 40, failAt: 0, order: kind, style: 1})
		add(s02{n: 10, kind: kind, size: 3, mode: 1, fails: 1, failAt: 77, style: -1})
		add(s02{n: 20, kind: kind, size: 3, mode: 1, fails: 0})
		add(s02{n: 1, kind: kind, size: 1, mode: 1, fails: 1})
		for how := 0; how < 5; how++ {
			add(s02{n: 60, kind: kind, size: 3, mode: 2, how: how, at: 333, order: how, stop: how%2 == 0})
			add(s02{n: 20, kind: kind, size: 5, mode: 2, how: how, at: 155, hold: true, order: how})
		}
		add(s02{n: 9, kind: kind, size: 3, mode: 2, how: 0, at: 500, busy: 3})
		add(s02{n: 9, kind: kind, size: 3, mode: 2, how: 1, at: 1500, busy: 2})
		add(s02{n: 9, kind: kind, size: 3, mode: 2, how: 0, at: 1, busy: 3, stop: true})
		add(s02{n: 3, kind: kind, size: 3, mode: 2, how: 0, at: 5})
	}
	n := 30
	if thorough {
		n = 200
	}
	for i := 0; i < n; i++ {
		add(s02{n: 1 + r.IntN(40), kind: r.IntN(5), size: 1 + r.IntN(10), mode: r.IntN(3), fails: r.IntN(2) * (1 + r.IntN(5)), style: r.IntN(8), failAt: r.IntN(400), hold: r.IntN(3) == 0, how: r.IntN(5), at: r.IntN(800), order: r.IntN(4), busy: r.IntN(3) / 2 * r.IntN(4), stop: r.IntN(3) == 0, simultaneous: r.IntN(3) == 0})
	}
	return cs
}

// ---------------------------------------------------------------- C01

type c01 struct {
	modify     bool
	n, kind    int
	size       int
	inBuf      int
	outBuf     int
	prefill    bool // everything is in the channel and it is closed before the call
	gap        int  // between values
	maxDur     int
	readDur    int
	fails      int
	first      int  // the failures are among so many first values, 0 all
	stop       bool // WithStopOnErr, only without failures
	order      int
	cancelable bool
	producers  int
}

func (c c01) run(s *mon.S) {
	pool, so := kit.NewPool(c.kind, c.size)
	in := make(chan int, c.inBuf)
	if c.prefill {
		in = make(chan int, c.n)
		for i := 0; i < c.n; i++ {
			in <- i
		}
		close(in)
	} else {
		var wg sync.WaitGroup
		var next atomic.Int64
		for p := 0; p < max(1, c.producers); p++ {
			r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(p)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1) - 1)
					if i >= c.n {
						return
					}
					kit.Work(r.IntN(c.gap + 1))
					in <- i
				}
			}()
		}
		go func() { wg.Wait(); close(in) }()
	}
	fail := map[int]kit.Made{}
	among := c.n
	if c.first > 0 {
		among = c.first
	}
	for k, i := range s.R.Perm(among) {
		if k < c.fails {
			fail[i] = kit.MkErr(i, k)
		}
	}
	durs := make([]int, c.n)
	for i := range durs {
		durs[i] = s.R.IntN(c.maxDur + 1)
	}
	calls := make([]atomic.Int32, c.n)
	var running atomic.Int64
	ctx := context.WithValue(context.Background(), kit.Key{}, 7)
	if c.cancelable {
		cc, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx = cc
	}
	var returned atomic.Bool
	body := func(ctx context.Context, v int) error {
		running.Add(1)
		defer running.Add(-1)
		if returned.Load() {
			s.Fail("call after the return")
		}
		if v < 0 || v >= c.n {
			s.Fail("call with %d, which was never sent", v)
			return nil
		}
		if k := calls[v].Add(1); k > 1 {
			s.Fail("%d calls with the value %d", k, v)
		}
		if ctx.Value(kit.Key{}) != 7 {
			s.Fail("call with another context")
		}
		if ctx.Err() != nil {
			s.Fail("call with a context that is done although nothing was cancelled")
		}
		kit.Work(durs[v])
		return fail[v].Err
	}
	var err error
	if !c.modify {
		if !s.Within(100*minute, "Access", func() {
			err = chans.Access(ctx, in, body, chanOpts(pool, so, c.stop, c.order)...)
			returned.Store(true)
			if n := running.Load(); n != 0 {
				s.Fail("Access returned while %d accessor calls were running", n)
			}
		}) {
			return
		}
	} else {
		out := make(chan chans.StreamResult[string], c.outBuf)
		seen := make([]atomic.Int32, c.n)
		look := func(r chans.StreamResult[string], errs map[int]bool) {
			if r.Err == nil {
				var v int
				if k, _ := fmt.Sscanf(r.Value, "<%d>", &v); k != 1 || v < 0 || v >= c.n || r.Value != fmt.Sprintf("<%d>", v) {
					s.Fail("result %q is no result of a modifier", r.Value)
					return
				}
				if fail[v].Err != nil {
					s.Fail("result for %d has no error although its modifier failed", v)
				}
				if calls[v].Load() != 1 {
					s.Fail("result for %d before its modifier was called", v)
				}
				if k := seen[v].Add(1); k > 1 {
					s.Fail("%d results for the value %d", k, v)
				}
				s.Event(1)
				return
			}
			for v, e := range fail {
				if e.In(r.Err) {
					if k := seen[v].Add(1); k > 1 {
						s.Fail("%d results with the error of value %d", k, v)
					}
					s.Event(1)
					return
				}
			}
			s.Fail("result with the error %v, which no modifier returned", r.Err)
		}
		readerDone := make(chan struct{})
		r := rand.New(rand.NewPCG(s.R.Uint64(), 9))
		stopReading := make(chan struct{})
		go func() {
			defer close(readerDone)
			for {
				kit.Work(r.IntN(c.readDur + 1))
				select {
				case x, ok := <-out:
					if !ok {
						return
					}
					look(x, nil)
				case <-stopReading:
					return
				}
			}
		}()
		if !s.Within(100*minute, "Modify", func() {
			err = chans.Modify(ctx, in, out, func(ctx context.Context, v int) (string, error) {
				e := body(ctx, v)
				return fmt.Sprintf("<%d>", v), e
			}, chanOpts(pool, so, c.stop, c.order)...)
			returned.Store(true)
			if n := running.Load(); n != 0 {
				s.Fail("Modify returned while %d modifier calls were running", n)
			}
			for {
				select {
				case x, ok := <-out:
					if ok {
						look(x, nil)
						continue
					}
				default:
					s.Fail("Modify returned and the output channel is not closed")
					close(stopReading)
				}
				break
			}
			<-readerDone
		}) {
			return
		}
		for v := range seen {
			if seen[v].Load() != 1 {
				s.Fail("%d results for the value %d of %d", seen[v].Load(), v, c.n)
				break
			}
		}
	}
	for v := range calls {
		if calls[v].Load() != 1 {
			s.Fail("%d calls for the value %d of %d", calls[v].Load(), v, c.n)
			break
		}
		s.Event(1)
	}
	if err != nil && c.fails == 0 {
		s.Fail("the result is %v although no call failed", err)
	}
	for _, e := range fail {
		if !e.In(err) {
			s.Fail("the returned error does not contain %q: %v", e.Err, err)
			break
		}
		s.Event(1)
	}
	if c.n == 0 {
		s.Event(1)
	}
	s.Obs("values", c.n)
	s.Obs("errors", len(fail))
	time.Sleep(time.Minute)
	closePool(s, pool)
}

type kinds struct {
	modify bool
	typ    int
	n      int
	kind   int
	size   int
	stop   bool
}

type iface interface{ Error() string }

func (c kinds) run(s *mon.S) {
	switch c.typ {
	case 0:
		runKinds(s, c, func(i int) any { return []any{nil, i, "", struct{}{}, valErr{i}, (*int)(nil)}[i%6] })
	case 1:
		runKinds(s, c, func(i int) *int { return []*int{nil, new(int)}[i%2] })
	case 2:
		runKinds(s, c, func(i int) iface { return []iface{nil, valErr{i}}[i%2] })
	case 3:
		runKinds(s, c, func(i int) error { return []error{nil, valErr{i}, context.Canceled}[i%3] })
	case 4:
		runKinds(s, c, func(i int) struct{} { return struct{}{} })
	case 5:
		runKinds(s, c, func(i int) chan int { return []chan int{nil, make(chan int)}[i%2] })
	case 6:
		runKinds(s, c, func(i int) [2]string { return [2]string{"", fmt.Sprint(i % 3)} })
	case 7:
		runKinds(s, c, func(i int) int { return i % 2 })
	}
}

// runKinds sends values of a type, with zero and repeated values among them,
// and compares the multisets of values sent, seen and sent on.
func runKinds[T comparable](s *mon.S, c kinds, mk func(int) T) {
	pool, so := kit.NewPool(c.kind, c.size)
	in := make(chan T, s.R.IntN(4))
	var mu sync.Mutex
	bal := map[T]int{}
	go func() {
		for i := 0; i < c.n; i++ {
			v := mk(i)
			mu.Lock()
			bal[v]++
			mu.Unlock()
			in <- v
		}
		close(in)
	}()
	calls := 0
	see := func(v T) {
		mu.Lock()
		bal[v]--
		calls++
		mu.Unlock()
		s.Event(1)
	}
	var err error
	results := 0
	if !s.Within(100*minute, "the call", func() {
		if !c.modify {
			err = chans.Access(context.Background(), in, func(_ context.Context, v T) error { see(v); return nil }, chanOpts(pool, so, c.stop, 0)...)
			return
		}
		out := make(chan chans.StreamResult[T])
		got := map[T]int{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for r := range out {
				if r.Err != nil {
					s.Fail("a result has the error %v although no modifier failed", r.Err)
				}
				got[r.Value]++
				results++
			}
		}()
		want := map[T]int{}
		err = chans.Modify(context.Background(), in, out, func(_ context.Context, v T) (T, error) {
			see(v)
			mu.Lock()
			want[v]++
			mu.Unlock()
			return v, nil
		}, chanOpts(pool, so, c.stop, 0)...)
		<-done
		for v, n := range want {
			if got[v] != n {
				s.Fail("modifiers returned %v %d times, it was sent on %d times", v, n, got[v])
			}
		}
	}) {
		return
	}
	if err != nil {
		s.Fail("the call returned %v although nothing failed", err)
	}
	if calls != c.n || c.modify && results != c.n {
		s.Fail("%d calls, %d results for %d values", calls, results, c.n)
	}
	for v, n := range bal {
		if n != 0 {
			s.Fail("%v was sent %d times more often than it was seen", v, n)
		}
	}
	closePool(s, pool)
}

func nilInput(modify bool, stop bool) func(*mon.S) {
	return func(s *mon.S) {
		var in chan int
		s.Within(minute, "call with a nil input channel", func() {
			if modify {
				out := make(chan chans.StreamResult[int], 1)
				if err := chans.Modify(context.Background(), in, out, func(context.Context, int) (int, error) { return 0, nil }, chanOpts(nil, nil, stop, 0)...); err == nil {
					s.Fail("Modify returned nil for a nil input channel")
				}
				in = make(chan int, s.R.IntN(2))
				out = nil
				close(in)
				if err := chans.Modify(context.Background(), in, out, func(context.Context, int) (int, error) { return 0, nil }, chanOpts(nil, nil, stop, 0)...); err == nil {
					s.Fail("Modify returned nil for a nil output channel")
				}
			} else {
				if err := chans.Access(context.Background(), in, func(context.Context, int) error { return nil }, chanOpts(nil, nil, stop, 0)...); err != nil {
					s.Fail("Access returned %v for a nil input channel", err)
				}
			}
			s.Event(1)
		})
	}
}

func genC01(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, []int{1, 2}, []int{0})
	add := func(c c01) {
		name := "access"
		if c.modify {
			name = "modify"
		}
		if c.fails > c.n {
			c.fails = c.n
		}
		if c.fails > 0 {
			c.stop = false
		}
		cs = append(cs, mon.Case{Name: name, Params: mon.P(c), Run: c.run})
	}
	for _, m := range []bool{false, true} {
		for kind := 0; kind < 5; kind++ {
			add(c01{modify: m, n: 50, kind: kind, size: 3, maxDur: 5, readDur: 2, order: kind})
			add(c01{modify: m, n: 50, kind: kind, size: 4, inBuf: 10, outBuf: 5, gap: 3, maxDur: 3, fails: 10, order: kind, producers: 3})
			add(c01{modify: m, n: 0, kind: kind, size: 2})
			add(c01{modify: m, n: 1, kind: kind, size: 1, outBuf: 1, stop: true, fails: kind % 2})
			add(c01{modify: m, n: 20, kind: kind, size: 2, prefill: true, maxDur: 3, outBuf: 30, cancelable: true, stop: true, order: kind})
			add(c01{modify: m, n: 40, kind: kind, size: 6, maxDur: 1, readDur: 7, outBuf: kind, fails: 40})
			add(c01{modify: m, n: 300, kind: kind, size: 8, inBuf: 1, maxDur: 2, readDur: 0})
		}
		for i, n := range []int{6000, 70000} {
			for fails := 0; fails < 8; fails += 7 {
				c := c01{modify: m, n: n, kind: (3*i + fails) % 5, size: 8, inBuf: 100, outBuf: 100, fails: fails, first: 1000}
				cs = append(cs, mon.Case{Name: "long", Params: mon.P(c), Run: c.run, Reps: 1})
			}
		}
		for typ := 0; typ < 8; typ++ {
			c := kinds{modify: m, typ: typ, n: []int{1, 2, 13, 30}[(typ+len(cs))%4], kind: typ % 5, size: 1 + typ%3, stop: typ%3 == 0}
			cs = append(cs, mon.Case{Name: "kinds of values", Params: mon.P(c), Run: c.run})
		}
		cs = append(cs, mon.Case{Name: "nil input", Params: fmt.Sprintf("modify=%v", m), Run: nilInput(m, m)})
	}
	n := 20
	if thorough {
		n = 120
	}
	for i := 0; i < n; i++ {
		add(c01{modify: r.IntN(3) != 0, n: r.IntN(60), kind: r.IntN(5), size: 1 + r.IntN(10), inBuf: r.IntN(3) * r.IntN(5), outBuf: r.IntN(3) * r.IntN(9), prefill: r.IntN(4) == 0, gap: r.IntN(6), maxDur: r.IntN(8), readDur: r.IntN(6), fails: r.IntN(2) * r.IntN(8), stop: r.IntN(2) == 0, order: r.IntN(4), cancelable: r.IntN(2) == 0, producers: r.IntN(4)})
	}
	return cs
}

// ---------------------------------------------------------------- C02

type c02 struct {
	modify     bool
	onErr      bool // WithStopOnErr and a failing accessor, else a cancellation
	kind, size int
	n          int  // values offered, the channel stays open
	gap        int  // µs between values
	endless    bool // values keep coming
	how, at    int
	failIdx    int
	style      int
	hold       bool
	outBuf     int
	readN      int // results read before reading stops, -1 all
	order      int
	busy       int
	stop       bool // WithStopOnErr together with a cancellation
	lateClose  bool // the input is closed (not empty) right after the stop
	failEvery  int  // for a cancellation without WithStopOnErr: these calls return errors
}

func (c c02) run(s *mon.S) {
	pool, so := kit.NewPool(c.kind, c.size)
	st := newStopper(s)
	release := occupy(s, pool, c.busy)
	in := make(chan int)
	quit := make(chan struct{})
	defer close(quit)
	prodDone := make(chan struct{})
	go func() {
		defer close(prodDone)
		for i := 0; i < c.n || c.endless; i++ {
			time.Sleep(time.Duration(c.gap) * time.Microsecond)
			select {
			case in <- i:
			case <-quit:
				return
			}
		}
	}()
	var ctx context.Context
	var cancel context.CancelFunc
	if c.onErr {
		ctx, cancel = context.WithCancel(context.WithValue(context.Background(), kit.Key{}, 7))
	} else {
		ctx, cancel = cancelCtx(c.how, c.at)
		if c.how == 2 || c.how == 4 {
			time.Sleep(time.Microsecond)
			st.stopAt.Store(0)
		} else {
			st.stopAt.Store(int64(c.at) * 1000)
		}
	}
	defer cancel()
	relAt := int64(0)
	if c.busy > 0 {
		go func() {
			time.Sleep(2 * time.Millisecond)
			relAt = st.now()
			release()
		}()
	}
	made := kit.MkErr(77, c.style)
	if c.style < 0 {
		made = kit.Made{Err: context.DeadlineExceeded, In: func(g error) bool { return errors.Is(g, context.DeadlineExceeded) }}
	}
	var failed atomic.Bool
	durs := make([]int, 64)
	for i := range durs {
		durs[i] = 10 + s.R.IntN(300)
	}
	body := func(actx context.Context, v int) error {
		st.enter(v)
		defer st.leave()
		if c.onErr && v == c.failIdx {
			time.Sleep(time.Duration(c.at) * time.Microsecond)
			failed.Store(true)
			if !c.modify {
				st.stop()
			}
			return made.Err
		}
		if c.hold {
			if !mon.Recv(actx.Done(), 100*minute) {
				s.Fail("accessor of %d still waits for its context to be cancelled (failed: %v)", v, failed.Load())
			}
		}
		time.Sleep(time.Duration(durs[v%64]) * time.Microsecond)
		if c.failEvery > 0 && v%c.failEvery == 0 {
			return made.Err
		}
		return nil
	}
	var err error
	what := "Access"
	if c.modify {
		what = "Modify"
	}
	var gotErr atomic.Bool
	var out chan chans.StreamResult[int]
	readerDone := make(chan struct{})
	stopReading := make(chan struct{})
	if c.modify {
		out = make(chan chans.StreamResult[int], c.outBuf)
		go func() {
			defer close(readerDone)
			for n := 0; n < c.readN || c.readN < 0; n++ {
				select {
				case x, ok := <-out:
					if !ok {
						return
					}
					if x.Err != nil && c.onErr {
						gotErr.Store(true)
						st.stop()
					}
				case <-stopReading:
					return
				}
			}
		}()
	}
	if !s.Within(200*minute, what, func() {
		if c.modify {
			err = chans.Modify(ctx, in, out, func(ctx context.Context, v int) (int, error) { return v, body(ctx, v) }, chanOpts(pool, so, c.onErr || c.stop, c.order)...)
		} else {
			err = chans.Access(ctx, in, body, chanOpts(pool, so, c.onErr || c.stop, c.order)...)
		}
		now := st.now()
		if n := st.running.Load(); n != 0 {
			s.Fail("%s returned while %d accessor calls were running", what, n)
		}
		if lim := max(st.lastEnd.Load(), st.stopAt.Load(), relAt); now > lim+int64(time.Second) {
			s.Fail("%s returned %v after the stop and the last accessor call", what, time.Duration(now-lim))
		}
		if c.modify {
			for {
				select {
				case x, ok := <-out:
					if ok {
						if x.Err != nil {
							// Delivered, but nobody read it before the return.
							s.Obs("error left in the output", 1)
						}
						continue
					}
				default:
					s.Fail("Modify returned and the output channel is not closed")
				}
				break
			}
		}
	}) {
		return
	}
	close(stopReading)
	if err == nil {
		s.Fail("%s returned nil although it was stopped early", what)
	}
	if c.onErr {
		if !failed.Load() {
			s.Fail("%s returned %v before the failing accessor had run", what, err)
		}
		if (!c.modify || gotErr.Load()) && !made.In(err) {
			s.Fail("%s's error does not contain the first accessor error %q: %v", what, made.Err, err)
		}
		if ctx.Err() != nil {
			s.Fail("the caller's context was cancelled")
		}
	}
	before := st.calls.Load()
	time.Sleep(time.Minute)
	if st.calls.Load() != before {
		s.Fail("accessors were called after the return")
	}
	s.Event(int(before) + 1)
	s.Obs("calls", int(before))
	closePool(s, pool)
}

func genC02(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, []int{1, 2}, []int{1, 2})
	add := func(c c02) {
		name := "cancel"
		if c.onErr {
			name = "stop on error"
			if c.failIdx >= c.n && !c.endless {
				c.failIdx = 0
				c.n = max(c.n, 1)
			}
			c.readN = -1
		}
		if c.kind == 1 || c.kind == 2 {
			c.busy = min(c.busy, c.size)
		} else {
			c.busy = 0
		}
		// The failing accessor must get a place.
		lim := c.size
		if c.kind == 0 {
			lim = runtime.NumCPU()
		}
		if c.onErr && c.hold && c.failIdx >= lim && c.kind < 3 {
			c.failIdx = lim - 1
		}
		if c.modify && c.onErr && c.kind < 3 {
			c.readN = -1
		}
		if c.endless && c.kind >= 3 && c.hold {
			c.gap = max(c.gap, 5)
		}
		if c.endless {
			c.gap = max(c.gap, 1)
		}
		if c.onErr || c.stop {
			c.failEvery = 0
		}
		cs = append(cs, mon.Case{Name: name, Params: mon.P(c), Run: c.run})
	}
	for _, m := range []bool{false, true} {
		for kind := 0; kind < 5; kind++ {
			for how := 0; how < 5; how++ {
				add(c02{modify: m, kind: kind, size: 3, how: how, at: 500, n: how % 3, readN: -1, order: how})            // idle
				add(c02{modify: m, kind: kind, size: 3, how: how, at: 700, endless: true, gap: 7, readN: -1, order: how}) // busy
			}
			add(c02{modify: m, kind: kind, size: 4, how: 0, at: 300, endless: true, gap: 20, hold: true, readN: -1, stop: true})
			add(c02{modify: m, kind: kind, size: 2, how: 1, at: 1000, endless: true, gap: 3, busy: 2, readN: -1})
			add(c02{modify: m, onErr: true, kind: kind, size: 3, n: 1, at: 50, order: kind, style: kind})
			add(c02{modify: m, onErr: true, kind: kind, size: 3, n: 8, failIdx: 2, gap: 1, at: 90, hold: true, order: kind, style: kind})
			add(c02{modify: m, onErr: true, kind: kind, size: 3, endless: true, gap: 2, failIdx: 11, at: 30, order: kind, style: kind + 2})
			add(c02{modify: m, onErr: true, kind: kind, size: 2, n: 5, failIdx: 4, at: 0, style: -1})
			if m {
				add(c02{modify: m, kind: kind, size: 3, how: kind % 2, at: 900, endless: true, gap: 5, readN: 0})
				add(c02{modify: m, kind: kind, size: 3, how: 0, at: 900, endless: true, gap: 5, readN: 4, outBuf: 3})
				add(c02{modify: m, kind: kind, size: 3, how: kind % 2, at: 900, endless: true, gap: 5, readN: 2, failEvery: 1, style: kind})
				add(c02{modify: m, kind: kind, size: 3, how: kind % 4, at: 600, n: 3, gap: 5, readN: 0, failEvery: 2, outBuf: 1, style: kind})
				add(c02{modify: m, kind: kind, size: 3, how: 1, at: 900, n: 3, gap: 5, readN: 0, outBuf: 2, stop: true})
				add(c02{modify: m, onErr: true, kind: kind, size: 3, endless: true, gap: 5, failIdx: 9, at: 12, outBuf: 4, style: 2})
			}
		}
	}
	n := 30
	if thorough {
		n = 200
	}
	for i := 0; i < n; i++ {
		add(c02{modify: r.IntN(2) == 0, onErr: r.IntN(2) == 0, kind: r.IntN(5), size: 1 + r.IntN(8), n: r.IntN(12), gap: r.IntN(30), endless: r.IntN(2) == 0, how: r.IntN(5), at: r.IntN(900), failIdx: r.IntN(10), style: r.IntN(kit.Styles), hold: r.IntN(4) == 0, outBuf: r.IntN(2) * r.IntN(6), readN: r.IntN(12) - 1, order: r.IntN(4), busy: r.IntN(4) / 3 * r.IntN(4), stop: r.IntN(3) == 0, failEvery: r.IntN(3) / 2 * (1 + r.IntN(4))})
	}
	return cs
}

// ---------------------------------------------------------------- O01

// recPool is the caller's pool with a count of the submissions.
type recPool struct {
	goroutines.Pool
	submits atomic.Int64
	closed  atomic.Int64
}

func (p *recPool) Submit(ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	p.submits.Add(1)
	return p.Pool.Submit(ctx, j, o...)
}

func (p *recPool) Close() {
	p.closed.Add(1)
	p.Pool.Close()
}

// counted wraps a submit option.
func counted[O any](f func(O) (O, error), n *atomic.Int64) func(O) (O, error) {
	return func(o O) (O, error) {
		n.Add(1)
		return f(o)
	}
}

type o01 struct {
	api        int // 0 slices.Access, 1 chans.Access, 2 chans.Modify
	kind, size int
	n          int
	order      int
	stop       bool
	busy       int
	calls      int // at the same time on the pool
	barrier    bool
	rounds     int
	maxDur     int
	fail       bool
	wrap       bool
	cancelled  bool
	decoy      bool // another pool is given by an earlier option
	reuse      bool // all calls and rounds use the same options
	nested     bool // the accessors make such calls themselves, without a pool
}

// banPool must not be used.
type banPool struct {
	goroutines.Pool
	used *atomic.Int64
}

func (p banPool) Submit(ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	p.used.Add(1)
	return p.Pool.Submit(ctx, j, o...)
}

func (c o01) sliceOpts(pool goroutines.Pool, so []goroutines.SubmitOption, ban *banPool, banned goroutines.SubmitOption) []slices.SliceOption {
	o := sliceOpts(pool, so, c.stop, c.order)
	if ban != nil {
		o = append([]slices.SliceOption{slices.WithPoolOptions(*ban, banned)}, o...)
	}
	return o
}

func (c o01) chanOpts(pool goroutines.Pool, so []goroutines.SubmitOption, ban *banPool, banned goroutines.SubmitOption) []chans.Option {
	o := chanOpts(pool, so, c.stop, c.order)
	if ban != nil {
		o = append([]chans.Option{chans.WithPoolOptions(*ban, banned)}, o...)
	}
	return o
}

// call runs n elements through f with the given options.
func (c o01) call(ctx context.Context, n int, so []slices.SliceOption, co []chans.Option, f func(context.Context, int) error) error {
	switch c.api {
	case 0:
		return slices.Access(ctx, make([]int, n), func(ctx context.Context, i int, _ int, _ slices.Modifier[int]) error { return f(ctx, i) }, so...)
	case 1:
		in := make(chan int, n)
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
		return chans.Access(ctx, in, f, co...)
	default:
		in := make(chan int, n)
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
		out := make(chan chans.StreamResult[int], n)
		return chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, co...)
	}
}

func (c o01) run(s *mon.S) {
	var pool goroutines.Pool
	var so []goroutines.SubmitOption
	var rec *recPool
	var applied atomic.Int64
	if c.kind != 0 {
		p, _ := kit.NewPool((c.kind-1)%2+1, c.size)
		pool = p
		if c.wrap {
			rec = &recPool{Pool: p}
			pool = rec
		}
		switch c.kind {
		case 1:
			if c.order%2 == 0 {
				so = append(so, counted(limited.Caller("c"), &applied))
			}
		case 2:
			if c.order%2 == 0 {
				so = append(so, counted(pooled.Caller("c"), &applied))
			}
		case 3:
			so = append(so, counted(limited.Caller("c"), &applied), limited.NonBlocking())
		case 4:
			so = append(so, counted(pooled.NonBlocking(), &applied))
		}
	}
	var ban *banPool
	var banUsed, banApplied atomic.Int64
	banned := counted(limited.Caller("banned"), &banApplied)
	if c.decoy && pool != nil {
		p, _ := kit.NewPool(1, c.size+3)
		defer p.Close()
		ban = &banPool{Pool: p, used: &banUsed}
	}
	sOpts, cOpts := c.sliceOpts(pool, so, ban, banned), c.chanOpts(pool, so, ban, banned)
	release := occupy(s, pool, c.busy)
	if pool != nil {
		s.Settle()
		if r := pool.Running(); r != c.busy {
			s.Fail("Running() is %d with %d jobs in the pool", r, c.busy)
		}
	}
	calls := max(1, c.calls)
	// limit is how many accessor calls may be in progress, must is how many can be.
	limit, must := c.n*calls, c.n
	switch {
	case c.kind == 0:
		limit = runtime.NumCPU() * calls
		must = min(c.n, runtime.NumCPU())
	case c.kind <= 2:
		limit = min(c.n*calls, c.size-c.busy)
		must = min(c.n*calls, c.size-c.busy)
	default:
		must = c.n * calls
	}
	if calls > 1 && c.kind == 0 {
		must *= calls
	}
	for round := 0; round < max(1, c.rounds) && !s.Failed(); round++ {
		var executing, peak, done atomic.Int64
		full := make(chan struct{})
		var once sync.Once
		subBefore, appBefore := int64(0), applied.Load()
		if rec != nil {
			subBefore = rec.submits.Load()
		}
		durs := make([]int, c.n)
		for i := range durs {
			durs[i] = s.R.IntN(c.maxDur + 1)
		}
		errFail := errors.New("fail")
		f := func(ctx context.Context, i int) error {
			n := executing.Add(1)
			kit.Max(&peak, n)
			if int(n) > limit {
				s.Fail("%d accessor calls in progress, at most %d allowed (pool size %d, %d other jobs in it)", n, limit, c.size, c.busy)
			}
			if int(n) >= must {
				once.Do(func() { close(full) })
			}
			if pool != nil {
				if r := int64(pool.Running()); r < executing.Load() && r < n {
					// executing may have grown since, n is a lower bound only while nobody left.
					if r < 1 {
						s.Fail("the pool's Running() is %d inside an accessor call", r)
					}
				}
			}
			if c.barrier {
				if !mon.Recv(full, 10*minute) {
					s.Fail("only %d of %d accessor calls are in progress although %d have to be possible\n%s", executing.Load(), c.n*calls, must, mon.Blocked())
					once.Do(func() { close(full) })
				}
				// Now everything that can start has started.
				time.Sleep(time.Duration(1+durs[i]) * time.Millisecond)
			} else {
				kit.Work(durs[i])
			}
			if c.nested {
				var inner atomic.Int64
				if err := c.call(ctx, 3, nil, nil, func(context.Context, int) error { inner.Add(1); return nil }); !c.cancelled && !c.fail && (err != nil || inner.Load() != 3) {
					s.Fail("a nested call made %d of 3 accessor calls and returned %v", inner.Load(), err)
				}
			}
			executing.Add(-1)
			done.Add(1)
			if c.fail && i == c.n-1 {
				return errFail
			}
			return nil
		}
		var wg sync.WaitGroup
		errs := make([]error, calls)
		ctx, cancel := context.WithCancel(context.Background())
		if c.cancelled {
			cancel()
		}
		for k := 0; k < calls; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sOpts, cOpts := sOpts, cOpts
				if !c.reuse {
					sOpts, cOpts = c.sliceOpts(pool, so, ban, banned), c.chanOpts(pool, so, ban, banned)
				}
				errs[k] = c.call(ctx, c.n, sOpts, cOpts, f)
			}()
		}
		if c.barrier && pool != nil && !c.cancelled {
			if mon.Recv(full, 5*minute) {
				s.Settle()
				if r, e := pool.Running(), int(executing.Load())+c.busy; r < e {
					s.Fail("the pool's Running() is %d while %d jobs are executing in it", r, e)
				}
				s.Event(1)
			}
		}
		if !s.Within(100*minute, "Access", wg.Wait) {
			return
		}
		cancel()
		for _, err := range errs {
			switch {
			case c.cancelled:
			case c.fail && !errors.Is(err, errFail):
				s.Fail("the result is %v, want the accessor's error", err)
			case !c.fail && err != nil:
				s.Fail("valid options, no accessor failed, and the result is %v", err)
			}
		}
		if !c.cancelled && !(c.fail && c.stop) && int(done.Load()) != c.n*calls {
			s.Fail("%d accessor calls, want %d", done.Load(), c.n*calls)
		}
		if rec != nil && rec.submits.Load()-subBefore < done.Load() {
			s.Fail("%d jobs were submitted to the pool for %d accessor calls", rec.submits.Load()-subBefore, done.Load())
		}
		if banUsed.Load() != 0 || banApplied.Load() != 0 {
			s.Fail("a pool was used %d times and its submit options %d times although a later option gives another pool", banUsed.Load(), banApplied.Load())
		}
		if rec != nil && rec.closed.Load() != 0 {
			s.Fail("the caller's pool was closed")
		}
		if len(so) > 0 && applied.Load()-appBefore < done.Load() {
			s.Fail("the submit option was used %d times for %d accessor calls", applied.Load()-appBefore, done.Load())
		}
		if pool != nil {
			s.Settle()
			if r := pool.Running(); r != c.busy {
				s.Fail("Running() is %d after the call, %d other jobs are in the pool", r, c.busy)
			}
		}
		s.Event(int(done.Load()))
		s.Obs("accessor calls", int(done.Load()))
		s.ObsMax(fmt.Sprintf("max in progress, pool %d", c.kind), int(peak.Load()))
	}
	if pool != nil {
		release()
		// The pool is usable.
		var n atomic.Int64
		s.Within(minute, "use of the pool after the call", func() {
			for i := 0; i < c.size+2; i++ {
				if err := pool.Submit(context.Background(), func(context.Context) { n.Add(1) }); err != nil {
					s.Fail("Submit after the call: %v", err)
				}
			}
			pool.Wait()
			if n.Load() != int64(c.size+2) {
				s.Fail("the pool ran %d of %d jobs after the call", n.Load(), c.size+2)
			}
			pool.Close()
		})
	}
}

func genO01(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r, []int{0, 1, 2}, []int{0})
	add := func(c o01) {
		if c.kind == 0 || c.kind > 2 {
			c.busy = 0
		} else {
			c.busy = min(c.busy, c.size-1)
		}
		cs = append(cs, mon.Case{Name: []string{"slices.Access", "chans.Access", "chans.Modify"}[c.api], Params: mon.P(c), Run: c.run})
	}
	for api := 0; api < 3; api++ {
		add(o01{api: api, n: runtime.NumCPU() * 3, barrier: true})
		add(o01{api: api, n: runtime.NumCPU() + 1, barrier: true, stop: true, rounds: 2})
		add(o01{api: api, n: 200, maxDur: 3})
		add(o01{api: api, n: runtime.NumCPU() * 2, barrier: true, nested: true})
		add(o01{api: api, n: runtime.NumCPU() + 2, calls: 3, barrier: true, nested: true, stop: true})
		add(o01{api: api, n: runtime.NumCPU(), calls: 8, barrier: true, rounds: 2})
		add(o01{api: api, n: 3, calls: 2 * runtime.NumCPU(), barrier: true})
		for kind := 1; kind < 5; kind++ {
			for order := 0; order < 4; order++ {
				add(o01{api: api, kind: kind, size: 2 + order, n: 17, order: order, stop: order%2 == 0, barrier: true, maxDur: 2, wrap: order%2 == 0, rounds: 2, reuse: order > 1})
			}
			add(o01{api: api, kind: kind, size: 1, n: 6, order: 2, barrier: true, rounds: 2})
			add(o01{api: api, kind: kind, size: 5, busy: 3, n: 9, order: 0, barrier: true})
			add(o01{api: api, kind: kind, size: 4, n: 10, calls: 3, order: 1, barrier: true, wrap: true})
			add(o01{api: api, kind: kind, size: 3, n: 30, calls: 4, order: 1, maxDur: 4, rounds: 3, reuse: true})
			add(o01{api: api, kind: kind, size: 20, n: 20, order: 3, stop: true, barrier: true})
			add(o01{api: api, kind: kind, size: 3, n: 7, order: 3, stop: true, fail: true, wrap: true})
			add(o01{api: api, kind: kind, size: 3, n: 7, order: 1, stop: true, cancelled: true, wrap: true})
			add(o01{api: api, kind: kind, size: 2, n: 0, wrap: true})
			add(o01{api: api, kind: kind, size: 3, n: 8, order: api, decoy: true, wrap: true, barrier: true})
			add(o01{api: api, kind: kind, size: 2, n: 5, order: 1 + 2*(kind%2), decoy: true, maxDur: 2, stop: true})
			add(o01{api: api, kind: kind, size: 130, n: 200, order: kind, barrier: true, wrap: kind%2 == 0})
			for n := 1; n < 4; n++ {
				add(o01{api: api, kind: kind, size: 2, n: n, order: n, wrap: true})
				add(o01{api: api, kind: kind, size: 1, n: n, order: kind, stop: true, rounds: 2})
			}
		}
	}
	n := 20
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		add(o01{api: r.IntN(3), kind: r.IntN(5), size: 1 + r.IntN(12), n: r.IntN(40), order: r.IntN(4), stop: r.IntN(2) == 0, busy: r.IntN(3) / 2 * r.IntN(5), calls: r.IntN(4), barrier: r.IntN(2) == 0, rounds: 1 + r.IntN(2), maxDur: r.IntN(6), wrap: r.IntN(2) == 0, nested: r.IntN(4) == 0, reuse: r.IntN(2) == 0})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"S01": {Gen: genS01, Twins: 16, Reps: 24, MinEvents: 5000, Rule: "a case is an element type, length, spare capacity, pool, modifier use, errors and parallel calls on adjacent parts of one array; distinct by parameters and order of library steps"},
		"S02": {Gen: genS02, Twins: 16, Reps: 24, MinEvents: 2000, Rule: "a case is errors without WithStopOnErr, WithStopOnErr with failing accessors, or a cancellation at a virtual time, with a pool that may be occupied; distinct by parameters and order of library steps"},
		"C01": {Gen: genC01, Twins: 16, Reps: 24, MinEvents: 5000, Rule: "a case is Access or Modify with producers, buffers, durations, failing accessors and a pool; distinct by parameters and order of library steps"},
		"C02": {Gen: genC02, Twins: 16, Reps: 18, MinEvents: 1000, Rule: "a case is Access or Modify stopped by a cancellation or the first error while the input is idle or busy and the output read, read for a while or not read; distinct by parameters and order of library steps"},
		"O01": {Gen: genO01, Twins: 16, Reps: 18, MinEvents: 2000, Rule: "a case is an entry point, a pool (or none) with other jobs in it, submit options in some order, barriers that measure how many calls can be in progress; distinct by parameters and order of library steps"},
		"X01": {Gen: genX01, Twins: 16, Reps: 18, MinEvents: 5000, Rule: "a case is a number of slow and fast users of one pool (direct submissions, wait.Group, slices.Access, chans.Access and Modify, each succeeding, failing, stopping at an error or cancelled); distinct by parameters and order of library steps"},
	})
}
