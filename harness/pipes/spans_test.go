package pipes

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/kit"
	"verifharness/mon"
	"verifharness/tracer"
)

// traceStage looks at the span a stage sees. r.mu is held.
func (e *engine) traceStage(r *rec, q *req) {
	if e.tr == nil {
		return
	}
	cur := tracer.From(q.Ctx)
	if r.root == nil {
		if cur != nil {
			e.fail("T01", "a stage of request %d, which is not traced, sees the %v", r.id, cur)
		}
		return
	}
	switch {
	case cur == nil || cur.Own:
		e.fail("T01", "stage call %d of request %d has no span of its own, it sees the %v", len(r.stages), r.id, cur)
		return
	case !cur.Under(r.root):
		e.fail("T01", "stage call %d of request %d sees the %v of something else", len(r.stages), r.id, cur)
		return
	case cur.Ends() > 0:
		e.fail("T01", "stage call %d of request %d starts and its %v is ended", len(r.stages), r.id, cur)
	}
	for _, s := range r.stageSpans {
		if s == cur {
			e.fail("T01", "stage call %d of request %d sees the %v of an earlier one", len(r.stages), r.id, cur)
		}
		if s.Ends() != 1 {
			e.fail("T01", "stage call %d of request %d starts and the %v of an earlier one is not ended", len(r.stages), r.id, s)
		}
	}
	p := cur.Parent
	if p == nil || p.Own {
		e.fail("T01", "the %v of a stage of request %d is not a child of a span of the request", cur, r.id)
		return
	}
	if r.span == nil {
		r.span = p
	} else if p != r.span {
		e.fail("T01", "the %v of a stage of request %d is a child of the %v, that of an earlier one of the %v", cur, r.id, p, r.span)
	}
	if p.Ends() > 0 {
		e.fail("T01", "stage call %d of request %d starts and the %v of the request is ended", len(r.stages), r.id, p)
	}
	r.stageSpans = append(r.stageSpans, cur)
	e.events.Add(1)
}

// leaked returns the spans of r that are not ended, apart from one that may be
// the group's.
func (e *engine) leaked(r *rec) (l []*tracer.Span, group *tracer.Span) {
	for _, s := range e.tr.Library(r.root) {
		if s.Ends() > 0 {
			continue
		}
		if s.Parent == r.root && s != r.span && group == nil {
			group = s
			continue
		}
		l = append(l, s)
	}
	return l, group
}

// traceOut looks at the spans of a request that came out. r.mu is held.
func (e *engine) traceOut(r *rec, q *req) {
	if r.root == nil {
		return
	}
	if l, _ := e.leaked(r); len(l) > 0 {
		e.fail("T01", "request %d came out and the %v is not ended", r.id, l[0])
	}
	if r.span != nil && r.span.Failed() != (q.Err != nil) {
		e.fail("T01", "request %d came out with the error %v, the status of its span is an error: %v", r.id, q.Err, r.span.Failed())
	}
	if r.span == nil && q.Err != nil {
		ok := false
		for _, s := range e.tr.Library(r.root) {
			ok = ok || s.Failed()
		}
		if !ok {
			e.fail("T01", "request %d came out with the error %v before its first stage, and none of its spans has the status of an error", r.id, q.Err)
		}
	}
	if cur := tracer.From(q.Ctx); cur != r.root {
		e.fail("T01", "request %d came out with the %v in its context, the caller's is the %v", r.id, cur, r.root)
	}
	e.events.Add(1)
}

// traceRejected looks at the spans of a request whose Submit failed. r.mu is held.
func (e *engine) traceRejected(r *rec) {
	if r.root == nil {
		return
	}
	if l, _ := e.leaked(r); len(l) > 0 {
		e.fail("T01", "Submit of request %d failed and the %v is not ended", r.id, l[0])
	}
	e.events.Add(1)
}

// traceGroup looks at the spans of a group that is closed.
func (e *engine) traceGroup(g *group) {
	if e.tr == nil {
		return
	}
	var groups []*tracer.Span
	var last int64
	var lastSpan *tracer.Span
	for _, r := range g.recs {
		if r.root == nil {
			continue
		}
		for _, s := range e.tr.Library(r.root) {
			if s.Ends() != 1 {
				e.fail("T01", "the group of request %d is closed and the %v is not ended once", r.id, s)
			}
		}
		for _, s := range r.stageSpans {
			if t := s.EndedAt(); t > last {
				last, lastSpan = t, s
			}
		}
		if r.span != nil && r.span.Parent != r.root {
			groups = append(groups, r.span.Parent)
		}
	}
	if len(groups) > 1 {
		e.fail("T01", "a group has two spans, %v and %v", groups[0], groups[1])
	}
	if len(groups) == 1 && groups[0].EndedAt() < last {
		e.fail("T01", "the %v of the group ended before the %v of a stage", groups[0], lastSpan)
	}
	e.s.Obs("group spans", len(groups))
	e.events.Add(1)
}

func newProvider(s *mon.S) *tracer.Provider {
	return &tracer.Provider{Twice: func(sp *tracer.Span) { s.Fail("the %v", sp) }}
}

// allEnded checks that every span of the library is ended once.
func allEnded(s *mon.S, tr *tracer.Provider, what string) {
	l := tr.Library(nil)
	s.Obs("spans of the library", len(l))
	s.Event(len(l))
	for _, sp := range l {
		if sp.Ends() != 1 {
			s.Fail("%s and the %v is not ended once", what, sp)
			return
		}
	}
}

// tGroup is a configuration of the wait.Group workload.
type tGroup struct {
	kind, size, adders, n, rounds int
	maxDur, errPct, cancelPct     int
	nest, untraced                int
	cancelOnErr                   bool
}

// groupCase uses a wait.Group with traced contexts.
func groupCase(c tGroup) mon.Case {
	return mon.Case{Name: "wait.Group", Params: mon.P(c), Run: func(s *mon.S) {
		tr := newProvider(s)
		pool, opts := kit.NewPool(c.kind, c.size)
		w := wait.Group{Pool: pool, PoolOptions: opts}
		if s.R.IntN(2) == 0 {
			w.Name = "verif"
		}
		old := map[*tracer.Span]bool{}
		s.Within(time.Hour, "wait.Group with traced contexts", func() {
			for round := 0; round < c.rounds; round++ {
				base := context.Background()
				if c.cancelOnErr {
					base, w.CancelOnErr = context.WithCancel(base)
				}
				var mu sync.Mutex
				var span *tracer.Span
				var errs []error
				var cancels []context.CancelFunc
				var running, ran, want atomic.Int64
				// With no untraced contexts every function must see the same span.
				var add func(r *rand.Rand, depth int, ctx context.Context)
				add = func(r *rand.Rand, depth int, parent context.Context) {
					ctx := parent
					var root *tracer.Span
					key := new(int)
					if r.IntN(100) >= c.untraced && depth == 0 {
						ctx, root = tr.Root(ctx, "caller")
					}
					ctx = context.WithValue(ctx, kit.Key{}, key)
					if r.IntN(100) < c.cancelPct {
						var cancel context.CancelFunc
						ctx, cancel = context.WithTimeout(ctx, time.Duration(r.IntN(50))*time.Microsecond)
						mu.Lock()
						cancels = append(cancels, cancel)
						mu.Unlock()
					}
					dur := r.IntN(c.maxDur + 1)
					var err error
					if r.IntN(100) < c.errPct {
						err = fmt.Errorf("error %d", r.Int())
					}
					seed := r.Uint64()
					want.Add(1)
					w.Go(ctx, func(ctx context.Context) error {
						running.Add(1)
						defer running.Add(-1)
						ran.Add(1)
						if ctx.Value(kit.Key{}) != key {
							s.Fail("a function has the context of another one")
						}
						cur := tracer.From(ctx)
						s.Event(1)
						if c.untraced == 0 {
							mu.Lock()
							switch {
							case cur == nil || cur.Own:
								s.Fail("a function sees the %v, not the Group's", cur)
							case span == nil && old[cur]:
								s.Fail("a function sees the %v of an earlier round", cur)
							case span == nil:
								span = cur
								old[cur] = true
								if p := cur.Parent; p == nil || !p.Own {
									s.Fail("the %v of the Group is a child of the %v, not of a caller's span", cur, p)
								}
							case span != cur:
								s.Fail("a function sees the %v, another one sees the %v", cur, span)
							}
							mu.Unlock()
							if cur != nil && cur.Ends() != 0 {
								s.Fail("a function starts and the %v of the Group is ended", cur)
							}
						} else if root != nil && (cur == nil || cur.Own && cur != root) {
							s.Fail("a function given with a traced context sees the %v", cur)
						}
						kit.Work(dur)
						if depth < c.nest {
							add(rand.New(rand.NewPCG(seed, 1)), depth+1, ctx)
						}
						if cur != nil && !cur.Own && cur.Ends() != 0 {
							s.Fail("a function is running and the %v of the Group is ended", cur)
						}
						if err != nil {
							mu.Lock()
							errs = append(errs, err)
							mu.Unlock()
						}
						return err
					})
				}
				var wg sync.WaitGroup
				for a := 0; a < c.adders; a++ {
					r := rand.New(rand.NewPCG(s.R.Uint64(), 1))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < c.n; i++ {
							add(r, 0, base)
						}
					}()
				}
				wg.Wait()
				err := w.Wait(context.Background())
				if n := running.Load(); n != 0 {
					s.Fail("Wait returned while %d functions are running", n)
				}
				for _, e := range errs {
					if !errors.Is(err, e) {
						s.Fail("Wait of a traced Group returned %v, without the error %v", err, e)
					}
				}
				if ran.Load() != want.Load() && err == nil || ran.Load() == want.Load() && (err == nil) != (len(errs) == 0) {
					s.Fail("%d of %d functions ran, %d returned errors, and Wait of a traced Group returned %v", ran.Load(), want.Load(), len(errs), err)
				}
				allEnded(s, tr, "Wait returned")
				for _, c := range cancels {
					c()
				}
			}
		})
		if pool != nil {
			pool.Close()
		}
	}}
}

// accessCase uses slices and chans with a traced context.
func accessCase(what, kind, n, errPct, cancelAt int, stop bool) mon.Case {
	name := []string{"slices.Access", "chans.Access", "chans.Modify"}[what]
	return mon.Case{Name: name, Params: fmt.Sprintf("pool=%d n=%d errPct=%d cancelAt=%d stop=%v", kind, n, errPct, cancelAt, stop), Run: func(s *mon.S) {
		tr := newProvider(s)
		ctx, _ := tr.Root(context.Background(), "caller")
		if cancelAt > 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, time.Duration(cancelAt)*time.Microsecond)
			defer cancel()
		}
		pool, sub := kit.NewPool(kind, 3)
		seen := make([]atomic.Int64, n)
		errs := make([]error, n)
		for i := range errs {
			if s.R.IntN(100) < errPct {
				errs[i] = fmt.Errorf("error %d", i)
			}
		}
		f := func(ctx context.Context, i int) error {
			if seen[i].Add(1) > 1 {
				s.Fail("value %d was visited twice", i)
			}
			cur := tracer.From(ctx)
			if cur == nil || cur.Ends() > 0 {
				s.Fail("the accessor of a traced call sees the %v", cur)
			}
			kit.Work(i % 5)
			if cur != nil && cur.Ends() > 0 {
				s.Fail("an accessor is running and the %v is ended", cur)
			}
			s.Event(1)
			return errs[i]
		}
		in := make(chan int, 2)
		var err error
		s.Within(time.Hour, name+" with a traced context", func() {
			if what > 0 {
				go func() {
					defer close(in)
					for i := 0; i < n; i++ {
						select {
						case in <- i:
						case <-ctx.Done():
							return
						case <-time.After(time.Minute):
							return
						}
					}
				}()
			}
			var so []slices.SliceOption
			var co []chans.Option
			if pool != nil {
				so, co = append(so, slices.WithPoolOptions(pool, sub...)), append(co, chans.WithPoolOptions(pool, sub...))
			}
			if stop {
				so, co = append(so, slices.WithStopOnErr()), append(co, chans.WithStopOnErr())
			}
			switch what {
			case 0:
				err = slices.Access(ctx, make([]int, n), func(ctx context.Context, i int, _ int, _ slices.Modifier[int]) error { return f(ctx, i) }, so...)
			case 1:
				err = chans.Access(ctx, in, f, co...)
			case 2:
				out := make(chan chans.StreamResult[int], 1)
				done := make(chan struct{})
				go func() {
					defer close(done)
					for range out {
					}
				}()
				err = chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, co...)
				<-done
			}
			allEnded(s, tr, name+" returned")
		})
		all, bad := true, false
		for i := range seen {
			all = all && seen[i].Load() == 1
			if errs[i] != nil && seen[i].Load() > 0 {
				bad = true
				if !stop && cancelAt == 0 && !errors.Is(err, errs[i]) {
					s.Fail("%s of a traced call returned %v, without the error of value %d", name, err, i)
				}
			}
		}
		if (err == nil) != (all && !bad) && (cancelAt == 0 || err == nil) {
			s.Fail("%s of a traced call returned %v, all visited: %v, errors: %v", name, err, all, bad)
		}
		if pool != nil {
			pool.Close()
		}
	}}
}

func genT01(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg) {
		if c.trace == 0 {
			c.trace = 100
		}
		cs = append(cs, engineCase("T01", name, c))
	}
	for sm := 0; sm < kinds; sm++ {
		ord := sm%2 == 0
		add("pipelines", cfg{sm: sm, num: 2, ordered: ord, groups: 3, subs: 2, reqs: 6, route: 4, maxDur: 5, readDur: 2, pps: 1, errPct: 8, ppErrPct: 8, preErrPct: 8, stalePct: 10})
		add("pipelines", cfg{sm: sm, num: 2, ordered: !ord, dag: true, repeat: true, groups: 2, subs: 2, reqs: 6, route: 5, maxDur: 5, pps: sm % 3, trace: 60, stageCancelPct: 8})
		add("pipelines, cancelled", cfg{sm: sm, num: 1, ordered: ord, groups: 3, subs: 3, reqs: 6, route: 3, maxDur: 8, cancelPct: 50, cancelAt: 200, preCancelPct: 10, nilPct: 5})
		add("pipelines, chain", cfg{sm: sm, num: 2, ordered: !ord, dag: true, groups: 2, subs: 2, reqs: 6, route: 3, maxDur: 4, errPct: 5, chain: true})
	}
	n, m := 10, 40
	if thorough {
		n, m = 100, 400
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.reqs, c.groups = c.reqs%8, 1+c.groups%3
		c.trace = []int{100, 100, 70, 30}[r.IntN(4)]
		c.errPct, c.ppErrPct, c.preErrPct, c.stageCancelPct = r.IntN(10), r.IntN(10), r.IntN(10), r.IntN(2)*r.IntN(10)
		c.cancelPct, c.cancelAt, c.preCancelPct = r.IntN(2)*r.IntN(60), r.IntN(300), r.IntN(2)*r.IntN(20)
		c.chain, c.closeFirst, c.lateRead = r.IntN(4) == 0, r.IntN(4) == 0, r.IntN(6) == 0
		c.churn = r.IntN(3)
		add("pipelines, mixed", c)
	}
	for i := 0; i < m; i++ {
		cs = append(cs, groupCase(tGroup{kind: i % 5, size: 1 + r.IntN(4), adders: 1 + r.IntN(3), n: 1 + r.IntN(8), rounds: 1 + r.IntN(3), maxDur: r.IntN(6), errPct: r.IntN(2) * 30,
			cancelPct: r.IntN(2) * 20, nest: r.IntN(2) * (1 - (i % 5 & 1)) * (1 - (i%5)/2%2), untraced: r.IntN(3) / 2 * 50, cancelOnErr: r.IntN(3) == 0}))
		cs = append(cs, accessCase(i%3, r.IntN(5), r.IntN(20), r.IntN(2)*20, r.IntN(2)*r.IntN(2)*r.IntN(60), r.IntN(3) == 0))
	}
	return cs
}
