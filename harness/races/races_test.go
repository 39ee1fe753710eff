// Package races uses every package of the library under the race detector.
//
// The workloads synchronise through the library only: what a job, function,
// accessor or stage writes is plain memory, and so is what its observer reads
// after the library has told it that the work is done. A missing
// happens-before edge anywhere in between is a report of the detector,
// whatever the schedule happened to be. Nothing in here may add such an edge:
// no atomics, locks, channels or monitor calls inside the work.
package races

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	regz "github.com/gostdlib/concurrency/goroutines/zzverif"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	queuez "github.com/gostdlib/concurrency/pipelines/stagedpipe/zzverif"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/kit"
	"verifharness/mon"
	"verifharness/tracer"
)

// slot is plain memory of one piece of work. in is written before the work is
// handed over, out by the work.
type slot struct {
	in, out int
	data    []int
}

func (x *slot) prepare(i int) {
	x.in = 3*i + 1
	x.data = []int{i, i}
}

func (x *slot) work(pace int) {
	spin(pace)
	x.data[1] += x.in
	x.out = 2*x.in + x.data[0]
}

// done checks the slot of finished work.
func (x *slot) done(s *mon.S, i int, what string) {
	if x.out != 2*(3*i+1)+i || x.data[1] != i+3*i+1 {
		s.Fail("%s: the effects of the work are not visible after its completion", what)
	}
}

// spin takes some time without synchronising.
func spin(n int) {
	switch {
	case n == 0:
	case n < 4:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	default:
		x := 1
		for i := 0; i < n*200; i++ {
			x = x*7 + i
		}
		if x == 0 {
			runtime.Gosched()
		}
	}
}

// observer calls f until it is told to stop. The caller must not wait for the
// observer before it has looked at the slots.
func observer(f func()) (stop func()) {
	var flag atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		for !flag.Load() {
			f()
			runtime.Gosched()
		}
	}()
	return func() {
		flag.Store(true)
		<-done
	}
}

// ---------------------------------------------------------------- pools

type poolCfg struct {
	kind, size, submitters, per, nbPct, nest, rounds, pace int
	closing, watched                                       bool
}

func nonBlocking(kind int) []goroutines.SubmitOption {
	if kind%2 == 1 {
		return []goroutines.SubmitOption{limited.NonBlocking()}
	}
	return []goroutines.SubmitOption{pooled.NonBlocking()}
}

func poolCase(c poolCfg) mon.Case {
	return mon.Case{Name: "pool", Params: mon.P(c), Run: func(s *mon.S) {
		p, _ := kit.NewPool(c.kind, c.size)
		stop := func() {}
		if c.watched {
			stop = observer(func() {
				if p.Running() < 0 || p.Len() != c.size || p.GetName() != "" {
					s.Fail("Running, Len or GetName is wrong")
				}
			})
		}
		for round := 0; round < c.rounds; round++ {
			slots := make([]slot, c.submitters*c.per*(1+c.nest))
			var subs sync.WaitGroup
			for g := 0; g < c.submitters; g++ {
				r := rand.New(rand.NewPCG(s.R.Uint64(), 1))
				subs.Add(1)
				go func() {
					defer subs.Done()
					for i := 0; i < c.per; i++ {
						k := (g*c.per + i) * (1 + c.nest)
						var o []goroutines.SubmitOption
						if r.IntN(100) < c.nbPct {
							o = nonBlocking(c.kind)
						}
						pace := r.IntN(c.pace + 1)
						slots[k].prepare(k)
						p.Submit(context.Background(), func(context.Context) {
							slots[k].work(pace)
							for n := 1; n <= c.nest; n++ {
								slots[k+n].prepare(k + n)
								p.Submit(context.Background(), func(context.Context) { slots[k+n].work(pace) }, nonBlocking(c.kind)...)
							}
						}, o...)
					}
				}()
			}
			subs.Wait()
			if c.closing && round == c.rounds-1 {
				p.Close()
			} else {
				p.Wait()
			}
			for i := range slots {
				slots[i].done(s, i, "pool")
			}
			s.Event(len(slots))
		}
		if !c.closing {
			p.Close()
		}
		stop()
	}}
}

// registryCase creates, lists and closes named pools.
func registryCase(makers, per int) mon.Case {
	return mon.Case{Name: "named pools", Params: fmt.Sprintf("makers=%d per=%d", makers, per), Run: func(s *mon.S) {
		stop := observer(func() {
			for p := range regz.Pools() {
				_ = p.GetName()
				_ = p.Len()
				_ = p.Running()
			}
		})
		var wg sync.WaitGroup
		slots := make([]slot, makers*per)
		for m := 0; m < makers; m++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					k := m*per + i
					var p goroutines.Pool
					var err error
					if k%2 == 0 {
						p, err = limited.New("races", 2)
					} else {
						p, err = pooled.New("races", 2)
					}
					if err != nil {
						s.Fail("New: %v", err)
						return
					}
					slots[k].prepare(k)
					p.Submit(context.Background(), func(context.Context) { slots[k].work(1) })
					p.Close()
					slots[k].done(s, k, "named pool")
				}
			}()
		}
		wg.Wait()
		stop()
		s.Event(len(slots))
	}}
}

// ---------------------------------------------------------------- wait.Group

type groupCfg struct {
	kind, size, adders, per, rounds, errPct, nest, pace int
	cancel, traced                                      bool
}

func groupCase(c groupCfg) mon.Case {
	return mon.Case{Name: "wait.Group", Params: mon.P(c), Run: func(s *mon.S) {
		pool, opts := kit.NewPool(c.kind, c.size)
		w := wait.Group{Pool: pool, PoolOptions: opts}
		stop := observer(func() {
			if w.Running() < 0 {
				s.Fail("Running is negative")
			}
		})
		for round := 0; round < c.rounds; round++ {
			ctx := context.Background()
			if c.traced {
				ctx, _ = (&tracer.Provider{}).Root(ctx, "caller")
			}
			if c.cancel {
				_, w.CancelOnErr = context.WithCancel(ctx) // nobody looks at the context
			}
			slots := make([]slot, c.adders*c.per*(1+c.nest))
			errs := make([]*kit.MyErr, len(slots))
			var adders sync.WaitGroup
			for g := 0; g < c.adders; g++ {
				r := rand.New(rand.NewPCG(s.R.Uint64(), 1))
				adders.Add(1)
				go func() {
					defer adders.Done()
					for i := 0; i < c.per; i++ {
						k := (g*c.per + i) * (1 + c.nest)
						pace := r.IntN(c.pace + 1)
						bad := r.IntN(100) < c.errPct
						slots[k].prepare(k)
						w.Go(ctx, func(ctx context.Context) error {
							slots[k].work(pace)
							for n := 1; n <= c.nest; n++ {
								slots[k+n].prepare(k + n)
								w.Go(ctx, func(context.Context) error {
									slots[k+n].work(pace)
									return nil
								})
							}
							if bad {
								errs[k] = &kit.MyErr{ID: k}
								return errs[k]
							}
							return nil
						})
					}
				}()
			}
			adders.Wait()
			err := w.Wait(context.Background())
			for i := range slots {
				slots[i].done(s, i, "wait.Group")
				if errs[i] != nil && (errs[i].ID != i || !errors.Is(err, errs[i])) {
					s.Fail("Wait returned %v, without error %d", err, i)
				}
			}
			if err != nil {
				_ = err.Error()
			}
			s.Event(len(slots))
		}
		stop()
		if pool != nil {
			pool.Close()
		}
	}}
}

// ---------------------------------------------------------------- slices and chans

type accessCfg struct {
	what, kind, n, errPct, calls, pace, buf int
	stop, traced                            bool
}

func accessCase(c accessCfg) mon.Case {
	name := []string{"slices.Access", "chans.Access", "chans.Modify"}[c.what]
	return mon.Case{Name: name, Params: mon.P(c), Run: func(s *mon.S) {
		pool, sub := kit.NewPool(c.kind, 3)
		var so []slices.SliceOption
		var co []chans.Option
		if pool != nil {
			so, co = append(so, slices.WithPoolOptions(pool, sub...)), append(co, chans.WithPoolOptions(pool, sub...))
		}
		if c.stop {
			so, co = append(so, slices.WithStopOnErr()), append(co, chans.WithStopOnErr())
		}
		var calls sync.WaitGroup
		for k := 0; k < c.calls; k++ {
			seed := s.R.Uint64()
			calls.Add(1)
			go func() {
				defer calls.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				ctx := context.Background()
				if c.traced {
					ctx, _ = (&tracer.Provider{}).Root(ctx, "caller")
				}
				slots := make([]slot, c.n)
				bad := make([]bool, c.n)
				paces := make([]int, c.n)
				ran := make([]bool, c.n) // written by the accessors
				for i := range slots {
					bad[i] = r.IntN(100) < c.errPct
					paces[i] = r.IntN(c.pace + 1)
				}
				work := func(i int) error {
					ran[i] = true
					slots[i].work(paces[i])
					if bad[i] {
						return &kit.MyErr{ID: i}
					}
					return nil
				}
				in := make(chan *int, c.buf)
				if c.what > 0 {
					ended := make(chan struct{})
					defer close(ended)
					go func() {
						defer close(in)
						for i := 0; i < c.n; i++ {
							v := new(int)
							*v = i
							slots[i].prepare(i)
							select {
							case in <- v:
							case <-ended:
								return
							}
						}
					}()
				}
				var err error
				switch c.what {
				case 0:
					l := make([]*int, c.n)
					for i := range l {
						l[i] = new(int)
						*l[i] = i
						slots[i].prepare(i)
					}
					err = slices.Access(ctx, l, func(_ context.Context, i int, v *int, m slices.Modifier[*int]) error {
						n := *v + 1000
						m(&n)
						return work(*v)
					}, so...)
					for i := range l {
						if ran[i] != (*l[i] == i+1000) {
							s.Fail("slices.Access: element %d is %d after the return", i, *l[i])
						}
					}
				case 1:
					err = chans.Access(ctx, in, func(_ context.Context, v *int) error { return work(*v) }, co...)
				case 2:
					out := make(chan chans.StreamResult[*slot], c.buf)
					read := make(chan struct{})
					go func() {
						defer close(read)
						for o := range out {
							if o.Err != nil {
								var e *kit.MyErr
								if errors.As(o.Err, &e) {
									slots[e.ID].done(s, e.ID, "error of chans.Modify")
								}
								continue
							}
							o.Value.done(s, o.Value.data[0], "result of chans.Modify")
						}
					}()
					err = chans.Modify(ctx, in, out, func(_ context.Context, v *int) (*slot, error) { return &slots[*v], work(*v) }, co...)
					if c.n%2 == 0 {
						<-read
					} else {
						defer func() { <-read }()
					}
				}
				anyBad := false
				for i := range slots {
					if ran[i] {
						slots[i].done(s, i, name)
						anyBad = anyBad || bad[i]
					} else if !c.stop {
						s.Fail("%s: value %d was not visited", name, i)
					}
				}
				if (err != nil) != anyBad {
					s.Fail("%s returned %v, an accessor returned an error: %v", name, err, anyBad)
				}
				if err != nil {
					_ = err.Error()
				}
			}()
		}
		calls.Wait()
		s.Event(c.calls * c.n)
		if pool != nil {
			pool.Close()
		}
	}}
}

// ---------------------------------------------------------------- RWValue, Errors

func valueCase(readers, writers, replacers, per int) mon.Case {
	return mon.Case{Name: "RWValue", Params: fmt.Sprintf("readers=%d writers=%d replacers=%d per=%d", readers, writers, replacers, per), Run: func(s *mon.S) {
		type box struct{ a, b int }
		var v atomics.RWValue[*box]
		count := 0 // under the protection of LoadReplace
		var wg sync.WaitGroup
		work := func(n int, f func(i int)) {
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						f(g*per + i)
					}
				}()
			}
		}
		work(writers, func(i int) {
			b := &box{}
			b.a = i
			b.b = -i
			v.Store(b)
		})
		work(readers, func(i int) {
			if b := v.Load(); b != nil && b.a != -b.b {
				s.Fail("Load returned a torn value")
			}
		})
		work(replacers, func(i int) {
			err := v.LoadReplace(func(b *box) (*box, error) {
				count++
				n := &box{}
				if b != nil {
					*n = *b
				}
				n.a++
				n.b--
				if i%5 == 0 {
					return nil, errors.New("no")
				}
				return n, nil
			})
			if (err != nil) != (i%5 == 0) {
				s.Fail("LoadReplace returned %v", err)
			}
		})
		wg.Wait()
		if count != replacers*per {
			s.Fail("%d of %d replacers ran", count, replacers*per)
		}
		s.Event((readers + writers + replacers) * per)
	}}
}

func errorsCase(writers, readers, per int) mon.Case {
	return mon.Case{Name: "Errors", Params: fmt.Sprintf("writers=%d readers=%d per=%d", writers, readers, per), Run: func(s *mon.S) {
		var e goroutines.Errors
		var wg sync.WaitGroup
		for g := 0; g < writers+readers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					if g < writers {
						x := &kit.MyErr{}
						x.ID = 1 + g*per + i
						e.Record(x)
						continue
					}
					l := e.Errors()
					for _, x := range l {
						if x.(*kit.MyErr).ID == 0 {
							s.Fail("an error is not complete")
						}
					}
					if len(l) > 0 {
						l[0] = nil
					}
					l = append(l, nil)
					if x := e.Error(); x != nil && x.(*kit.MyErr).ID == 0 {
						s.Fail("an error is not complete")
					}
				}
			}()
		}
		wg.Wait()
		s.Event((writers + readers) * per)
	}}
}

// ---------------------------------------------------------------- queue

func queueCase(limit, pushers, poppers, per int) mon.Case {
	return mon.Case{Name: "queue", Params: fmt.Sprintf("limit=%d pushers=%d poppers=%d per=%d", limit, pushers, poppers, per), Run: func(s *mon.S) {
		q := queuez.NewQueue[*slot](limit)
		var push, pop sync.WaitGroup
		for g := 0; g < pushers; g++ {
			push.Add(1)
			go func() {
				defer push.Done()
				for i := 0; i < per; i++ {
					x := &slot{}
					x.prepare(g*per + i)
					x.work(0)
					q.Push(x)
				}
			}()
		}
		for g := 0; g < poppers; g++ {
			pop.Add(1)
			go func() {
				defer pop.Done()
				for {
					x, ok := q.Pop()
					if !ok {
						return
					}
					x.done(s, x.data[0], "queue")
				}
			}()
		}
		push.Wait()
		q.Close()
		pop.Wait()
		s.Event(pushers * per)
	}}
}

// ---------------------------------------------------------------- pipelines

type payload struct {
	id, stages, pps int
	slot            slot
	pace            int
}

type sm struct {
	slots  []*payload
	closed bool
	errPct int
	s      *mon.S
	ended  chan struct{}
}

type preq = stagedpipe.Request[*payload]

func (m *sm) Start(r preq) preq {
	r.Data.slot.work(r.Data.pace)
	r.Data.stages++
	r.Next = m.Middle
	return r
}

func (m *sm) Middle(r preq) preq {
	r.Data.stages++
	if r.Data.id*37%100 < m.errPct {
		r.Err = fmt.Errorf("error %d", r.Data.id)
		return r
	}
	r.Next = m.Last
	return r
}

func (m *sm) Last(r preq) preq {
	r.Data.stages++
	r.Next = nil
	return r
}

// Close sees what all stages have done.
func (m *sm) Close() {
	m.closed = true
	for _, p := range m.slots {
		if p.stages != -1 {
			p.slot.done(m.s, p.id, "Close of the state machine")
		}
	}
	close(m.ended)
}

type pipeCfg struct {
	num, groups, subs, per, rounds, pace, errPct, cancelPct int
	dag, ordered, pps, traced                               bool
}

func pipeCase(c pipeCfg) mon.Case {
	return mon.Case{Name: "pipelines", Params: mon.P(c), Run: func(s *mon.S) {
		m := &sm{errPct: c.errPct, s: s, ended: make(chan struct{})}
		n := c.groups * c.rounds * c.subs * c.per
		m.slots = make([]*payload, n)
		for i := range m.slots {
			m.slots[i] = &payload{id: i, pace: s.R.IntN(c.pace + 1)}
		}
		var o []stagedpipe.Option[*payload]
		if c.dag {
			o = append(o, stagedpipe.DAG[*payload]())
		}
		if c.ordered {
			o = append(o, stagedpipe.Ordered[*payload]())
		}
		if c.pps {
			o = append(o, stagedpipe.PreProcessors(func(r preq) preq {
				r.Data.pps++
				return r
			}))
		}
		p, err := stagedpipe.New("races", c.num, stagedpipe.StateMachine[*payload](m), o...)
		if err != nil {
			s.Fail("New: %v", err)
			return
		}
		stop := observer(func() {
			if st := p.Stats(); st.Running < 0 || st.Completed < 0 {
				s.Fail("Stats: %v", st)
			}
		})
		var all sync.WaitGroup
		for g := 0; g < c.groups; g++ {
			all.Add(1)
			go func() {
				defer all.Done()
				for k := 0; k < c.rounds; k++ {
					rg := p.NewRequestGroup()
					read := make(chan struct{})
					go func() {
						defer close(read)
						for r := range rg.Out() {
							d := r.Data
							want := 3
							if r.Err != nil {
								want = 2
								_ = r.Err.Error()
							}
							if errors.Is(r.Err, context.Canceled) {
								d.stages = -1
								continue
							}
							if d.stages != want || c.pps && d.pps != want {
								s.Fail("request %d came out after %d stages and %d preprocessors with the error %v", d.id, d.stages, d.pps, r.Err)
							}
							d.slot.done(s, d.id, "delivered request")
							d.slot.data = append(d.slot.data, 1) // it belongs to the receiver now
						}
					}()
					var subs sync.WaitGroup
					for w := 0; w < c.subs; w++ {
						base := ((g*c.rounds+k)*c.subs + w) * c.per
						subs.Add(1)
						go func() {
							defer subs.Done()
							for i := 0; i < c.per; i++ {
								d := m.slots[base+i]
								d.slot.prepare(d.id)
								ctx, cancel := context.Background(), func() {}
								if c.traced {
									ctx, _ = (&tracer.Provider{}).Root(ctx, "caller")
								}
								if d.id*53%100 < c.cancelPct {
									ctx, cancel = context.WithCancel(ctx)
								}
								done := make(chan struct{})
								go func() {
									defer close(done)
									cancel()
								}()
								if err := rg.Submit(preq{Ctx: ctx, Data: d}); err != nil {
									if !errors.Is(err, context.Canceled) {
										s.Fail("Submit: %v", err)
									}
									d.stages = -1 // it belongs to the caller again
								}
								<-done
							}
						}()
					}
					subs.Wait()
					rg.Close()
					<-read
				}
			}()
		}
		all.Wait()
		p.Close()
		<-m.ended
		if !m.closed {
			s.Fail("the state machine is not closed")
		}
		stop()
		s.Event(n)
	}}
}

// ---------------------------------------------------------------- mixed

// mixedCase uses several packages over one pool.
func mixedCase(kind, size, users int) mon.Case {
	return mon.Case{Name: "shared pool", Params: fmt.Sprintf("pool=%d size=%d users=%d", kind, size, users), Run: func(s *mon.S) {
		p, _ := kit.NewPool(kind, size)
		var v atomics.RWValue[map[int]*slot]
		var errs goroutines.Errors
		var wg sync.WaitGroup
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots := make([]slot, 12)
				for i := range slots {
					slots[i].prepare(i)
				}
				switch u % 3 {
				case 0:
					g := wait.Group{Pool: p}
					for i := range slots {
						g.Go(context.Background(), func(context.Context) error {
							slots[i].work(i % 4)
							if i == 3 {
								errs.Record(&kit.MyErr{ID: i})
							}
							return nil
						})
					}
					if err := g.Wait(context.Background()); err != nil {
						s.Fail("Wait: %v", err)
					}
				case 1:
					err := slices.Access(context.Background(), slots, func(_ context.Context, i int, _ slot, _ slices.Modifier[slot]) error {
						return v.LoadReplace(func(old map[int]*slot) (map[int]*slot, error) {
							slots[i].work(0)
							n := map[int]*slot{}
							for k, x := range old {
								n[k] = x
							}
							n[100*u+i] = &slots[i]
							return n, nil
						})
					}, slices.WithPoolOptions(p))
					if err != nil {
						s.Fail("Access: %v", err)
					}
				case 2:
					in := make(chan *slot)
					go func() {
						defer close(in)
						for i := range slots {
							in <- &slots[i]
						}
					}()
					out := make(chan chans.StreamResult[*slot], 1)
					go func() {
						if err := chans.Modify(context.Background(), in, out, func(_ context.Context, x *slot) (*slot, error) {
							x.work(1)
							return x, nil
						}, chans.WithPoolOptions(p)); err != nil {
							s.Fail("Modify: %v", err)
						}
					}()
					for o := range out {
						o.Value.done(s, o.Value.data[0], "shared pool")
					}
				}
				for i := range slots {
					slots[i].done(s, i, "shared pool")
				}
				for _, x := range errs.Errors() {
					if x.(*kit.MyErr).ID != 3 {
						s.Fail("an error is not complete")
					}
				}
			}()
		}
		wg.Wait()
		for _, x := range v.Load() {
			if x.out == 0 {
				s.Fail("the effects of an accessor are not visible through the RWValue")
			}
		}
		p.Close()
		s.Event(12 * users)
	}}
}

func gen(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	mul := 1
	if thorough {
		mul = 8
	}
	for i := 0; i < 16*mul; i++ {
		cs = append(cs, poolCase(poolCfg{kind: 1 + i%2, size: 1 + r.IntN(4), submitters: 1 + r.IntN(4), per: 1 + r.IntN(20), nbPct: r.IntN(3) * 50, nest: i / 2 % 2 * r.IntN(3), rounds: 1 + r.IntN(3),
			pace: r.IntN(8), closing: r.IntN(2) == 0, watched: r.IntN(2) == 0}))
	}
	for i := 0; i < 3*mul; i++ {
		cs = append(cs, registryCase(1+r.IntN(5), 1+r.IntN(15)))
	}
	for i := 0; i < 18*mul; i++ {
		k := i % 5
		cs = append(cs, groupCase(groupCfg{kind: k, size: 1 + r.IntN(4), adders: 1 + r.IntN(4), per: 1 + r.IntN(12), rounds: 1 + r.IntN(3), errPct: r.IntN(2) * 40, nest: r.IntN(2) * (1 - (k+1)/2%2),
			pace: r.IntN(8), cancel: r.IntN(3) == 0, traced: r.IntN(4) == 0}))
	}
	for i := 0; i < 30*mul; i++ {
		cs = append(cs, accessCase(accessCfg{what: i % 3, kind: i / 3 % 5, n: r.IntN(30), errPct: r.IntN(2) * 20, calls: 1 + r.IntN(3), pace: r.IntN(8), buf: r.IntN(3), stop: r.IntN(4) == 0, traced: r.IntN(5) == 0}))
	}
	for i := 0; i < 4*mul; i++ {
		cs = append(cs, valueCase(1+r.IntN(4), r.IntN(3), r.IntN(4), 1+r.IntN(100)))
		cs = append(cs, errorsCase(1+r.IntN(4), 1+r.IntN(3), 1+r.IntN(30)))
		cs = append(cs, queueCase(r.IntN(3)*r.IntN(5), 1+r.IntN(4), 1+r.IntN(4), 1+r.IntN(40)))
		cs = append(cs, mixedCase(1+i%2, 1+r.IntN(4), 1+r.IntN(6)))
	}
	for i := 0; i < 20*mul; i++ {
		cs = append(cs, pipeCase(pipeCfg{num: 1 + r.IntN(3), groups: 1 + r.IntN(4), subs: 1 + r.IntN(3), per: 1 + r.IntN(8), rounds: 1 + r.IntN(3), pace: r.IntN(8), errPct: r.IntN(2) * 30, cancelPct: r.IntN(2) * 30,
			dag: r.IntN(2) == 0, ordered: i%2 == 0, pps: r.IntN(2) == 0, traced: r.IntN(4) == 0}))
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"R01": {Gen: gen, Reps: 24, MinEvents: 5000, NoBubble: true, Rule: "a case is a package, its configuration and the amount of work; distinct by parameters and how often each library step was taken"},
	})
}
