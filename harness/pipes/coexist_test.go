package pipes

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/kit"
	"verifharness/mon"
)

// ---------------------------------------------------------------- X02

// sharedSM is the state machine of several Pipelines at once.
type sharedSM struct {
	s       *mon.S
	mu      sync.Mutex
	engines []*engine
}

func (m *sharedSM) Start(r req) req                 { return r.Data.Rec.eng.step(0, r) }
func (m *sharedSM) S1(r req) req                    { return r.Data.Rec.eng.step(1, r) }
func (m *sharedSM) S2(r req) req                    { return r.Data.Rec.eng.step(2, r) }
func (m *sharedSM) S3(r req) req                    { return r.Data.Rec.eng.step(3, r) }
func (m *sharedSM) n() int                          { return 4 }
func (m *sharedSM) options() []stagedpipe.Option[D] { return nil }
func (m *sharedSM) at(i int) stage                  { return []stage{m.Start, m.S1, m.S2, m.S3}[i] }

// Close must be for one of the Pipelines that are closed, which have nothing in flight then.
func (m *sharedSM) Close() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, e := range m.engines {
		if e.closing.Load() && e.closed.Load() == 0 {
			e.smClose()
			return
		}
	}
	m.s.Fail("the Close of a state machine of several Pipelines was called once more than Pipelines are closed")
}

// tenant is one of the Pipelines.
type tenant struct {
	c     cfg
	over  bool // the shared state machine
	hog   bool // all its places are taken while the others are used
	quiet bool // its output is not read while the others are used
	early bool // closed when its groups are
	late  int  // starts that many µs later
}

func (t tenant) String() string {
	return fmt.Sprintf("%s over=%v hog=%v quiet=%v early=%v late=%d", mon.P(t.c), t.over, t.hog, t.quiet, t.early, t.late)
}

// backlog is a Pipelines that is stuck, because the output of its group is not read.
type backlog struct {
	g  *group
	wg sync.WaitGroup
}

func (e *engine) pile() *backlog {
	b := &backlog{g: e.newGroup(1 << 20)}
	for i := 0; i < e.c.num*e.k+8; i++ {
		x := &rec{id: int(e.ids.Add(1)), group: b.g.id, cancelled: -1, taken: -1, end: -1, plan: []planStep{{}}}
		x.ctx = context.WithValue(context.Background(), kit.Key{}, x)
		b.g.recs = append(b.g.recs, x)
		b.wg.Add(1)
		go func() {
			defer b.wg.Done()
			b.g.submit(x, false)
		}()
	}
	return b
}

func (b *backlog) end() bool {
	go b.g.read(1)
	if !b.g.e.s.Within(time.Hour, "Close of a group that was not read for some time", func() {
		b.wg.Wait()
		b.g.g.Close()
		<-b.g.outDone
	}) {
		return false
	}
	b.g.finish()
	return true
}

func coexist(name string, ts []tenant) mon.Case {
	return mon.Case{Name: name, Params: fmt.Sprint(ts), Run: func(s *mon.S) {
		shared := &sharedSM{s: s}
		engines := make([]*engine, len(ts))
		idle := make([]*engine, 0)
		newEng := func(i int) *engine {
			c := ts[i].c
			if ts[i].over {
				c.over = shared
			}
			e := newEngine(s, "X02", c)
			if c.over != nil {
				shared.mu.Lock()
				shared.engines = append(shared.engines, e)
				shared.mu.Unlock()
			}
			return e
		}
		// Before the others there are some, others come later.
		for i, t := range ts {
			if t.late == 0 {
				engines[i] = newEng(i)
			}
		}
		if s.Failed() {
			return
		}
		c := cfg{sm: 1, num: 1}
		idle = append(idle, newEngine(s, "X02", c))
		var hogs []*filled
		for i, t := range ts {
			if t.hog {
				f := engines[i].fill(1<<20, 5)
				s.Settle()
				f.check()
				hogs = append(hogs, f)
			}
		}
		var unread []*backlog
		for i, t := range ts {
			if t.quiet {
				unread = append(unread, engines[i].pile())
				s.Settle()
			}
		}
		var mu sync.Mutex // of s.R
		ok := s.Within(10*time.Hour, "use of several Pipelines at once: requests are stuck, or a Close or Out", func() {
			var wg sync.WaitGroup
			for i, t := range ts {
				if t.hog || t.quiet {
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					if t.late > 0 {
						time.Sleep(time.Duration(t.late) * time.Microsecond)
						mu.Lock()
						engines[i] = newEng(i)
						mu.Unlock()
					}
					e := engines[i]
					mu.Lock()
					wait := e.use()
					mu.Unlock()
					wait()
					if s.Failed() {
						return
					}
					if st := e.p.Stats(); st.Completed != e.accepted.Load() || st.Running != 0 {
						s.Fail("one of several Pipelines has Running %d and Completed %d when all its %d requests are delivered", st.Running, st.Completed, e.accepted.Load())
					}
					e.events.Add(1)
					if t.early {
						if e.closed.Load() != 0 {
							s.Fail("the state machine's Close was called before Pipelines.Close")
						}
						e.closing.Store(true)
						e.p.Close()
					}
				}()
			}
			wg.Wait()
		})
		if !ok || s.Failed() {
			return
		}
		closes := func() {
			for i, t := range ts {
				if n := engines[i].closed.Load(); t.early && n != 1 || !t.early && n != 0 {
					s.Fail("the Close of the state machine was called %d times for Pipelines %d of %d, closed: %v", n, i, len(ts), t.early)
				}
			}
		}
		s.Settle()
		closes()
		for _, h := range hogs {
			h.check()
			if !h.end() {
				return
			}
		}
		for _, b := range unread {
			if !b.end() {
				return
			}
		}
		s.Settle()
		closes()
		// Those that are left have all their places at the same time.
		var full []*filled
		for i, t := range ts {
			if !t.early {
				full = append(full, engines[i].fill(1<<20+1, 2))
			}
		}
		s.Settle()
		for _, f := range full {
			f.check()
			if st := f.e.p.Stats(); st.Running != int64(f.total) {
				s.Fail("one of several Pipelines has Running %d, %d requests are in its stages", st.Running, f.total)
			}
		}
		for _, f := range full {
			if !f.end() {
				return
			}
		}
		s.Settle()
		for _, e := range idle {
			if st := e.p.Stats(); st != (stagedpipe.Stats{}) {
				s.Fail("the Stats of Pipelines that never had a request are %+v", st)
			}
			e.close()
		}
		for i, t := range ts {
			e := engines[i]
			if st := e.p.Stats(); st.Completed != e.accepted.Load() || st.Running != 0 {
				s.Fail("one of several Pipelines has Running %d and Completed %d at the end, it had %d requests", st.Running, st.Completed, e.accepted.Load())
			}
			if !t.early {
				e.closing.Store(true)
				e.close()
			}
			s.Event(int(e.events.Load()))
		}
		s.Obs("Pipelines used at once", len(ts))
	}}
}

func genX02(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	for sm := 0; sm < kinds; sm++ {
		for _, ord := range []bool{false, true} {
			a := cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 6, route: 3, maxDur: 5}
			b := a
			b.ordered, b.dag, b.pps = !ord, true, 1
			cs = append(cs, coexist("same state machine kind", []tenant{{c: a}, {c: b}, {c: a, early: true}}))
			d := a
			d.objs = 1 + sm%2
			cs = append(cs, coexist("different sub-stages", []tenant{{c: d, early: ord}, {c: a}, {c: d, late: 50}, {c: a, late: 100}}))
			o := a
			o.sm = 0
			cs = append(cs, coexist("one is full", []tenant{{c: o, hog: true}, {c: a}, {c: b, early: true}}))
			cs = append(cs, coexist("one is not read", []tenant{{c: o, quiet: true}, {c: a}, {c: b, early: true}}))
		}
	}
	for _, ord := range []bool{false, true} {
		a := cfg{sm: 0, num: 1, ordered: ord, groups: 3, subs: 2, reqs: 8, route: 3, maxDur: 5, errPct: 10}
		b := cfg{sm: 0, num: 3, ordered: !ord, dag: true, pps: 2, ppErrPct: 5, groups: 2, subs: 2, reqs: 10, route: 4, repeat: true, maxDur: 8, cancelPct: 30, cancelAt: 200}
		cs = append(cs, coexist("one state machine", []tenant{{c: a, over: true}, {c: b, over: true}}))
		cs = append(cs, coexist("one state machine, closed one after the other", []tenant{{c: a, over: true, early: true}, {c: b, over: true}, {c: a, over: true, late: 100}, {c: b, over: true, late: 300, early: true}}))
		cs = append(cs, coexist("one state machine, one full", []tenant{{c: b, over: true, hog: true}, {c: b, over: true}, {c: a, over: true, early: true}}))
	}
	many := cfg{sm: 2, num: 40, groups: 1, subs: 4, reqs: 10, route: 2, maxDur: 5}
	cs = append(cs, coexist("many places", []tenant{{c: many}, {c: many, over: true}, {c: many}, {c: cfg{sm: big, num: 5}}}))
	cs = append(cs, coexist("many places", []tenant{{c: cfg{sm: big, num: 10}, hog: true}, {c: many, over: true}, {c: many}}))
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		var ts []tenant
		for k := 2 + r.IntN(4); k > 0; k-- {
			c := randCfg(r)
			c.feedback, c.groups, c.reqs = 0, 1+r.IntN(3), r.IntN(12)
			c.errPct, c.ppErrPct = r.IntN(2)*r.IntN(10), r.IntN(2)*r.IntN(10)
			c.cancelPct, c.cancelAt, c.preCancelPct = r.IntN(2)*r.IntN(60), r.IntN(500), r.IntN(2)*r.IntN(20)
			c.churn = r.IntN(3)
			t := tenant{c: c, over: r.IntN(2) == 0, early: r.IntN(2) == 0}
			switch r.IntN(5) {
			case 0:
				t.late = 1 + r.IntN(300)
			case 1:
				t.hog = len(ts) > 0
				t.early = t.early && !t.hog
			case 2:
				t.quiet = len(ts) > 0
				t.early = t.early && !t.quiet
			}
			ts = append(ts, t)
		}
		cs = append(cs, coexist("mixed", ts))
	}
	return cs
}
