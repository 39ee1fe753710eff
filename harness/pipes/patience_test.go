package pipes

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/mon"
)

// patience uses a Pipelines over a long (virtual) time: stages that take that long, outputs that
// nobody reads, submissions that wait and calls of Close that wait that long, and nothing to do.
type patience struct {
	num          int
	ordered, dag bool
	pps          int
	pause        time.Duration
}

type patientReq struct {
	id   int
	gate chan struct{} // Start waits for it
	took time.Duration // and for this
	ran  []string
}

type patientSM struct {
	s         *mon.S
	executing atomic.Int64
	closed    atomic.Int64
	limit     int64
}

func (m *patientSM) in(r stagedpipe.Request[*patientReq], name string) {
	if n := m.executing.Add(1); n > m.limit {
		m.s.Fail("%d requests are in their stages, at most %d may", n, m.limit)
	}
	if m.closed.Load() > 0 {
		m.s.Fail("the stage %s of request %d starts after the Close of the state machine", name, r.Data.id)
	}
	r.Data.ran = append(r.Data.ran, name)
}

func (m *patientSM) Start(r stagedpipe.Request[*patientReq]) stagedpipe.Request[*patientReq] {
	m.in(r, "Start")
	defer m.executing.Add(-1)
	if r.Data.gate != nil {
		<-r.Data.gate
	}
	time.Sleep(r.Data.took)
	r.Next = m.Second
	return r
}

func (m *patientSM) Second(r stagedpipe.Request[*patientReq]) stagedpipe.Request[*patientReq] {
	m.in(r, "Second")
	defer m.executing.Add(-1)
	time.Sleep(r.Data.took)
	return r
}

func (m *patientSM) Close() {
	m.closed.Add(1)
	if n := m.executing.Load(); n > 0 {
		m.s.Fail("Close of the state machine is called while %d requests are in their stages", n)
	}
}

func (c patience) run(s *mon.S) {
	m := &patientSM{s: s, limit: int64(2 * c.num)}
	var pps atomic.Int64
	var o []stagedpipe.Option[*patientReq]
	if c.ordered {
		o = append(o, stagedpipe.Ordered[*patientReq]())
	}
	if c.dag {
		o = append(o, stagedpipe.DAG[*patientReq]())
	}
	for i := 0; i < c.pps; i++ {
		o = append(o, stagedpipe.PreProcessors(func(r stagedpipe.Request[*patientReq]) stagedpipe.Request[*patientReq] {
			pps.Add(1)
			return r
		}))
	}
	p, err := stagedpipe.New("patience", c.num, stagedpipe.StateMachine[*patientReq](m), o...)
	if err != nil {
		s.Fail("New: %v", err)
		return
	}
	places := 2 * c.num
	long := 1000 * c.pause
	completed := int64(0)
	ctx := context.Background()

	submit := func(g *stagedpipe.RequestGroup[*patientReq], q *patientReq) bool {
		return s.Within(long, "Submit", func() {
			if err := g.Submit(stagedpipe.Request[*patientReq]{Ctx: ctx, Data: q}); err != nil {
				s.Fail("Submit of request %d: %v", q.id, err)
			}
		})
	}
	// take reads n requests of g, at intervals.
	take := func(g *stagedpipe.RequestGroup[*patientReq], first, n int, interval time.Duration) {
		seen := map[int]bool{}
		for i := 0; i < n && !s.Failed(); i++ {
			time.Sleep(interval)
			select {
			case r, ok := <-g.Out():
				if !ok {
					s.Fail("Out is closed with %d of %d requests delivered", i, n)
					return
				}
				id := r.Data.id
				if seen[id] || id < first || id >= first+n {
					s.Fail("request %d was delivered twice, or in another group", id)
				}
				seen[id] = true
				if c.ordered && id != first+i {
					s.Fail("request %d was delivered as number %d", id-first, i)
				}
				if r.Err != nil || len(r.Data.ran) != 2 || r.Data.ran[1] != "Second" {
					s.Fail("request %d was delivered with the error %v after the stages %v", id, r.Err, r.Data.ran)
				}
				s.Event(1)
			case <-time.After(long):
				s.Fail("%d of %d requests were delivered\n%s", i, n, mon.Blocked())
			}
		}
		completed += int64(n)
	}
	old := p.NewRequestGroup() // It is first used when everything else is over.

	for round := 0; round < 2 && !s.Failed(); round++ {
		time.Sleep(c.pause) // Idle.
		g := p.NewRequestGroup()
		time.Sleep(c.pause)
		gate := make(chan struct{})
		for i := 0; i < places; i++ {
			if !submit(g, &patientReq{id: i, gate: gate}) {
				return
			}
		}
		s.Settle()
		if n := m.executing.Load(); n != int64(places) {
			s.Fail("%d requests are in their stages, there are %d pipelines of 2 stages that were idle for %v", n, c.num, c.pause)
		}
		// The library takes up some more; the last can't get in, and one of them gives up.
		var subs sync.WaitGroup
		const more = 4
		if !c.ordered {
			for i := 0; i < more; i++ {
				subs.Add(1)
				go func() {
					defer subs.Done()
					submit(g, &patientReq{id: places + i, gate: gate})
				}()
			}
		}
		s.Settle()
		out, cancel := context.WithTimeout(ctx, c.pause)
		t0 := time.Now()
		if c.ordered {
			submit(g, &patientReq{id: places, gate: gate})
		}
		var err error
		if !s.Within(long, "Submit with a context that ends", func() {
			err = g.Submit(stagedpipe.Request[*patientReq]{Ctx: out, Data: &patientReq{id: -1}})
		}) {
			return
		}
		if d := time.Since(t0); !errors.Is(err, context.DeadlineExceeded) || d < c.pause || d > c.pause+c.pause/8 {
			s.Fail("Submit into full pipelines returned %v after %v, its context ended after %v", err, d, c.pause)
		}
		cancel()
		if n := m.executing.Load(); n != int64(places) {
			s.Fail("%d requests are in their stages after %v, there are %d places", n, c.pause, places)
		}
		if st := p.Stats(); st.Running != int64(places) || st.Completed != completed {
			s.Fail("Stats has Running %d and Completed %d, %d requests are in their stages and %d were delivered", st.Running, st.Completed, places, completed)
		}
		n := places + more
		if c.ordered {
			n = places + 1
		}
		close(gate)
		time.Sleep(c.pause) // Nobody reads.
		take(g, 0, n, 0)
		subs.Wait()
		s.Settle()
		if st := p.Stats(); st.Running != 0 || st.Completed != completed {
			s.Fail("at rest Stats has Running %d and Completed %d, %d requests were delivered", st.Running, st.Completed, completed)
		}
		// The same group after a long time.
		time.Sleep(c.pause)
		for i := 0; i < 3; i++ {
			if !submit(g, &patientReq{id: 100 + i, took: c.pause * time.Duration(3-i)}) {
				return
			}
		}
		closed := make(chan struct{})
		go func() {
			g.Close()
			close(closed)
		}()
		time.Sleep(c.pause / 2)
		select {
		case <-closed:
			s.Fail("Close of the group returned while requests of it are in their stages")
		default:
		}
		take(g, 100, 3, 2*c.pause)
		if !s.Within(long, "Close of the group", func() { <-closed }) {
			return
		}
		if !mon.Recv(g.Out(), long) {
			s.Fail("Out of the closed group isn't closed")
		}
	}
	if s.Failed() {
		return
	}
	if !submit(old, &patientReq{id: 0}) || !submit(old, &patientReq{id: 1}) {
		return
	}
	take(old, 0, 2, c.pause)
	if st := p.Stats(); st.Max < 6*c.pause || st.Max > 6*c.pause+c.pause/8 || st.Min > c.pause/8 || st.Running != 0 || st.Completed != completed {
		s.Fail("at rest Stats is %+v, the longest request took %v, %d were delivered", st, 6*c.pause, completed)
	}

	// Close of the Pipelines with requests in their stages.
	for i := 0; i < 2; i++ {
		if !submit(old, &patientReq{id: i, took: c.pause}) {
			return
		}
	}
	s.Settle()
	p.Close()
	time.Sleep(c.pause)
	if m.closed.Load() != 0 {
		s.Fail("Close of the state machine is called while requests are in their stages")
	}
	go old.Close()
	take(old, 0, 2, 2*c.pause)
	if !mon.Recv(old.Out(), long) {
		s.Fail("Out of the closed group isn't closed")
	}
	time.Sleep(c.pause)
	if n := m.closed.Load(); n != 1 {
		s.Fail("Close of the state machine was called %d times", n)
	}
	if n := pps.Load(); n != int64(c.pps)*2*completed {
		s.Fail("%d calls of preprocessors for %d requests with 2 stages and %d preprocessors", n, completed, c.pps)
	}
	s.Obs(fmt.Sprintf("Pipelines used with pauses of %v", c.pause), 1)
}

func patienceCases(r *rand.Rand) []mon.Case {
	var cs []mon.Case
	for j, d := range []time.Duration{40 * time.Second, 11 * time.Minute, 3 * time.Hour, 26 * time.Hour} {
		for i := 0; i < 2; i++ {
			c := patience{num: 1 + r.IntN(3), ordered: i == 1, dag: r.IntN(2) == 0, pps: r.IntN(3), pause: d + time.Duration(r.Int64N(int64(d/2)))}
			if j == 3 {
				c.num = 2
			}
			cs = append(cs, mon.Case{Name: "patience", Params: mon.P(c), Run: c.run, Reps: 3, Early: true})
		}
	}
	return cs
}
