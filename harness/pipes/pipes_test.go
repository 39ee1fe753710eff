package pipes

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/kit"
	"verifharness/mon"
)

// filter drops the delay warnings.
type filter struct{ w io.Writer }

func (f filter) Write(b []byte) (int, error) {
	if bytes.Contains(b, []byte("output delays")) {
		return len(b), nil
	}
	return f.w.Write(b)
}

// engineCase is a case that runs the engine.
func engineCase(prop, name string, c cfg) mon.Case {
	if c.closeFirst {
		c.churn, c.chain, c.probe, c.stay = 0, false, false, false
	}
	if c.closeFirst || c.chain {
		c.feedback = 0
	}
	if c.sm == 5 && c.num == 1 && c.chain {
		c.num = 2
	}
	return mon.Case{Name: name, Params: mon.P(c), Run: func(s *mon.S) {
		e := newEngine(s, prop, c)
		if s.Failed() {
			return
		}
		if c.chain {
			c2 := c
			c2.sm = (c.sm + 1) % kinds
			c2.chain = false
			c2.ordered = c.ordered != c.chainFlip
			e.next = newEngine(s, prop, c2)
			e.next.tr = e.tr // the context names the tracer to use
		}
		if e.run() && e.next != nil {
			e.next.close()
		}
	}}
}

// randCfg is a mixed configuration.
func randCfg(r *rand.Rand) cfg {
	return cfg{sm: r.IntN(kinds), num: 1 + r.IntN(4), dag: r.IntN(3) == 0, ordered: r.IntN(2) == 0, delay: r.IntN(2) * r.IntN(2) * 100, pps: r.IntN(3), ppSplit: r.IntN(2) == 0,
		groups: 1 + r.IntN(4), subs: 1 + r.IntN(3), reqs: r.IntN(16), route: r.IntN(6), repeat: r.IntN(2) == 0, maxDur: r.IntN(7), readDur: r.IntN(5), gap: r.IntN(6),
		feedback: r.IntN(6) / 5 * (1 + r.IntN(100)), stay: r.IntN(6) == 0, reuse: r.IntN(4) == 0, objs: r.IntN(6) / 4 * (1 + r.IntN(2))}
}

// ---------------------------------------------------------------- G01

// straggler: requests of one group stay in their stages while another group is
// used from beginning to end.
func straggler(prop string, c cfg, stuck int) mon.Case {
	return mon.Case{Name: "other group stuck", Params: mon.P(c) + fmt.Sprintf(" stuck=%d", stuck), Run: func(s *mon.S) {
		e := newEngine(s, prop, c)
		a := e.newGroup(1000)
		go a.read(1)
		stuck := min(stuck, e.c.num*e.k-1)
		if stuck < 1 {
			return
		}
		for i := 0; i < stuck+4; i++ {
			x := &rec{id: int(e.ids.Add(1)), group: a.id, cancelled: -1, taken: -1, end: -1, plan: []planStep{{gate: i < stuck}}}
			x.ctx = context.WithValue(context.Background(), kit.Key{}, x)
			a.recs = append(a.recs, x)
			a.submit(x, false)
		}
		s.Settle()
		ok := s.Within(time.Hour, "use of a group while requests of another drained group are in their stages", func() {
			var wg sync.WaitGroup
			for i := 0; i < c.groups; i++ {
				seed := s.R.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					e.work(i, seed, nil)
				}()
			}
			wg.Wait()
		})
		close(e.gate)
		if !ok {
			return
		}
		if s.Within(time.Hour, "Close of the group", func() {
			a.g.Close()
			<-a.outDone
		}) {
			a.finish()
			e.close()
		}
		s.Event(int(e.events.Load()))
	}}
}

func genG01(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	for sm := 0; sm < kinds; sm++ {
		for _, ord := range []bool{false, true} {
			cs = append(cs, engineCase("G01", "groups", cfg{sm: sm, num: 1 + sm%3, ordered: ord, groups: 3, subs: 2, reqs: 12, route: 3, maxDur: 5, readDur: 2, gap: 2, pps: sm % 2, errPct: 5}))
			cs = append(cs, engineCase("G01", "groups", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 3, reqs: 8, route: 3, maxDur: 3, repeat: true, dag: sm%2 == 0, errPct: 10, ppErrPct: 5, pps: 1, preErrPct: 10, cancelPct: 20, cancelAt: 300, preCancelPct: 10, nilPct: 5, stageCancelPct: 5}))
			cs = append(cs, engineCase("G01", "chain", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 8, route: 3, maxDur: 4, chain: true, errPct: 5, stalePct: 10}))
			cs = append(cs, straggler("G01", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 6, route: 2, maxDur: 4}, 1+sm))
		}
	}
	cs = append(cs, engineCase("G01", "groups", cfg{sm: big, num: 2, groups: 3, subs: 3, reqs: 10, route: 5, maxDur: 4, ordered: true}))
	cs = append(cs, engineCase("G01", "groups", cfg{sm: 0, num: 4, groups: 12, subs: 1, reqs: 20, route: 2, maxDur: 2, readDur: 5}))
	cs = append(cs, engineCase("G01", "groups", cfg{sm: 1, num: 1, groups: 1, subs: 1, reqs: 200, route: 1, ordered: true, delay: 50, readDur: 20}))
	cs = append(cs, engineCase("G01", "groups", cfg{sm: 3, num: 2, groups: 3, subs: 2, reqs: 10, lateRead: true, ordered: true, maxDur: 3, delay: 500}))
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.chain = r.IntN(4) == 0
		c.errPct, c.ppErrPct, c.preErrPct, c.stalePct = r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(10), r.IntN(2)*r.IntN(20), r.IntN(20)
		c.cancelPct, c.cancelAt, c.preCancelPct, c.nilPct = r.IntN(2)*r.IntN(40), r.IntN(500), r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(10)
		c.churn = r.IntN(3)
		c.lateRead = r.IntN(5) == 0
		cs = append(cs, engineCase("G01", "mixed", c))
	}
	cs = append(cs, kindCases(r)...)
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G02

func genG02(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	for sm := 0; sm < kinds; sm++ {
		for pps := 0; pps < 4; pps++ {
			cs = append(cs, engineCase("G02", "routes", cfg{sm: sm, num: 1 + pps%2, pps: pps, ppSplit: pps%2 == 1, groups: 1, subs: 2, reqs: 14, route: 8, repeat: true, maxDur: 4, errPct: 3, ppErrPct: 3 * (pps % 2), preErrPct: 5, stalePct: 30}))
		}
		cs = append(cs, engineCase("G02", "routes", cfg{sm: sm, num: 2, pps: 2, groups: 2, subs: 2, reqs: 10, route: 6, dag: true, maxDur: 4, errPct: 3, ppErrPct: 3, stalePct: 30}))
		cs = append(cs, engineCase("G02", "chain", cfg{sm: sm, num: 2, pps: 1, groups: 2, subs: 1, reqs: 10, route: 4, repeat: true, maxDur: 3, errPct: 10, ppErrPct: 5, stalePct: 20, chain: true, ordered: sm%2 == 0}))
		cs = append(cs, engineCase("G02", "many preprocessors", cfg{sm: sm, num: 1 + sm%2, pps: 6 + sm*3, ppSplit: sm%2 == 1, groups: 1, subs: 2, reqs: 6, route: 4, repeat: true, maxDur: 2, errPct: 3, ppErrPct: 6}))
		cs = append(cs, engineCase("G02", "errors", cfg{sm: sm, num: 2, pps: 3, groups: 1, subs: 2, reqs: 15, route: 5, repeat: true, maxDur: 2, errPct: 20, ppErrPct: 10, preErrPct: 20, stalePct: 50}))
	}
	cs = append(cs, engineCase("G02", "many stages", cfg{sm: big, num: 1, pps: 1, groups: 1, subs: 3, reqs: 8, route: 70, repeat: true, maxDur: 2, stalePct: 20}))
	cs = append(cs, engineCase("G02", "many stages", cfg{sm: big, num: 1, groups: 1, subs: 3, reqs: 8, route: 39, tail: true, maxDur: 2, stalePct: 20}))
	cs = append(cs, engineCase("G02", "long routes", cfg{sm: 0, num: 1, pps: 1, groups: 1, subs: 2, reqs: 4, route: 600, tail: true, repeat: true, maxDur: 1}))
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.pps = r.IntN(5)
		c.route = r.IntN(12)
		c.chain = r.IntN(5) == 0
		c.errPct, c.ppErrPct, c.preErrPct, c.stalePct = r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(10), r.IntN(2)*r.IntN(20), r.IntN(50)
		c.stageCancelPct = r.IntN(4) / 3 * 5
		cs = append(cs, engineCase("G02", "mixed", c))
	}
	cs = append(cs, kindCases(r)...)
	return cs
}

// ---------------------------------------------------------------- G03

func genG03(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg) {
		c.ordered = true
		cs = append(cs, engineCase("G03", name, c))
	}
	for sm := 0; sm < kinds; sm++ {
		add("order", cfg{sm: sm, num: 4, groups: 1, subs: 1, reqs: 60, route: 3, maxDur: 9})
		add("order", cfg{sm: sm, num: 2, groups: 3, subs: 2, reqs: 15, route: 3, maxDur: 9, errPct: 15, preErrPct: 10, readDur: 3})
		add("failed submissions", cfg{sm: sm, num: 1, groups: 2, subs: 3, reqs: 12, route: 2, maxDur: 9, cancelPct: 40, cancelAt: 300, preCancelPct: 20, nilPct: 10, stageCancelPct: 5})
		add("failed submissions", cfg{sm: sm, num: 1, groups: 1, subs: 6, reqs: 8, route: 1, maxDur: 20, cancelPct: 60, cancelAt: 400, delay: sm % 2 * 70})
		add("late reader", cfg{sm: sm, num: 2, groups: 2, subs: 2, reqs: 10, route: 2, maxDur: 6, lateRead: true, cancelPct: 20, cancelAt: 2000000})
		add("chain", cfg{sm: sm, num: 3, groups: 2, subs: 1, reqs: 15, route: 2, maxDur: 8, chain: true})
		add("chain", cfg{sm: sm, num: 3, groups: 2, subs: 2, reqs: 10, route: 2, maxDur: 8, chain: true, chainDrop: 30})
		for _, drop := range []int{0, 40} {
			cs = append(cs, engineCase("G03", "chain of an unordered and an ordered one", cfg{sm: sm, num: 3, groups: 2, subs: 2, reqs: 12, route: 2, maxDur: 8, chain: true, chainFlip: true, chainDrop: drop}))
		}
	}
	for i := range 2 {
		c := engineCase("G03", "long", cfg{sm: 5, num: 3, ordered: true, groups: 1, subs: 1 + 3*i, reqs: 67000 >> (2 * i), maxDur: 0})
		c.Reps = 1
		cs = append(cs, c)
	}
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.errPct, c.preErrPct = r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(20)
		c.cancelPct, c.cancelAt, c.preCancelPct, c.nilPct = r.IntN(2)*r.IntN(60), r.IntN(500), r.IntN(2)*r.IntN(30), r.IntN(2)*r.IntN(20)
		c.maxDur = r.IntN(15)
		c.churn = r.IntN(3)
		add("mixed", c)
	}
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G04

func errCase() mon.Case {
	return mon.Case{Name: "IsErrCyclic", Params: "other errors", Run: func(s *mon.S) {
		for _, err := range []error{nil, errors.New("cyclic"), context.Canceled, stagedpipe.Error{Type: "other", Msg: "cyclic"}, stagedpipe.Error{}, &stagedpipe.Error{Type: "x"}, fmt.Errorf("cyclic: x"), errors.Join(errors.New("a"), errors.New("b"))} {
			if stagedpipe.IsErrCyclic(err) {
				s.Fail("IsErrCyclic(%v) is true", err)
			}
			s.Event(1)
		}
	}}
}

func genG04(r *rand.Rand, thorough bool) []mon.Case {
	cs := []mon.Case{errCase()}
	for _, g := range genericCases() {
		cs = append(cs, g)
	}
	cs = append(cs, longRoutes()...)
	add := func(name string, c cfg) { cs = append(cs, engineCase("G04", name, c)) }
	for sm := 0; sm < kinds; sm++ {
		for pps := 0; pps < 2; pps++ {
			add("repeats", cfg{sm: sm, num: 3, pps: pps, dag: true, groups: 2, subs: 3, reqs: 12, route: 7, repeat: true, maxDur: 4})
			add("acyclic", cfg{sm: sm, num: 3, pps: pps, dag: true, groups: 2, subs: 3, reqs: 12, route: 7, maxDur: 4})
			add("no DAG", cfg{sm: sm, num: 2, pps: pps, groups: 2, subs: 2, reqs: 8, route: 9, repeat: true, maxDur: 3, errPct: 3})
			add("chain", cfg{sm: sm, num: 2, pps: pps, dag: true, groups: 2, subs: 2, reqs: 10, route: 4, repeat: pps == 1, maxDur: 4, chain: true, ordered: sm%2 == 0})
		}
		add("repeats at the end", cfg{sm: sm, num: 2, pps: sm % 3, dag: sm%4 != 3, groups: 2, subs: 2, reqs: 10, route: 9, tail: true, maxDur: 2, ordered: sm%2 == 0})
		add("mixed ends", cfg{sm: sm, num: 4, pps: 1, dag: true, groups: 3, subs: 3, reqs: 10, route: 5, repeat: true, maxDur: 4, errPct: 5, ppErrPct: 5, preErrPct: 5, stalePct: 20, cancelPct: 20, cancelAt: 200})
	}
	for i, ord := range []bool{false, true} {
		add("many stages", cfg{sm: big, num: 2, dag: true, groups: 2, subs: 2, reqs: 10, route: 39, tail: true, maxDur: 1, ordered: ord, pps: i})
		add("many stages", cfg{sm: big, num: 1, dag: true, groups: 2, subs: 2, reqs: 10, route: 20, tail: true, maxDur: 2, ordered: ord, pps: i})
		add("many stages", cfg{sm: big, num: 1, dag: true, groups: 1, subs: 2, reqs: 10, route: 39, repeat: true, maxDur: 2, ordered: ord})
		add("long routes", cfg{sm: i * 3, num: 1, groups: 1, subs: 2, reqs: 4, route: 500, tail: true, repeat: true, maxDur: 1})
	}
	n := 20
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.dag = r.IntN(4) != 0
		c.repeat = r.IntN(3) != 0
		c.route = r.IntN(10)
		c.chain = r.IntN(3) == 0
		c.errPct, c.stalePct = r.IntN(2)*r.IntN(10), r.IntN(30)
		c.cancelPct, c.cancelAt = r.IntN(3)/2*r.IntN(40), r.IntN(500)
		add("mixed", c)
	}
	return cs
}

// genSM is a generic state machine: its method values are closures, one per
// place in the code.
type genSM[T any] struct {
	mu   sync.Mutex
	runs []string
	plan func(self *genSM[T], ran []string) stagedpipe.Stage[T]
}

// The plans, in generic code.
func acyclicGen[T any](g *genSM[T], ran []string) stagedpipe.Stage[T] {
	switch len(ran) {
	case 1:
		return g.A
	case 2:
		return g.B
	}
	return nil
}

func onePlaceGen[T any](g *genSM[T], ran []string) stagedpipe.Stage[T] { return g.A }

func twoPlacesGen[T any](g *genSM[T], ran []string) stagedpipe.Stage[T] {
	switch len(ran) {
	case 1:
		return g.A
	case 2:
		return g.B
	case 3:
		return g.A
	}
	return nil
}

// genA has the stage A of a genSM.
type genA[T any] interface {
	A(r stagedpipe.Request[T]) stagedpipe.Request[T]
}

// ifaceOnce repeats through one interface, ifaceTwo with and without one.
func ifaceOnce(g *genSM[int], ran []string) stagedpipe.Stage[int] {
	var a genA[int] = g
	return a.A
}

func ifaceTwo(g *genSM[int], ran []string) stagedpipe.Stage[int] {
	var a genA[int] = g
	switch len(ran) {
	case 1:
		return a.A
	case 2:
		return g.B
	case 3:
		return g.A
	}
	return nil
}

func (g *genSM[T]) do(name string, r stagedpipe.Request[T]) stagedpipe.Request[T] {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.runs = append(g.runs, name)
	r.Next = nil
	if len(g.runs) < 8 {
		r.Next = g.plan(g, g.runs)
	}
	return r
}

func (g *genSM[T]) Start(r stagedpipe.Request[T]) stagedpipe.Request[T] { return g.do("Start", r) }
func (g *genSM[T]) A(r stagedpipe.Request[T]) stagedpipe.Request[T]     { return g.do("A", r) }
func (g *genSM[T]) B(r stagedpipe.Request[T]) stagedpipe.Request[T]     { return g.do("B", r) }
func (g *genSM[T]) Close()                                              {}

// genericCases use one place in the code per stage, where a repetition has to
// be noticed, and several, where it is a known finding that it is not.
func genericCases() []mon.Case {
	run := func(s *mon.S, plan func(self *genSM[int], ran []string) stagedpipe.Stage[int]) ([]string, error) {
		g := &genSM[int]{plan: plan}
		p, err := stagedpipe.New("gen", 1, stagedpipe.StateMachine[int](g), stagedpipe.DAG[int]())
		if err != nil {
			s.Fail("New: %v", err)
			return nil, nil
		}
		rg := p.NewRequestGroup()
		var out stagedpipe.Request[int]
		s.Within(time.Hour, "generic state machine", func() {
			if err := rg.Submit(stagedpipe.Request[int]{Ctx: context.Background()}); err != nil {
				s.Fail("Submit: %v", err)
			}
			out = <-rg.Out()
			rg.Close()
			p.Close()
		})
		s.Event(1)
		return g.runs, out.Err
	}
	dup := func(l []string) bool {
		m := map[string]bool{}
		for _, x := range l {
			if m[x] {
				return true
			}
			m[x] = true
		}
		return false
	}
	return []mon.Case{
		{Name: "generic state machine", Params: "acyclic", Run: func(s *mon.S) {
			ran, err := run(s, acyclicGen[int])
			if err != nil || len(ran) != 3 {
				s.Fail("acyclic route of a generic state machine: ran %v, error %v", ran, err)
			}
		}},
		{Name: "generic state machine", Params: "repeated from one place", Run: func(s *mon.S) {
			ran, err := run(s, onePlaceGen[int])
			if !stagedpipe.IsErrCyclic(err) || dup(ran) {
				s.Fail("repeated stage of a generic state machine: ran %v, error %v", ran, err)
			}
		}},
		{Name: "stage of an interface", Params: "repeated", Run: func(s *mon.S) {
			ran, err := run(s, ifaceOnce)
			if !stagedpipe.IsErrCyclic(err) || dup(ran) {
				s.Fail("repeated stage of an interface: ran %v, error %v", ran, err)
			}
		}},
		{Name: "stage of an interface", Params: "repeated without the interface", Run: func(s *mon.S) {
			ran, err := run(s, ifaceTwo)
			if dup(ran) {
				if len(ran) == 4 && err == nil {
					s.Known("G04-interface-method-values")
				} else {
					s.Fail("repeated stage of an interface: ran %v, error %v", ran, err)
				}
			}
		}},
		{Name: "generic state machine", Params: "repeated from two places", Run: func(s *mon.S) {
			ran, err := run(s, twoPlacesGen[int])
			if dup(ran) {
				if len(ran) == 4 && err == nil {
					s.Known("G04-generic-method-values")
				} else {
					s.Fail("repeated stage of a generic state machine: ran %v, error %v", ran, err)
				}
			}
		}},
	}
}

// ---------------------------------------------------------------- G05

// full submits to Pipelines whose places are all taken.
func full(c cfg, waiters int) mon.Case {
	return mon.Case{Name: "full", Params: mon.P(c) + fmt.Sprintf(" waiters=%d", waiters), Run: func(s *mon.S) {
		e := newEngine(s, "G05", c)
		var gs []*group
		for i := 0; i < 3; i++ {
			g := e.newGroup(i)
			gs = append(gs, g)
			go g.read(uint64(i))
		}
		total := e.c.num*e.k + 1 // and one waits in the channel
		var wg sync.WaitGroup
		for i := 0; i < total; i++ {
			g := gs[i%3]
			x := &rec{id: int(e.ids.Add(1)), group: g.id, cancelled: -1, taken: -1, end: -1, plan: []planStep{{gate: true}}}
			x.ctx = context.WithValue(context.Background(), kit.Key{}, x)
			g.recs = append(g.recs, x)
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.submit(x, false)
			}()
		}
		s.Settle()
		var late atomic.Int64
		for i := 0; i < waiters; i++ {
			g := gs[s.R.IntN(3)]
			x := &rec{id: int(e.ids.Add(1)), group: g.id, cancelled: -1, taken: -1, end: -1, plan: []planStep{{}}}
			ctx := context.WithValue(context.Background(), kit.Key{}, x)
			x.ctx = ctx
			limited := i%3 != 2
			if limited {
				d := time.Duration(1+s.R.IntN(1000)) * time.Millisecond
				x.cancelled = e.now() + int64(d)
				x.ctx, x.cancel = context.WithTimeout(ctx, d)
				if i%3 == 1 {
					x.ctx, x.cancel = context.WithCancel(ctx)
					time.AfterFunc(d, x.cancel)
				}
			}
			g.mu.Lock()
			g.recs = append(g.recs, x)
			g.mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := g.submit(x, false); err == nil && limited && e.now() < int64(time.Hour) && x.ctx.Err() != nil {
					late.Add(1)
				} else if err == nil && limited {
					late.Add(1)
				}
			}()
		}
		time.Sleep(2 * time.Second)
		s.Settle()
		if late.Load() > 0 {
			s.Fail("%d requests were accepted although all places are taken", late.Load())
		}
		n := 0
		for _, g := range gs {
			for _, r := range g.recs {
				r.mu.Lock()
				if r.cancelled >= 0 && r.rejected == nil {
					n++
				}
				r.mu.Unlock()
			}
		}
		if n > 0 {
			s.Fail("%d submissions still wait although their contexts are done", n)
		}
		close(e.gate)
		if s.Within(time.Hour, "requests with other contexts, or Close of the groups", func() {
			wg.Wait()
			for _, g := range gs {
				g.g.Close()
				<-g.outDone
			}
		}) {
			for _, g := range gs {
				g.finish()
			}
			e.c.probe = true
			e.capacity(2)
			e.close()
		}
		s.Event(int(e.events.Load()))
	}}
}

func genG05(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg) {
		c.probe = true
		cs = append(cs, engineCase("G05", name, c))
	}
	for sm := 0; sm < kinds; sm++ {
		for _, ord := range []bool{false, true} {
			add("cancel", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 10, route: 4, repeat: true, maxDur: 6, pps: 2, cancelPct: 60, cancelAt: 300})
			add("stage cancels", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 10, route: 5, maxDur: 3, pps: sm % 3, stageCancelPct: 25, dag: sm%2 == 0})
			add("cancelled before", cfg{sm: sm, num: 1, ordered: ord, groups: 2, subs: 3, reqs: 8, route: 2, maxDur: 5, preCancelPct: 50, nilPct: 10})
			add("group cancelled", cfg{sm: sm, num: 1, ordered: ord, groups: 4, subs: 2, reqs: 10, route: 3, maxDur: 9, sharedCtx: true, cancelAt: 400})
			cs = append(cs, full(cfg{sm: sm, num: 1 + sm%2, ordered: ord, pps: sm % 2}, 9))
		}
		add("slow preprocessors", cfg{sm: sm, num: 1, groups: 1, subs: 2, reqs: 10, route: 3, maxDur: 16, pps: 3, cancelPct: 80, cancelAt: 500})
		add("late reader", cfg{sm: sm, num: 1, groups: 3, subs: 2, reqs: 8, route: 1, maxDur: 5, lateRead: true, cancelPct: 60, cancelAt: 1500000})
	}
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.errPct, c.ppErrPct = r.IntN(2)*r.IntN(10), r.IntN(2)*r.IntN(10)
		c.cancelPct, c.cancelAt, c.preCancelPct, c.nilPct = r.IntN(90), r.IntN(700), r.IntN(2)*r.IntN(30), r.IntN(2)*r.IntN(20)
		c.stageCancelPct = r.IntN(3) / 2 * 10
		c.maxDur = 1 + r.IntN(10)
		c.pps = r.IntN(4)
		c.chain = r.IntN(5) == 0
		add("mixed", c)
	}
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G06

func genG06(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg) { cs = append(cs, engineCase("G06", name, c)) }
	for sm := 0; sm < kinds; sm++ {
		for _, ord := range []bool{false, true} {
			add("close", cfg{sm: sm, num: 2, ordered: ord, groups: 3, subs: 2, reqs: 6, route: 3, maxDur: 6, readDur: 4})
			add("pipelines closed first", cfg{sm: sm, num: 2, ordered: ord, groups: 3, subs: 2, reqs: 6, route: 4, maxDur: 12, readDur: 6, closeFirst: true, delay: 30 * (sm % 2)})
			add("empty groups", cfg{sm: sm, num: 1, ordered: ord, groups: 3, subs: 1, reqs: 0, churn: 2, closeFirst: sm%2 == 0})
			add("late reader", cfg{sm: sm, num: 1, ordered: ord, groups: 2, subs: 2, reqs: 7, route: 2, maxDur: 6, lateRead: true, readDur: 4, delay: 1000 * (sm % 2)})
			add("errors", cfg{sm: sm, num: 2, ordered: ord, groups: 2, subs: 2, reqs: 8, route: 4, repeat: true, dag: true, pps: 1, maxDur: 5, errPct: 10, ppErrPct: 5, preErrPct: 10, cancelPct: 30, cancelAt: 200, preCancelPct: 10, nilPct: 10, closeFirst: sm%2 == 1})
		}
	}
	n := 25
	if thorough {
		n = 150
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.errPct = r.IntN(2) * r.IntN(10)
		c.cancelPct, c.cancelAt, c.preCancelPct, c.nilPct = r.IntN(2)*r.IntN(50), r.IntN(500), r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(20)
		c.churn = r.IntN(3)
		c.closeFirst = r.IntN(2) == 0
		c.chain = r.IntN(4) == 0
		c.lateRead = r.IntN(4) == 0
		add("mixed", c)
	}
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G07

func rejections(s *mon.S) {
	e := &engine{s: s, prop: "G07", start: time.Now(), gate: make(chan struct{})}
	e.c.num = 1
	e.m, e.k = newMachine(0, e)
	mustErr := func(what string, p *stagedpipe.Pipelines[D], err error) {
		if err == nil {
			s.Fail("New with %s returned no error", what)
		}
		if err != nil && p != nil {
			s.Fail("New with %s returned an error and Pipelines", what)
		}
		s.Event(1)
	}
	for _, n := range []int{0, -1, -1 << 40} {
		p, err := stagedpipe.New("x", n, stagedpipe.StateMachine[D](e.m))
		mustErr(fmt.Sprint("num ", n), p, err)
	}
	p, err := stagedpipe.New[D]("x", 1, nil)
	mustErr("a nil state machine", p, err)
	for _, d := range []time.Duration{-1, -time.Hour, -1 << 62} {
		p, err = stagedpipe.New("x", 1, stagedpipe.StateMachine[D](e.m), stagedpipe.DelayWarning[D](d))
		mustErr("a negative delay warning", p, err)
		p, err = stagedpipe.New("x", 1, stagedpipe.StateMachine[D](e.m), stagedpipe.Ordered[D](), stagedpipe.DelayWarning[D](d), stagedpipe.DAG[D]())
		mustErr("a negative delay warning", p, err)
	}
	p, err = stagedpipe.New("", 1, stagedpipe.StateMachine[D](e.m), stagedpipe.DelayWarning[D](0))
	if err != nil {
		s.Fail("New with num 1 and a delay warning of 0: %v", err)
		return
	}
	p.Close()
	s.Settle()
}

func genG07(r *rand.Rand, thorough bool) []mon.Case {
	cs := []mon.Case{{Name: "rejections", Params: "-", Run: rejections}}
	add := func(name string, c cfg) {
		c.probe = true
		cs = append(cs, engineCase("G07", name, c))
	}
	for sm := 0; sm < kinds; sm++ {
		for num := 1; num < 5; num++ {
			add("capacity", cfg{sm: sm, num: num, ordered: num%2 == 0, dag: num%2 == 1, delay: num / 3 * 100, reuse: num == 2, pps: num - 1, objs: num / 2})
		}
		add("busy", cfg{sm: sm, num: 2, groups: 4, subs: 8, reqs: 8, route: 3, maxDur: 5, errPct: 10, pps: 1, ppErrPct: 5})
		add("busy", cfg{sm: sm, num: 1, groups: 2, subs: 5, reqs: 8, route: 5, repeat: true, dag: true, ordered: true, maxDur: 6, cancelPct: 30, cancelAt: 200, preErrPct: 10})
	}
	add("capacity", cfg{sm: 0, num: 30})
	add("capacity", cfg{sm: big, num: 7})
	add("capacity", cfg{sm: wide, num: 2, ordered: true})
	add("busy", cfg{sm: wide, num: 1, groups: 4, subs: 8, reqs: 8, route: 3, maxDur: 5, errPct: 10})
	add("capacity", cfg{sm: 5, num: 200})
	add("capacity", cfg{sm: 1, num: 100, dag: true})
	n := 15
	if thorough {
		n = 100
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.num = 1 + r.IntN(6)
		c.subs = 1 + r.IntN(9)
		c.errPct, c.ppErrPct, c.preErrPct = r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(10), r.IntN(20)
		c.cancelPct, c.cancelAt, c.stageCancelPct = r.IntN(2)*r.IntN(50), r.IntN(400), r.IntN(2)*r.IntN(10)
		add("mixed", c)
	}
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G08

func statsCase(name string, c cfg, rounds int) mon.Case {
	exact := c.preErrPct == 0 && c.cancelPct == 0 && c.preCancelPct == 0
	return mon.Case{Name: name, Early: c.long > 0, Params: mon.P(c) + fmt.Sprintf(" rounds=%d", rounds), Run: func(s *mon.S) {
		e := newEngine(s, "G08", c)
		if s.Failed() {
			return
		}
		check := func(when string) {
			st := e.p.Stats()
			exact := exact
			var n, sumP, sumW int64
			minP, maxP, minW, maxW := int64(1)<<62, int64(0), int64(1)<<62, int64(0)
			for _, r := range e.recs {
				r.mu.Lock()
				if r.submitted {
					n++
					if r.taken < 0 && c.feedback > 0 {
						// It came from a group with an error, so that no stage ran for it.
						exact = false
					}
					p, w := r.end-r.taken, r.taken-r.begin
					sumP += p
					sumW += w
					minP, maxP = min(minP, p), max(maxP, p)
					minW, maxW = min(minW, w), max(maxW, w)
				}
				r.mu.Unlock()
			}
			if n == 0 {
				minP, minW = 0, 0
			}
			if st.Running != 0 {
				s.Fail("%s: Running is %d with no request in flight", when, st.Running)
			}
			if st.Completed != n {
				s.Fail("%s: Completed is %d, %d requests went through", when, st.Completed, n)
			}
			same := func(what string, got time.Duration, want, slack int64) {
				if d := int64(got) - want; d < -slack || d > slack {
					s.Fail("%s: %s is %v, want %v (of %d requests)", when, what, got, time.Duration(want), n)
				}
			}
			if n == 0 {
				if st != (stagedpipe.Stats{}) {
					s.Fail("%s: Stats before the first request are %+v", when, st)
				}
				s.Event(1)
				return
			}
			if exact {
				same("Min", st.Min, minP, 0)
				same("Max", st.Max, maxP, 0)
				same("Avg", st.Avg, sumP/n, 1)
				same("IngestStats.Min", st.IngestStats.Min, minW, 0)
				same("IngestStats.Max", st.IngestStats.Max, maxW, 0)
				same("IngestStats.Avg", st.IngestStats.Avg, sumW/n, 1)
				s.Event(6)
				s.ObsMax("max ingest µs seen", int(maxW/1000))
			} else if st.Min > st.Avg || st.Avg > st.Max || st.IngestStats.Min > st.IngestStats.Avg || st.IngestStats.Avg > st.IngestStats.Max || st.Min < 0 {
				s.Fail("%s: Stats are out of order: %+v", when, st)
			}
			s.Event(2)
		}
		check("at first")
		stop := make(chan struct{})
		samplerDone := make(chan struct{})
		r2 := rand.New(rand.NewPCG(s.R.Uint64(), 4))
		go func() {
			defer close(samplerDone)
			last := int64(0)
			for {
				d := e.delivered.Load()
				st := e.p.Stats()
				if st.Running < 0 || st.Running > int64(e.c.num*e.k) {
					s.Fail("Running is %d, the concurrency is %d", st.Running, e.c.num*e.k)
				}
				if st.Completed < last {
					s.Fail("Completed went from %d to %d", last, st.Completed)
				}
				if st.Completed < d {
					s.Fail("Completed is %d after %d requests were delivered", st.Completed, d)
				}
				last = st.Completed
				s.Event(1)
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r2.IntN(60)) * (time.Microsecond + time.Duration(c.long)*time.Second/10)):
				}
			}
		}()
		for k := 0; k < rounds && !s.Failed(); k++ {
			if k > 0 {
				// Nothing lasts as long as before, so that minima move.
				time.Sleep(time.Millisecond)
			}
			var wg sync.WaitGroup
			for w := 0; w < c.groups; w++ {
				seed := s.R.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					e.work(w+k*c.groups, seed, nil)
				}()
			}
			if !s.Within(100000*time.Hour, "requests", wg.Wait) {
				return
			}
			s.Settle()
			check(fmt.Sprint("after round ", k))
		}
		close(stop)
		<-samplerDone
		e.close()
		s.Settle()
		check("after Close")
		s.Obs("requests", int(e.accepted.Load()))
	}}
}

func genG08(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg, rounds int) { cs = append(cs, statsCase(name, c, rounds)) }
	for sm := 0; sm < kinds; sm++ {
		add("one by one", cfg{sm: sm, num: 1, groups: 1, subs: 1, reqs: 3, route: 2, maxDur: 9}, 6)
		add("busy", cfg{sm: sm, num: 1, groups: 2, subs: 6, reqs: 6, route: 3, maxDur: 9, pps: sm % 3, errPct: 5, ordered: sm%2 == 0}, 3)
		add("waiting", cfg{sm: sm, num: 1, groups: 1, subs: 14, reqs: 3, route: 3, repeat: true, maxDur: 20, ordered: sm%2 == 1}, 2)
		add("stages cancel", cfg{sm: sm, num: 2, groups: 2, subs: 2, reqs: 6, route: 3, maxDur: 9, stageCancelPct: 10, ppErrPct: 4, pps: 1, dag: true, repeat: true}, 2)
		add("cancellations", cfg{sm: sm, num: 1, groups: 2, subs: 4, reqs: 6, route: 3, maxDur: 9, cancelPct: 40, cancelAt: 300, preCancelPct: 10, preErrPct: 10, nilPct: 10}, 2)
		add("long", cfg{sm: sm, num: 1 + sm%2, groups: 2, subs: 4, reqs: 4, route: 3, maxDur: 3, ordered: sm%2 == 0, errPct: 5, long: []int{1, 60, 3000}[sm%3]}, 3)
		add("no durations", cfg{sm: sm, num: 2, groups: 1, subs: 2, reqs: 4, route: 2, maxDur: 0}, 2)
	}
	n := 15
	if thorough {
		n = 120
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.maxDur = r.IntN(30)
		c.errPct, c.ppErrPct = r.IntN(2)*r.IntN(20), r.IntN(2)*r.IntN(10)
		c.subs = 1 + r.IntN(8)
		if r.IntN(3) == 0 {
			c.cancelPct, c.cancelAt = 30, r.IntN(500)
		}
		add("mixed", c, 1+r.IntN(4))
	}
	cs = append(cs, manyCase(1, 66500, r.IntN(2) == 0), manyCase(33300, 2, r.IntN(2) == 0))
	return append(cs, patienceCases(r)...)
}

// ---------------------------------------------------------------- G09

func genG09(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(name string, c cfg) { cs = append(cs, engineCase("G09", name, c)) }
	for sm := 0; sm < kinds; sm++ {
		for _, ord := range []bool{false, true} {
			add("churn", cfg{sm: sm, num: 2, ordered: ord, groups: 8, churn: 8, subs: 1, reqs: 3, route: 1, maxDur: 1})
			add("churn", cfg{sm: sm, num: 2, ordered: ord, groups: 6, churn: 6, subs: 2, reqs: 2, route: 2, maxDur: 4, readDur: 2, gap: 3})
			add("empty groups", cfg{sm: sm, num: 1, ordered: ord, groups: 10, churn: 10, subs: 1, reqs: 0})
		}
		add("churn", cfg{sm: sm, num: 2, groups: 5, churn: 5, subs: 2, reqs: 3, route: 2, maxDur: 4, ordered: sm%2 == 0, cancelPct: 20, cancelAt: 100, preCancelPct: 10, nilPct: 10, errPct: 10})
	}
	add("many successive", cfg{sm: 5, num: 2, groups: 2, churn: 400, subs: 1, reqs: 1})
	for _, ord := range []bool{false, true} {
		add("successive groups and one that stays", cfg{sm: 2, num: 2, ordered: ord, groups: 1, churn: 300, subs: 1, reqs: 1, stay: true})
		if thorough {
			add("successive groups and one that stays", cfg{sm: 2, num: 2, ordered: ord, groups: 4, churn: 17000, subs: 1, reqs: 1, stay: true})
		}
	}
	n := 15
	if thorough {
		n = 100
	}
	for i := 0; i < n; i++ {
		c := randCfg(r)
		c.groups, c.churn = 2+r.IntN(10), 1+r.IntN(10)
		c.reqs = r.IntN(4)
		c.chain = r.IntN(5) == 0
		add("mixed", c)
	}
	cs = append(cs, manyCase(66500, 1, false), manyCase(66500, 1, true))
	return append(cs, patienceCases(r)...)
}

// many uses one group after the other, while the first stays.
func many(s *mon.S, groups, reqs int, ordered bool) {
	m := &patientSM{s: s, limit: 2}
	var o []stagedpipe.Option[*patientReq]
	if ordered {
		o = append(o, stagedpipe.Ordered[*patientReq]())
	}
	p, err := stagedpipe.New("many", 1, stagedpipe.StateMachine[*patientReq](m), o...)
	if err != nil {
		s.Fail("New: %v", err)
		return
	}
	done := int64(0)
	use := func(g *stagedpipe.RequestGroup[*patientReq], id int) {
		for i := 0; i < reqs && !s.Failed(); i++ {
			q := &patientReq{id: id + i}
			if err := g.Submit(stagedpipe.Request[*patientReq]{Ctx: context.Background(), Data: q}); err != nil {
				s.Fail("Submit: %v", err)
				return
			}
			select {
			case r, ok := <-g.Out():
				if !ok || r.Data != q || r.Err != nil || len(q.ran) != 2 {
					s.Fail("request %d of group %d was submitted, the group delivered %+v (open %v)", i, id, r.Data, ok)
					return
				}
			case <-time.After(time.Hour):
				s.Fail("request %d of group %d is not delivered", i, id)
				return
			}
			done++
		}
		if id%1000 == 0 {
			s.Settle()
			if st := p.Stats(); st.Completed != done || st.Running != 0 {
				s.Fail("Stats has Completed %d and Running %d after %d requests", st.Completed, st.Running, done)
			}
		}
	}
	first := p.NewRequestGroup()
	s.Within(100000*time.Hour, "the groups", func() {
		for n := 0; n < groups && !s.Failed(); n++ {
			g := p.NewRequestGroup()
			use(g, n)
			g.Close()
			if _, ok := <-g.Out(); ok {
				s.Fail("group %d delivered another request", n)
			}
			if n%10000 == 0 || n > 65530 {
				use(first, -n)
			}
		}
		first.Close()
		if _, ok := <-first.Out(); ok {
			s.Fail("the group that stayed delivered another request")
		}
		p.Close()
	})
	s.Event(int(done))
	s.ObsMax("most groups of one Pipelines", groups)
	s.ObsMax("most requests of one Pipelines", int(done))
}

func manyCase(groups, reqs int, ordered bool) mon.Case {
	return mon.Case{Name: "many", Params: fmt.Sprintf("groups=%d reqs=%d ordered=%v", groups, reqs, ordered), Run: func(s *mon.S) { many(s, groups, reqs, ordered) }, Reps: 1, Calm: true}
}

func Test(t *testing.T) {
	book.next = os.Stderr
	log.SetOutput(book)
	const rule = "a case is a state machine kind, number of pipelines, options, groups, submitters and a random plan per request; distinct by parameters and order of library steps"
	mon.Run(t, map[string]*mon.Prop{
		"G01": {Gen: genG01, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G02": {Gen: genG02, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G03": {Gen: genG03, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G04": {Gen: genG04, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G05": {Gen: genG05, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G06": {Gen: genG06, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G07": {Gen: genG07, Twins: 16, Reps: 12, MinEvents: 2000, Rule: rule},
		"G08": {Gen: genG08, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"G09": {Gen: genG09, Twins: 16, Reps: 12, MinEvents: 5000, Rule: rule},
		"X02": {Gen: genX02, Reps: 12, MinEvents: 5000, Rule: "a case is a number of Pipelines used at once, some over one state machine, with a state machine kind, number of pipelines, options and workload of each; distinct by parameters and order of library steps"},
		"G10": {Gen: genG10, Reps: 12, OwnBubbles: true, MinEvents: 5000, Rule: "a case is a number of pipelines, stages and groups, a warning limit and how long and how often nobody reads; distinct by parameters and order of library steps"},
		"T01": {Gen: genT01, Reps: 8, MinEvents: 5000, Rule: rule + "; or a pool kind, number of adders, functions, rounds, errors and contexts of a Group or an Access call"},
		"T02": {Gen: genT02, Reps: 8, MinEvents: 5000, Rule: "case: operation kind, pool kind and size, number of submitters, requests, stages, preprocessors, errors and cancellations, with every context traced or some"},
	})
}
