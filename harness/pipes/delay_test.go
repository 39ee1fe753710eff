package pipes

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/mon"
)

// ---------------------------------------------------------------- G10

// logBook has the lines of the log with their virtual times.
type logBook struct {
	mu    sync.Mutex
	next  io.Writer
	lines []string
	on    bool
}

var book = &logBook{}

func (b *logBook) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.on {
		for _, l := range bytes.Split(bytes.TrimRight(p, "\n"), []byte("\n")) {
			b.lines = append(b.lines, string(l))
		}
	}
	return filter{b.next}.Write(p)
}

// with counts the lines that name the Pipelines.
func (b *logBook) with(name string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, l := range b.lines {
		if strings.Contains(l, name) {
			n++
		}
	}
	return n
}

type dd struct {
	id    int
	sleep time.Duration // of each stage
	fail  bool
}

// d1 has one stage.
type d1 struct{ busy *atomic.Int64 }

func (d1) Close() {}
func (m d1) Start(r stagedpipe.Request[dd]) stagedpipe.Request[dd] {
	m.busy.Add(1)
	defer m.busy.Add(-1)
	time.Sleep(r.Data.sleep)
	if r.Data.fail {
		r.Err = fmt.Errorf("fails")
	}
	return r
}

// d3 has three.
type d3 struct{ busy *atomic.Int64 }

func (d3) Close() {}
func (m d3) Start(r stagedpipe.Request[dd]) stagedpipe.Request[dd] {
	r = d1(m).Start(r)
	r.Next = m.Second
	return r
}

func (m d3) Second(r stagedpipe.Request[dd]) stagedpipe.Request[dd] {
	r = d1(m).Start(r)
	r.Next = m.Third
	return r
}

func (m d3) Third(r stagedpipe.Request[dd]) stagedpipe.Request[dd] {
	r = d1(m).Start(r)
	r.Next = nil
	return r
}

type g10 struct {
	num     int
	three   bool
	groups  int
	d       time.Duration // 0 none
	zero    bool          // DelayWarning(0) instead of no option
	stuck   int           // how long nobody reads, in half d
	rounds  int
	ordered bool
	dag     bool
	fail    bool
	first   bool // DelayWarning is the first option, else the last
	twice   bool // an earlier DelayWarning is replaced
}

func (c g10) pipelines(s *mon.S, name string) (*stagedpipe.Pipelines[dd], *atomic.Int64) {
	var busy atomic.Int64
	var sm stagedpipe.StateMachine[dd] = d1{&busy}
	if c.three {
		sm = d3{&busy}
	}
	var o []stagedpipe.Option[dd]
	if c.ordered {
		o = append(o, stagedpipe.Ordered[dd]())
	}
	if c.dag {
		o = append(o, stagedpipe.DAG[dd]())
	}
	if c.d != 0 || c.zero {
		w := stagedpipe.DelayWarning[dd](c.d)
		switch {
		case c.twice:
			o = append(append([]stagedpipe.Option[dd]{stagedpipe.DelayWarning[dd](c.d/1000 + 1)}, o...), w)
		case c.first:
			o = append([]stagedpipe.Option[dd]{w}, o...)
		default:
			o = append(o, w)
		}
	}
	p, err := stagedpipe.New(name, c.num, sm, o...)
	if err != nil {
		s.Fail("New: %v", err)
		return nil, nil
	}
	return p, &busy
}

// flow sends n requests through p, which are read at once.
func flow(s *mon.S, p *stagedpipe.Pipelines[dd], n int, sleep time.Duration) {
	g := p.NewRequestGroup()
	s.Within(20*time.Duration(n+1)*(sleep+time.Second), "requests with a reader", func() {
		go func() {
			for i := 0; i < n; i++ {
				if err := g.Submit(stagedpipe.Request[dd]{Ctx: context.Background(), Data: dd{id: i, sleep: sleep}}); err != nil {
					s.Fail("Submit: %v", err)
				}
			}
			g.Close()
		}()
		got := 0
		for range g.Out() {
			got++
		}
		if got != n {
			s.Fail("%d of %d requests came out", got, n)
		}
	})
	s.Event(n)
}

func (c g10) run(s *mon.S) {
	book.mu.Lock()
	book.lines, book.on = nil, true
	book.mu.Unlock()
	defer func() {
		book.mu.Lock()
		book.lines, book.on = nil, false
		book.mu.Unlock()
	}()
	p, busy := c.pipelines(s, "zzstuck")
	if p == nil {
		return
	}
	q, _ := c.pipelines(s, "zzflows") // has a reader all the time
	if q == nil {
		return
	}
	k := 1
	if c.three {
		k = 3
	}
	d := c.d
	if d == 0 {
		d = time.Second
	}
	want := c.d != 0
	warned := func() int { return book.with("zzstuck") }
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		// Nobody waits for a place in an output.
		before := warned()
		if c.rounds < 4 || round%2 == 1 {
			flow(s, p, 3*c.num*k, 3*d)
			flow(s, p, 10, 0)
			flow(s, p, 2, d)
		}
		time.Sleep(time.Duration(s.R.IntN(5000)) * d / 1000)
		if n := warned() - before; n != 0 {
			s.Fail("%d warnings although the output was read at once", n)
			return
		}

		// Nobody reads until every stage of every pipeline waits to push its request.
		gs := make([]*stagedpipe.RequestGroup[dd], c.groups)
		var accepted atomic.Int64
		var stop atomic.Bool
		var subs sync.WaitGroup
		started := time.Now()
		for i := range gs {
			gs[i] = p.NewRequestGroup()
			subs.Add(1)
			go func() {
				defer subs.Done()
				for id := 0; !stop.Load(); id++ {
					if err := gs[i].Submit(stagedpipe.Request[dd]{Ctx: context.Background(), Data: dd{id: id, fail: c.fail && id%3 == 1}}); err != nil {
						s.Fail("Submit: %v", err)
						return
					}
					accepted.Add(1)
				}
			}()
		}
		last := int64(-1)
		for last != accepted.Load() { // the delays of the hooks are virtual time, too
			last = accepted.Load()
			time.Sleep(d / 20)
			s.Settle()
		}
		full := time.Now()
		if busy.Load() != 0 {
			s.Fail("a stage is busy")
		}
		if full.Sub(started) >= d {
			s.Fail("filling the Pipelines took %v", full.Sub(started))
		}
		if n := warned() - before; n != 0 {
			s.Fail("%d warnings after %v, which is not longer than %v", n, full.Sub(started), c.d)
		}
		time.Sleep(time.Duration(c.stuck) * d / 2)
		s.Settle()
		n := warned() - before
		most := 0
		if want {
			most = c.num * k * int(time.Since(started)/d)
		}
		if n > most {
			s.Fail("%d warnings in %v from %d stages with a limit of %v", n, time.Since(started), c.num*k, c.d)
		}
		if want && time.Since(full) > d && n < c.num*k {
			s.Fail("%d warnings although each of %d requests waits to be put out for %v and the limit is %v", n, c.num*k, time.Since(full), c.d)
		}
		s.Obs("warnings", n)
		s.Event(n)

		flow(s, q, 4, 0)
		// Now everything is read.
		stop.Store(true)
		var readers sync.WaitGroup
		var got atomic.Int64
		for _, g := range gs {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for range g.Out() {
					got.Add(1)
				}
			}()
		}
		if !s.Within(time.Minute, "Submit and Close with a reader", func() {
			subs.Wait()
			for _, g := range gs {
				g.Close()
			}
			readers.Wait()
		}) {
			return
		}
		if got.Load() != accepted.Load() {
			s.Fail("%d of %d requests came out", got.Load(), accepted.Load())
		}
		s.Event(int(got.Load()))
		drained := warned()
		time.Sleep(time.Duration(s.R.IntN(7000)) * d / 1000)
		s.Settle()
		if n := warned() - drained; n != 0 {
			s.Fail("%d warnings although everything was read", n)
		}
	}
	if n := book.with("zzflows"); n != 0 {
		s.Fail("%d warnings of Pipelines whose output was read at once", n)
	}
	s.Within(time.Minute, "Close", func() { p.Close(); q.Close() })
}

func genG10(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c g10) {
		cs = append(cs, mon.Case{Name: "delays", Params: mon.P(c), Run: c.run})
	}
	ds := []time.Duration{50 * time.Millisecond, time.Second, 90 * time.Second, time.Hour}
	for i, d := range ds {
		add(g10{num: 1, groups: 1, d: d, stuck: 1, rounds: 2, first: i%2 == 0})
		add(g10{num: 1, groups: 1, d: d, stuck: 3, rounds: 3, ordered: i%2 == 0})
		add(g10{num: 2, three: true, groups: 2, d: d, stuck: 3, rounds: 3, ordered: i%2 == 1, first: i%2 == 1})
		add(g10{num: 3, three: true, groups: 1, d: d, stuck: 9, rounds: 2, dag: true, fail: true})
		add(g10{num: 1, three: true, groups: 4, d: d, stuck: 5, rounds: 5, fail: i%2 == 0, twice: true})
		add(g10{num: 6, groups: 3, d: d, stuck: 4, rounds: 4, ordered: true})
	}
	for _, zero := range []bool{true, false} {
		add(g10{num: 1, groups: 1, stuck: 9, rounds: 2, zero: zero})
		add(g10{num: 2, three: true, groups: 2, stuck: 50, rounds: 3, zero: zero, ordered: true})
	}
	n := 16
	if thorough {
		n = 100
	}
	for i := 0; i < n; i++ {
		c := g10{num: 1 + r.IntN(5), three: r.IntN(2) == 0, groups: 1 + r.IntN(4), d: time.Duration(50+r.IntN(5000)) * time.Millisecond, stuck: r.IntN(8), rounds: 1 + r.IntN(5), ordered: r.IntN(2) == 0, dag: r.IntN(2) == 0, fail: r.IntN(2) == 0, first: r.IntN(2) == 0, twice: r.IntN(4) == 0}
		if r.IntN(8) == 0 {
			c.d = 0
		}
		add(c)
	}
	return cs
}
