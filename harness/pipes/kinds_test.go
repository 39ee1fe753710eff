package pipes

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/mon"
	"verifharness/tracer"
)

// ---------------------------------------------------------------- kinds of data

// kindCfg runs requests whose Data is of one of many types.
type kindCfg struct {
	kind          int
	num           int
	groups, reqs  int
	ordered, dag  bool
	pps           int
	traced, delay bool
}

// kindSM hands the k-th value of a list on as the next one at each stage.
type kindSM[T any] struct {
	s    *mon.S
	prop string
	eq   func(a, b T) bool
	mk   func(i int) T
	fail error

	mu sync.Mutex
}

// kindReq is what is known about one request.
type kindReq[T any] struct {
	id   int
	want T
	ran  []string
	pps  int
	err  error
	done bool
}

type kindKey struct{}

func (m *kindSM[T]) who(r stagedpipe.Request[T]) *kindReq[T] {
	q, _ := r.Ctx.Value(kindKey{}).(*kindReq[T])
	return q
}

func (m *kindSM[T]) stage(name string, k int, r stagedpipe.Request[T], next stagedpipe.Stage[T]) stagedpipe.Request[T] {
	q := m.who(r)
	if q == nil {
		m.s.Fail("a stage is called with a request whose context has no values of the submitted one")
		return r
	}
	m.s.Event(1)
	if !m.eq(r.Data, q.want) {
		m.s.Fail("stage %s of request %d sees the data %s, it was %s", name, q.id, show(r.Data), show(q.want))
	}
	q.ran = append(q.ran, name)
	q.want = m.mk(q.id*7 + k)
	r.Data = q.want
	r.Next = next
	if q.id%5 == 3 && k == 2 {
		q.err = fmt.Errorf("request %d: %w", q.id, m.fail)
		r.Err = q.err
	}
	return r
}

func show(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func (m *kindSM[T]) Start(r stagedpipe.Request[T]) stagedpipe.Request[T] {
	return m.stage("Start", 1, r, m.Second)
}
func (m *kindSM[T]) Second(r stagedpipe.Request[T]) stagedpipe.Request[T] {
	return m.stage("Second", 2, r, m.Third)
}
func (m *kindSM[T]) Third(r stagedpipe.Request[T]) stagedpipe.Request[T] {
	return m.stage("Third", 3, r, nil)
}
func (m *kindSM[T]) Close() {}

func runKind[T any](s *mon.S, c kindCfg, mk func(i int) T, eq func(a, b T) bool) {
	m := &kindSM[T]{s: s, mk: mk, eq: eq, fail: errors.New("refused")}
	if eq == nil {
		m.eq = func(a, b T) bool { return reflect.DeepEqual(a, b) }
	}
	var o []stagedpipe.Option[T]
	if c.ordered {
		o = append(o, stagedpipe.Ordered[T]())
	}
	if c.dag {
		o = append(o, stagedpipe.DAG[T]())
	}
	if c.delay {
		o = append(o, stagedpipe.DelayWarning[T](time.Hour))
	}
	for i := 0; i < c.pps; i++ {
		o = append(o, stagedpipe.PreProcessors[T](func(r stagedpipe.Request[T]) stagedpipe.Request[T] {
			q := m.who(r)
			q.pps++
			if !m.eq(r.Data, q.want) {
				s.Fail("a preprocessor of request %d sees the data %s, it was %s", q.id, show(r.Data), show(q.want))
			}
			return r
		}))
	}
	p, err := stagedpipe.New("kinds", c.num, stagedpipe.StateMachine[T](m), o...)
	if err != nil {
		s.Fail("New: %v", err)
		return
	}
	base := context.Background()
	if c.traced {
		base, _ = (&tracer.Provider{}).Root(base, "caller")
	}
	s.Within(time.Hour, "the requests", func() {
		var wg sync.WaitGroup
		for g := 0; g < c.groups; g++ {
			rg := p.NewRequestGroup()
			reqs := make([]*kindReq[T], c.reqs)
			for i := range reqs {
				reqs[i] = &kindReq[T]{id: g*1000 + i, want: mk(i)}
			}
			wg.Add(2)
			go func() {
				defer wg.Done()
				for _, q := range reqs {
					if err := rg.Submit(stagedpipe.Request[T]{Ctx: context.WithValue(base, kindKey{}, q), Data: q.want}); err != nil {
						s.Fail("Submit of request %d: %v", q.id, err)
					}
				}
				rg.Close()
			}()
			go func() {
				defer wg.Done()
				n := 0
				for r := range rg.Out() {
					q := m.who(r)
					if q == nil || q.id/1000 != g {
						s.Fail("group %d delivered a request that is not its own", g)
						continue
					}
					if q.done {
						s.Fail("request %d was delivered twice", q.id)
					}
					q.done = true
					if c.ordered && q.id%1000 != n {
						s.Fail("group %d delivered request %d as number %d", g, q.id%1000, n)
					}
					n++
					if !m.eq(r.Data, q.want) {
						s.Fail("request %d was delivered with the data %s, its last stage left %s", q.id, show(r.Data), show(q.want))
					}
					if r.Err != q.err {
						s.Fail("request %d was delivered with the error %v, its stages left %v", q.id, r.Err, q.err)
					}
					want := []string{"Start", "Second", "Third"}
					if q.err != nil {
						want = want[:2]
					}
					if !reflect.DeepEqual(q.ran, want) {
						s.Fail("request %d ran the stages %v, its route was %v", q.id, q.ran, want)
					}
					if q.pps != c.pps*len(want) {
						s.Fail("request %d ran %d preprocessors in %d stages, there are %d", q.id, q.pps, len(want), c.pps)
					}
					s.Event(1)
				}
				if n != c.reqs {
					s.Fail("group %d delivered %d of %d requests", g, n, c.reqs)
				}
			}()
		}
		wg.Wait()
		p.Close()
	})
	s.Obs(fmt.Sprintf("requests with data of type %T", *new(T)), c.groups*c.reqs)
}

type inner struct {
	A int
	b string
	L []int
	M map[string]*int
}

type stringer interface{ String() string }

type cyc struct{ next *cyc }

func (c *cyc) String() string { return "cyc" }

// funcEq compares functions, of which only some are nil.
func funcEq(a, b func() int) bool {
	if a == nil || b == nil {
		return (a == nil) == (b == nil)
	}
	return a() == b()
}

func (c kindCfg) run(s *mon.S) {
	n := 3
	ints := []*int{nil, new(int), &n}
	cy := &cyc{}
	cy.next = cy
	chans := []chan int{nil, make(chan int), make(chan int, 1)}
	switch c.kind {
	case 0:
		runKind(s, c, func(i int) int { return i%3 - 1 }, nil)
	case 1:
		runKind(s, c, func(i int) string { return []string{"", "x", "\xff\x00"}[i%3] }, nil)
	case 2:
		runKind(s, c, func(i int) *int { return ints[i%3] }, func(a, b *int) bool { return a == b })
	case 3:
		runKind(s, c, func(i int) any { return []any{nil, 0, "", []int(nil), error(nil), (*int)(nil), map[int]int{1: 2}}[i%7] }, nil)
	case 4:
		runKind(s, c, func(i int) struct{} { return struct{}{} }, nil)
	case 5:
		runKind(s, c, func(i int) [6000]int { return [6000]int{0: i, 5999: i + 1} }, func(a, b [6000]int) bool { return a == b })
	case 6:
		runKind(s, c, func(i int) chan int { return chans[i%3] }, func(a, b chan int) bool { return a == b })
	case 7:
		runKind(s, c, func(i int) func() int {
			if i%3 == 0 {
				return nil
			}
			return func() int { return i }
		}, funcEq)
	case 8:
		runKind(s, c, func(i int) error { return []error{nil, context.Canceled, errors.New("data")}[i%3] }, nil)
	case 9:
		runKind(s, c, func(i int) []byte { return [][]byte{nil, {}, {1, 2}}[i%3] }, nil)
	case 10:
		runKind(s, c, func(i int) inner {
			return []inner{{}, {A: i, b: "x"}, {L: []int{1}, M: map[string]*int{"a": &n}}}[i%3]
		}, nil)
	case 11:
		runKind(s, c, func(i int) stringer { return []stringer{nil, (*cyc)(nil), cy}[i%3] }, func(a, b stringer) bool { return a == b })
	case 12:
		runKind(s, c, func(i int) float64 { return []float64{0, -1.5, 1 << 60}[i%3] }, nil)
	case 13:
		// A request in a request.
		runKind(s, c, func(i int) stagedpipe.Request[int] { return stagedpipe.Request[int]{Data: i % 3} }, nil)
	case 14:
		runKind(s, c, func(i int) context.Context { return []context.Context{nil, context.Background()}[i%2] }, nil)
	}
}

const kindsOfData = 15

func kindCases(r *rand.Rand) []mon.Case {
	var cs []mon.Case
	for k := 0; k < kindsOfData; k++ {
		b := func() bool { return r.IntN(2) == 0 }
		c := kindCfg{kind: k, num: 1 + r.IntN(3), groups: 1 + r.IntN(3), reqs: 6 + r.IntN(10), ordered: b(), dag: b(), pps: r.IntN(3), traced: b(), delay: r.IntN(4) == 0}
		if k == 11 {
			c.traced = false // its data has no JSON
		}
		cs = append(cs, mon.Case{Name: "kinds of data", Params: mon.P(c), Run: c.run})
	}
	return cs
}
