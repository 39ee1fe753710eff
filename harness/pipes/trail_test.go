package pipes

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/wait"

	"verifharness/kit"
	"verifharness/mon"
	"verifharness/tracer"
)

// ---------------------------------------------------------------- wait.Group

func groupTrail(kind, size, n, rounds, errPct int, named, cancelOnErr bool) mon.Case {
	return mon.Case{Name: "span of a Group", Params: fmt.Sprintf("kind=%d size=%d n=%d rounds=%d errPct=%d named=%v cancelOnErr=%v", kind, size, n, rounds, errPct, named, cancelOnErr), Run: func(s *mon.S) {
		pool, opts := kit.NewPool(kind, size)
		w := wait.Group{Pool: pool, PoolOptions: opts}
		name := "unspecified"
		if named {
			name = fmt.Sprintf("trail%d", s.R.IntN(1000))
			w.Name = name
		}
		s.Within(time.Hour, "a traced Group", func() {
			for round := 0; round < rounds; round++ {
				tr := newProvider(s)
				ctx, _ := tr.Root(context.Background(), "caller")
				if cancelOnErr {
					ctx, w.CancelOnErr = context.WithCancel(ctx)
				}
				traced := s.R.IntN(6) > 0
				if !traced {
					ctx = context.Background()
				}
				for i := 0; i < n; i++ {
					var err error
					if s.R.IntN(100) < errPct {
						err = fmt.Errorf("error %d", i)
					}
					d := s.R.IntN(5)
					w.Go(ctx, func(context.Context) error { kit.Work(d); return err })
				}
				w.Wait(ctx)
				s.Event(n + 1)
				l := tr.Library(nil)
				if !traced || n == 0 {
					if len(l) > 0 {
						s.Fail("an untraced Group has the %v", l[0])
					}
					continue
				}
				if len(l) != 1 {
					s.Fail("a traced Group has %d spans", len(l))
					return
				}
				sp := l[0]
				if !strings.Contains(sp.Name, name) {
					s.Fail("the span of the Group %q is called %q", name, sp.Name)
				}
			}
		})
		if pool != nil {
			pool.Close()
		}
	}}
}

// ---------------------------------------------------------------- pipelines

// td is the data of a traced request.
type td struct {
	ID    int
	Route []int
	Log   []string
	Note  string
	Bad   any
}

type (
	tReq = stagedpipe.Request[td]
)

// trailSM is a state machine whose stages record events.
type trailSM struct {
	s      *mon.S
	errPct int
	mu     sync.Mutex
	r      *rand.Rand
	// routes is what was run, per request.
	routes map[int][]string
	// ran holds, per request, the spans its stages saw.
	ran map[int][]*tracer.Span
}

var tStages = []string{"Start", "One", "Two", "Three"}

func (m *trailSM) Start(r tReq) tReq { return m.step(0, r) }
func (m *trailSM) One(r tReq) tReq   { return m.step(1, r) }
func (m *trailSM) Two(r tReq) tReq   { return m.step(2, r) }
func (m *trailSM) Three(r tReq) tReq { return m.step(3, r) }
func (m *trailSM) Close()            {}

func (m *trailSM) pre(r tReq) tReq {
	kit.Work(1)
	return r
}

func (m *trailSM) step(i int, r tReq) tReq {
	m.mu.Lock()
	m.routes[r.Data.ID] = append(m.routes[r.Data.ID], tStages[i])
	m.ran[r.Data.ID] = append(m.ran[r.Data.ID], tracer.From(r.Ctx))
	fail := m.r.IntN(100) < m.errPct
	d := m.r.IntN(5)
	m.mu.Unlock()
	kit.Work(d)
	r.Data.Log = append(r.Data.Log, tStages[i])
	r.Next = nil
	if fail {
		r.Err = fmt.Errorf("error of %d", r.Data.ID)
		return r
	}
	if len(r.Data.Route) > 0 {
		next := r.Data.Route[0]
		r.Data.Route = r.Data.Route[1:]
		r.Next = []stagedpipe.Stage[td]{m.Start, m.One, m.Two, m.Three}[next]
	}
	return r
}

type trailCfg struct {
	num, groups, subs, reqs, route, pps, errPct, cancelPct, untraced int
	ordered, dag, named, badData                                     bool
}

func pipeTrail(c trailCfg) mon.Case {
	return mon.Case{Name: "spans of pipelines", Params: mon.P(c), Run: func(s *mon.S) {
		m := &trailSM{s: s, errPct: c.errPct, r: rand.New(rand.NewPCG(s.R.Uint64(), 1)), routes: map[int][]string{}, ran: map[int][]*tracer.Span{}}
		var opts []stagedpipe.Option[td]
		var pps []stagedpipe.PreProcesor[td]
		for i := 0; i < c.pps; i++ {
			pps = append(pps, m.pre)
		}
		if c.pps > 0 {
			opts = append(opts, stagedpipe.PreProcessors(pps...))
		}
		if c.ordered {
			opts = append(opts, stagedpipe.Ordered[td]())
		}
		if c.dag {
			opts = append(opts, stagedpipe.DAG[td]())
		}
		p, err := stagedpipe.New[td]("trail", c.num, m, opts...)
		if err != nil {
			s.Fail("New: %v", err)
			return
		}
		tr := newProvider(s)
		type sent struct {
			root  *tracer.Span
			group int
		}
		var mu sync.Mutex
		all := map[int]*sent{}
		outs := map[int]tReq{}
		ids := 0
		s.Within(time.Hour, "traced pipelines", func() {
			var wg sync.WaitGroup
			for gi := 0; gi < c.groups; gi++ {
				g := p.NewRequestGroup()
				if c.named {
					g.Name = fmt.Sprintf("grp%d", gi)
				}
				read := make(chan struct{})
				go func() {
					defer close(read)
					for r := range g.Out() {
						mu.Lock()
						outs[r.Data.ID] = r
						mu.Unlock()
					}
				}()
				var subs sync.WaitGroup
				for si := 0; si < c.subs; si++ {
					r := rand.New(rand.NewPCG(s.R.Uint64(), 1))
					subs.Add(1)
					go func() {
						defer subs.Done()
						for i := 0; i < c.reqs; i++ {
							mu.Lock()
							ids++
							id := ids
							mu.Unlock()
							d := td{ID: id, Note: fmt.Sprintf("note \"%d\" é", r.IntN(1000))}
							if c.dag {
								d.Route = append(d.Route, r.Perm(3)...)
								for i := range d.Route {
									d.Route[i]++
								}
								d.Route = d.Route[:r.IntN(min(c.route, 3)+1)]
							} else {
								for k := r.IntN(c.route + 1); k > 0; k-- {
									d.Route = append(d.Route, r.IntN(4))
								}
							}
							if c.badData && r.IntN(2) == 0 {
								d.Bad = make(chan int)
							}
							ctx := context.Background()
							x := &sent{group: gi}
							if r.IntN(100) >= c.untraced {
								ctx, x.root = tr.Root(ctx, "caller")
							}
							if r.IntN(100) < c.cancelPct {
								var cancel context.CancelFunc
								ctx, cancel = context.WithTimeout(ctx, time.Duration(r.IntN(100))*time.Microsecond)
								defer cancel()
							}
							mu.Lock()
							all[id] = x
							mu.Unlock()
							if err := g.Submit(tReq{Ctx: ctx, Data: d}); err != nil {
								mu.Lock()
								delete(all, id)
								mu.Unlock()
							}
						}
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					subs.Wait()
					g.Close()
					<-read
				}()
			}
			wg.Wait()
			p.Close()
		})
		if s.Failed() {
			return
		}
		groupSpans := map[int]*tracer.Span{}
		names := map[string]int{}
		for id, x := range all {
			if _, ok := outs[id]; !ok {
				s.Fail("request %d did not come out", id)
				return
			}
			if x.root == nil {
				continue
			}
			s.Event(2 + len(m.ran[id]))
			gname := "unnamed"
			if c.named {
				gname = fmt.Sprintf("grp%d", x.group)
			}
			// The span of the request is the one under which the stages are; it may
			// be under that of the group.
			var span *tracer.Span
			var kids []*tracer.Span
			for _, sp := range tr.Library(x.root) {
				switch {
				case strings.Contains(sp.Name, "Request("):
					if span != nil {
						s.Fail("request %d has the %v and the %v", id, span, sp)
					}
					span = sp
				case sp.Parent == x.root:
					if o := groupSpans[x.group]; o != nil {
						s.Fail("group %d has the %v and the %v", x.group, o, sp)
					}
					groupSpans[x.group] = sp
					if !strings.Contains(sp.Name, gname) {
						s.Fail("the %v is of a group called %q", sp, gname)
					}
				default:
					kids = append(kids, sp)
				}
			}
			if span == nil {
				s.Fail("request %d has no span", id)
				return
			}
			if !strings.Contains(span.Name, "("+gname+")") {
				s.Fail("the %v is of a request of a group called %q", span, gname)
			}
			names[fmt.Sprint(x.group, span.Name)]++
			// The stages.
			route := m.routes[id]
			var i int
			for _, k := range kids {
				if k.Parent != span {
					s.Fail("the %v is not a child of the %v of the request", k, span)
				}
				if i < len(route) && k == m.ran[id][i] {
					if !strings.HasSuffix(k.Name, "."+route[i]) {
						s.Fail("the %v is that of the stage %s", k, route[i])
					}
					i++
				}
			}
			if i != len(route) {
				s.Fail("request %d has run %d stages, %d of its spans are those of the stages, in order", id, len(route), i)
			}
		}
		for n, k := range names {
			if k > 1 {
				s.Fail("%d requests of one group are called %s", k, n)
			}
		}
		s.Obs("spans of groups", len(groupSpans))
		s.Obs("spans of requests", len(names))
	}}
}

func genT02(r *rand.Rand, thorough bool) []mon.Case {
	n := 12
	if thorough {
		n = 100
	}
	var cs []mon.Case
	for i := 0; i < n; i++ {
		cs = append(cs, groupTrail(i%5, 1+r.IntN(4), r.IntN(12), 1+r.IntN(3), r.IntN(2)*40, i%3 == 0, r.IntN(3) == 0))
		for k := 0; k < 2; k++ {
			cs = append(cs, pipeTrail(trailCfg{num: 1 + r.IntN(3), groups: 1 + r.IntN(3), subs: 1 + r.IntN(3), reqs: 1 + r.IntN(8), route: r.IntN(5), pps: r.IntN(3), errPct: r.IntN(2) * 10, cancelPct: r.IntN(2) * 30,
				untraced: r.IntN(3) / 2 * 40, ordered: r.IntN(2) == 0, dag: r.IntN(3) == 0, named: r.IntN(2) == 0, badData: r.IntN(4) == 0}))
		}
	}
	return cs
}
