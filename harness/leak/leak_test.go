// Package leak watches what is left of work that is over: memory, contexts and
// goroutines.
package leak

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"regexp"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"weak"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/zzverif"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzv"

	"verifharness/mon"
)

// payload is something a user hands to the library.
type payload struct {
	n    int
	pad  [12]uint64
	self *payload
}

// touch keeps p alive up to here.
func (p *payload) touch() { runtime.KeepAlive(p) }

// Error makes a payload an error.
func (p *payload) Error() string { return fmt.Sprint("payload ", p.n) }

// env makes the payloads and contexts of one execution and knows what became of them.
type env struct {
	s     *mon.S
	track atomic.Bool
	live  atomic.Int64 // contexts that are registered with a caller's one
	made  atomic.Int64
	regs  atomic.Int64

	mu   sync.Mutex
	refs map[string][]func() bool
}

func watch[T any](e *env, what string, p *T) *T {
	if e.track.Load() {
		w := weak.Make(p)
		e.mu.Lock()
		e.refs[what] = append(e.refs[what], func() bool { return w.Value() != nil })
		e.mu.Unlock()
	}
	return p
}

func (e *env) pay(what string) *payload {
	p := &payload{n: int(e.made.Add(1))}
	p.self = p
	return watch(e, what, p)
}

// ctx is a context type of its own. The context package registers what is derived from
// it with AfterFunc, so that everything that is derived and not released counts.
type ctx struct {
	context.Context
	e    *env
	p    *payload
	done chan struct{}

	mu    sync.Mutex
	err   error
	funcs map[int]func()
	next  int
}

type key struct{}

func (c *ctx) Value(k any) any {
	if k == (key{}) {
		return c.p
	}
	return c.Context.Value(k)
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) cancel() {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = context.Canceled
	close(c.done)
	fs := c.funcs
	c.funcs = nil
	c.mu.Unlock()
	for _, f := range fs {
		c.e.live.Add(-1)
		f()
	}
}

func (c *ctx) AfterFunc(f func()) (stop func() bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	c.next++
	n := c.next
	if c.funcs == nil {
		c.funcs = map[int]func(){}
	}
	c.funcs[n] = f
	c.e.live.Add(1)
	c.e.regs.Add(1)
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.funcs[n] == nil {
			return false
		}
		delete(c.funcs, n)
		c.e.live.Add(-1)
		return true
	}
}

// ctx makes a fresh context with a payload.
func (e *env) ctx() *ctx {
	return &ctx{Context: context.Background(), e: e, p: e.pay("contexts"), done: make(chan struct{})}
}

// subject is what is used over and over.
type subject struct {
	// op does the i-th operation; worker w does one after another.
	op func(w, i int)
	// idle returns when all operations are over; nil if they are when op returns.
	idle func()
	// end closes what lives on.
	end func()
	// keep is the number of payloads that may stay, per kind.
	keep int
	// noGrowth leaves the judgement on the heap out.
	noGrowth bool
	// ops is the number of tracked operations (default 600).
	ops int
}

type params struct {
	kind    string
	workers int
	build   func(e *env) subject
	desc    string
}

// lib finds goroutines of the library and those its packages start in their dependencies,
// but for the goroutine pool of demux, which demux itself never stops.
var lib = regexp.MustCompile(`gostdlib/concurrency/(goroutines|prim|pipelines/stagedpipe)[./]|dynamics/demux\.\(\*Demux`)

func gc() {
	// Two collections empty a sync.Pool.
	runtime.GC()
	runtime.GC()
}

func heap() int64 {
	gc()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func (c params) run(s *mon.S) {
	e := &env{s: s, refs: map[string][]func() bool{}}
	sub := c.build(e)
	if sub.keep == 0 {
		sub.keep = 40
	}
	if sub.ops == 0 {
		sub.ops = 600
	}
	do := func(n int) bool {
		return s.Within(time.Hour, "the operations", func() {
			var wg sync.WaitGroup
			for w := 0; w < c.workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n/c.workers; i++ {
						sub.op(w, i)
						mon.Progress()
						if i%8 == 7 {
							// Lets all else come to rest, so that the number of goroutines, whose
							// structures the runtime keeps, stays small.
							time.Sleep(time.Nanosecond)
						}
					}
				}()
			}
			wg.Wait()
			if sub.idle != nil {
				sub.idle()
			}
		})
	}
	settled := func(when string) bool {
		s.Settle()
		if n := e.live.Load(); n != 0 {
			s.Fail("%s: %d contexts that the library derived from the callers' are still registered with them (of %d)", when, n, e.regs.Load())
			return false
		}
		return true
	}

	// What is handed over is collected once it is over.
	e.track.Store(true)
	if !do(sub.ops) || !settled(fmt.Sprint("after ", sub.ops, " operations")) {
		return
	}
	e.track.Store(false)
	gc()
	for what, l := range e.refs {
		n := 0
		for try := 0; try < 4; try++ {
			n = 0
			for _, alive := range l {
				if alive() {
					n++
				}
			}
			if n <= sub.keep {
				break
			}
			gc()
		}
		if n > sub.keep {
			s.Fail("%d of %d %s of operations that are over are still held", n, len(l), what)
			return
		}
		s.Event(len(l))
		s.ObsMax("max payloads still held of one kind", n)
		s.Obs("payloads collected: "+what, len(l)-n)
	}
	e.refs = map[string][]func() bool{}

	// The heap does not grow with the number of operations. Every round does twice as many
	// as all before; what grows with them grows in every round.
	if s.Rep == 0 && !sub.noGrowth {
		zzv.On = false
		n := 2 * sub.ops
		if !do(n) || !settled("after the first round") {
			return
		}
		h := heap()
		var grown []int64
		bad := 0
		for round := 0; round < 5; round++ {
			if !do(n) || !settled("after a round") {
				return
			}
			h2 := heap()
			grown = append(grown, h2-h)
			if h2-h < int64(3*n) {
				break
			}
			h = h2
			n *= 2
			bad++
		}
		if bad == 5 {
			s.Fail("the heap grows with the number of operations, by %v bytes over rounds of %d, %d, %d, %d and %d operations", grown, n/32, n/16, n/8, n/4, n/2)
			return
		}
		s.Event(1)
		s.Obs("cases with a steady heap", 1)
	}
	s.Obs("derived contexts seen registered and released", int(e.regs.Load()))

	if !s.Within(time.Hour, "closing everything", sub.end) {
		return
	}
	if !settled("after closing everything") {
		return
	}
	if s.Alone() {
		if l := mon.Goroutines(lib); len(l) > 0 {
			s.Fail("everything is closed and %d goroutines of the library are left, one is\n%s", len(l), l[0])
			return
		}
	}
	s.Event(1)
}

var errOption = errors.New("bad option")

// newPool makes pool kind 1 limited, 2 pooled, 3 and 4 the same with non-blocking submission.
func newPool(kind int, name string, size int) (p goroutines.Pool, o []goroutines.SubmitOption) {
	var err error
	switch kind {
	case 1, 3:
		p, err = limited.New(name, size)
		if kind == 3 {
			o = append(o, limited.NonBlocking())
		}
	default:
		p, err = pooled.New(name, size)
		if kind == 4 {
			o = append(o, pooled.NonBlocking())
		}
	}
	if err != nil {
		panic(err)
	}
	return p, o
}

func wrongOption(kind int) goroutines.SubmitOption {
	if kind == 1 || kind == 3 {
		return pooled.NonBlocking()
	}
	return limited.NonBlocking()
}

// pool submits to one pool for ever.
func pool(kind, size, mode int, name string) func(e *env) subject {
	return func(e *env) subject {
		p, o := newPool(kind, name, size)
		return subject{
			op: func(w, i int) {
				c, j := e.ctx(), e.pay("jobs")
				job := func(ctx context.Context) { j.touch() }
				switch mode {
				case 0:
				case 1: // the context is over before the job
					c.cancel()
				case 2: // and during it
					job = func(ctx context.Context) { c.cancel(); j.touch() }
				case 3: // refused
					if p.Submit(c, nil, o...) == nil {
						e.s.Fail("a nil job was accepted")
					}
					if p.Submit(c, job, append(o[:len(o):len(o)], wrongOption(kind))...) == nil {
						e.s.Fail("another pool's option was accepted")
					}
					return
				case 4: // a job that submits another one
					in := job
					k := e.pay("inner jobs")
					job = func(ctx context.Context) {
						if kind >= 3 {
							p.Submit(ctx, func(context.Context) { k.touch() }, o...)
						}
						in(ctx)
					}
				case 5: // jobs that take a while
					job = func(ctx context.Context) { time.Sleep(time.Microsecond); j.touch() }
				}
				if i%5 == 4 {
					o := append(o[:len(o):len(o)], caller(kind, fmt.Sprint("caller", i)))
					if err := p.Submit(c, job, o...); err != nil {
						e.s.Fail("Submit: %v", err)
					}
					return
				}
				if err := p.Submit(c, job, o...); err != nil {
					e.s.Fail("Submit: %v", err)
				}
				if i%16 == 0 {
					time.Sleep(time.Microsecond)
				}
			},
			idle: p.Wait,
			end:  p.Close,
		}
	}
}

func caller(kind int, n string) goroutines.SubmitOption {
	if kind == 1 || kind == 3 {
		return limited.Caller(n)
	}
	return pooled.Caller(n)
}

// poolLife makes and closes pools.
func poolLife(kind int, name string) func(e *env) subject {
	return func(e *env) subject {
		return subject{
			op: func(w, i int) {
				p, o := newPool(kind, name, 1+i%3)
				switch p := p.(type) {
				case *limited.Pool:
					watch(e, "pools", p)
				case *pooled.Pool:
					watch(e, "pools", p)
				}
				for k := 0; k < i%4; k++ {
					j := e.pay("jobs")
					p.Submit(e.ctx(), func(context.Context) { j.touch() }, o...)
				}
				p.Close()
			},
			end: func() {},
		}
	}
}

// group goes round after round with one wait.Group per worker, or a new one each.
func group(kind, workers, mode int, fresh bool) func(e *env) subject {
	return func(e *env) subject {
		var p goroutines.Pool
		var o []goroutines.SubmitOption
		if kind != 0 {
			p, o = newPool(kind, "", 2)
		}
		groups := make([]*wait.Group, workers)
		return subject{
			op: func(w, i int) {
				g := groups[w]
				if g == nil || fresh {
					g = &wait.Group{Pool: p, PoolOptions: o}
					groups[w] = g
					if fresh {
						watch(e, "groups", g)
						groups[w] = nil
					}
				}
				c := e.ctx()
				pc := e.pay("cancel functions")
				if mode >= 2 {
					g.CancelOnErr = func() { pc.touch(); c.cancel() }
				}
				for k := 0; k < 3; k++ {
					f := e.pay("functions")
					g.Go(c, func(ctx context.Context) error {
						f.touch()
						if mode == 1 || mode == 3 {
							return e.pay("errors")
						}
						if mode == 4 && k == 1 {
							return fmt.Errorf("no %d: %w", k, e.pay("errors"))
						}
						return nil
					})
				}
				if mode == 5 {
					c.cancel()
				}
				if i%7 == 0 {
					g.Running()
				}
				g.Wait(c)
			},
			end: func() {
				groups = nil
				if p != nil {
					p.Close()
				}
			},
		}
	}
}

// errorsOf records into a fresh collector.
func collector() func(e *env) subject {
	return func(e *env) subject {
		return subject{
			op: func(w, i int) {
				errs := watch(e, "collectors", &goroutines.Errors{})
				for k := 0; k < 3; k++ {
					errs.Record(e.pay("errors"))
				}
				errs.Error()
				errs.Errors()
			},
			end: func() {},
		}
	}
}

// sliceAccess calls slices.Access again and again.
func sliceAccess(kind, mode int) func(e *env) subject {
	return func(e *env) subject {
		var p goroutines.Pool
		var o []goroutines.SubmitOption
		if kind != 0 {
			p, o = newPool(kind, "", 3)
		}
		return subject{
			ops: 300,
			op: func(w, i int) {
				c := e.ctx()
				l := make([]*payload, 1+i%5)
				for k := range l {
					l[k] = e.pay("elements")
				}
				f := e.pay("functions")
				access := func(ctx context.Context, k int, v *payload, mod slices.Modifier[*payload]) error {
					f.touch()
					v.touch()
					switch mode {
					case 1, 2:
						if k == 1 {
							return e.pay("errors")
						}
					case 3:
						if k == 0 {
							c.cancel()
						}
					}
					mod(e.pay("elements"))
					return nil
				}
				var opts []slices.SliceOption
				switch {
				case p != nil && len(o) > 0:
					opts = append(opts, slices.WithPoolOptions(p, o...))
				case p != nil:
					opts = append(opts, slices.WithPoolOptions(p))
				}
				if mode == 2 || mode == 3 || mode == 4 {
					opts = append(opts, slices.WithStopOnErr())
				}
				if mode == 5 {
					c.cancel()
				}
				if mode == 6 {
					l = nil
				}
				err := slices.Access(c, l, access, opts...)
				if mode == 0 && err != nil {
					e.s.Fail("Access: %v", err)
				}
			},
			end: func() {
				if p != nil {
					p.Close()
				}
			},
		}
	}
}

// chanOp calls chans.Access or chans.Modify again and again.
func chanOp(modify bool, kind, mode int) func(e *env) subject {
	return func(e *env) subject {
		var p goroutines.Pool
		var o []goroutines.SubmitOption
		if kind != 0 {
			p, o = newPool(kind, "", 3)
		}
		return subject{
			ops: 300,
			op: func(w, i int) {
				c := e.ctx()
				n := i % 5
				in := make(chan *payload, 5)
				for k := 0; k < n; k++ {
					in <- e.pay("values")
				}
				if mode != 3 || n == 0 {
					close(in)
				}
				f := e.pay("functions")
				var calls atomic.Int64
				step := func() error {
					f.touch()
					k := calls.Add(1)
					switch mode {
					case 1, 2:
						if k == 2 {
							return e.pay("errors")
						}
					case 3: // the input stays open, the context ends the call
						if int(k) == n {
							c.cancel()
						}
					}
					return nil
				}
				var opts []chans.Option
				switch {
				case p != nil && len(o) > 0:
					opts = append(opts, chans.WithPoolOptions(p, o...))
				case p != nil:
					opts = append(opts, chans.WithPoolOptions(p))
				}
				if mode >= 2 {
					opts = append(opts, chans.WithStopOnErr())
				}
				if mode == 5 {
					c.cancel()
				}
				if modify {
					out := make(chan chans.StreamResult[*payload], 5)
					chans.Modify(c, in, out, func(ctx context.Context, v *payload) (*payload, error) {
						v.touch()
						return e.pay("values"), step()
					}, opts...)
					for range out {
					}
					return
				}
				chans.Access(c, in, func(ctx context.Context, v *payload) error {
					v.touch()
					return step()
				}, opts...)
			},
			end: func() {
				if p != nil {
					p.Close()
				}
			},
		}
	}
}

// value stores into one RWValue.
func value() func(e *env) subject {
	return func(e *env) subject {
		var v atomics.RWValue[*payload]
		return subject{
			op: func(w, i int) {
				switch i % 4 {
				case 0, 1:
					v.Store(e.pay("values"))
				case 2:
					f := e.pay("functions")
					v.LoadReplace(func(old *payload) (*payload, error) {
						f.touch()
						return e.pay("values"), nil
					})
				default:
					v.LoadReplace(func(old *payload) (*payload, error) { return e.pay("values"), e.pay("errors") })
				}
				v.Load()
			},
			end: func() { v.Load() },
		}
	}
}

// fifo pushes and pops.
func fifo(limit int) func(e *env) subject {
	return func(e *env) subject {
		q := zzverif.NewQueue[*payload](limit)
		var in, out atomic.Int64
		return subject{
			ops: 900,
			op: func(w, i int) {
				n := 1
				if limit != 1 && w == 0 && i%50 < 4 {
					n = 2
				}
				for k := 0; k < n; k++ {
					in.Add(1)
					q.Push(e.pay("values"))
				}
				for k := 0; k < n; k++ {
					if v, ok := q.Pop(); !ok || v == nil {
						e.s.Fail("Pop of an open queue said it is closed")
					}
					out.Add(1)
				}
			},
			end: q.Close,
		}
	}
}

// ---- pipelines

type data struct {
	p    *payload
	e    *env
	mode int
	c    *ctx
	hops int
}

type machine struct {
	extra *payload
}

func (m *machine) Start(r stagedpipe.Request[data]) stagedpipe.Request[data] {
	d := r.Data
	d.p.touch()
	switch d.mode {
	case 1:
		r.Err = d.e.pay("errors")
		return r
	case 2:
		d.c.cancel()
	case 3:
		time.Sleep(time.Microsecond)
	}
	r.Next = m.Two
	return r
}

func (m *machine) Two(r stagedpipe.Request[data]) stagedpipe.Request[data] {
	r.Data.p = r.Data.e.pay("data")
	r.Next = m.Three
	return r
}

func (m *machine) Three(r stagedpipe.Request[data]) stagedpipe.Request[data] {
	if r.Data.mode == 4 {
		// Runs a stage again, which a DAG forbids.
		r.Data.hops++
		if r.Data.hops < 3 {
			r.Next = m.Two
			return r
		}
	}
	r.Next = nil
	return r
}

func (m *machine) Close() {}

// noStages has none.
type noStages struct{}

func (noStages) start(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }
func (noStages) Close()                                                    {}
func (n noStages) Start(r stagedpipe.Request[data]) stagedpipe.Request[data] {
	return r
}

type pcfg struct {
	num, mode         int
	dag, ordered, pre bool
	warn              bool
	long              bool // one group per worker for ever
	life              bool // a new Pipelines each time
	fail              bool // a New that fails each time
}

func (c pcfg) options() []stagedpipe.Option[data] {
	var o []stagedpipe.Option[data]
	if c.dag {
		o = append(o, stagedpipe.DAG[data]())
	}
	if c.ordered {
		o = append(o, stagedpipe.Ordered[data]())
	}
	if c.pre {
		o = append(o, stagedpipe.PreProcessors[data](func(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }))
	}
	if c.warn {
		o = append(o, stagedpipe.DelayWarning[data](time.Hour))
	}
	return o
}

func (c pcfg) request(e *env) stagedpipe.Request[data] {
	x := e.ctx()
	r := stagedpipe.Request[data]{Ctx: x, Data: data{p: e.pay("data"), e: e, mode: c.mode, c: x}}
	if c.mode == 5 {
		x.cancel()
	}
	return r
}

// use takes a group through n requests.
func (c pcfg) use(e *env, p *stagedpipe.Pipelines[data], n int) {
	g := watch(e, "groups", p.NewRequestGroup())
	g.Name = "g"
	done := make(chan struct{})
	go func() {
		defer close(done)
		for r := range g.Out() {
			r.Data.p.touch()
		}
	}()
	for ; n > 0; n-- {
		g.Submit(c.request(e))
	}
	g.Close()
	<-done
}

func (c pcfg) build(workers int) func(e *env) subject {
	return func(e *env) subject {
		if c.fail {
			return subject{
				ops:      120,
				noGrowth: true, // demux keeps its pool
				op: func(w, i int) {
					m := watch(e, "state machines", &machine{extra: e.pay("fields of state machines")})
					var err error
					switch i % 4 {
					case 0:
						_, err = stagedpipe.New[data]("x", c.num, m, func(*stagedpipe.Pipelines[data]) error { return errOption })
					case 1:
						_, err = stagedpipe.New[data]("x", c.num, m, stagedpipe.DelayWarning[data](-1))
					case 2:
						_, err = stagedpipe.New[data]("x", 0, m, c.options()...)
					case 3:
						_, err = stagedpipe.New[data]("x", c.num, nil, c.options()...)
					}
					if err == nil {
						e.s.Fail("New accepted wrong arguments")
					}
				},
				end: func() {},
			}
		}
		if c.life {
			return subject{
				ops:      120,
				noGrowth: true, // demux keeps its pool
				op: func(w, i int) {
					m := watch(e, "state machines", &machine{extra: e.pay("fields of state machines")})
					p, err := stagedpipe.New[data]("x", c.num, m, c.options()...)
					if err != nil {
						panic(err)
					}
					watch(e, "Pipelines", p)
					for k := 0; k < i%3; k++ {
						c.use(e, p, i%4)
					}
					p.Close()
				},
				end: func() {},
			}
		}
		p, err := stagedpipe.New[data]("x", c.num, &machine{}, c.options()...)
		if err != nil {
			panic(err)
		}
		if c.long {
			groups := make([]*stagedpipe.RequestGroup[data], workers)
			for w := range groups {
				groups[w] = p.NewRequestGroup()
			}
			return subject{
				op: func(w, i int) {
					if groups[w].Submit(c.request(e)) == nil {
						r := <-groups[w].Out()
						r.Data.p.touch()
					}
				},
				end: func() {
					for _, g := range groups {
						go func() {
							for range g.Out() {
							}
						}()
						g.Close()
					}
					p.Close()
				},
			}
		}
		return subject{
			ops: 240,
			op: func(w, i int) {
				c.use(e, p, 1+i%4)
				if i%8 == 0 {
					p.Stats()
				}
			},
			end: p.Close,
		}
	}
}

func gen(r *rand.Rand, thorough bool) []mon.Case {
	var out []mon.Case
	add := func(name, desc string, workers int, b func(e *env) subject) {
		c := params{kind: name, workers: workers, build: b, desc: desc}
		out = append(out, mon.Case{Name: name, Params: fmt.Sprintf("workers=%d %s", workers, desc), Run: c.run})
	}
	ws := func() int { return 1 + r.IntN(4) }
	for kind := 1; kind <= 4; kind++ {
		for mode := 0; mode <= 5; mode++ {
			name := ""
			if r.IntN(2) == 0 {
				name = "leak"
			}
			size := 1 + r.IntN(5)
			add("one pool", fmt.Sprintf("kind=%d size=%d mode=%d name=%q", kind, size, mode, name), ws(), pool(kind, size, mode, name))
		}
		add("pools", fmt.Sprintf("kind=%d unnamed", kind), ws(), poolLife(kind, ""))
		add("pools", fmt.Sprintf("kind=%d named", kind), ws(), poolLife(kind, "leak"))
	}
	for kind := 0; kind <= 4; kind++ {
		for mode := 0; mode <= 5; mode++ {
			w := ws()
			fresh := r.IntN(3) == 0
			add("wait.Group", fmt.Sprintf("pool=%d mode=%d fresh=%v", kind, mode, fresh), w, group(kind, w, mode, fresh))
		}
		for mode := 0; mode <= 6; mode++ {
			add("slices.Access", fmt.Sprintf("pool=%d mode=%d", kind, mode), ws(), sliceAccess(kind, mode))
		}
		for mode := 0; mode <= 5; mode++ {
			add("chans.Access", fmt.Sprintf("pool=%d mode=%d", kind, mode), ws(), chanOp(false, kind, mode))
			add("chans.Modify", fmt.Sprintf("pool=%d mode=%d", kind, mode), ws(), chanOp(true, kind, mode))
		}
	}
	add("Errors", "", ws(), collector())
	add("RWValue", "", 1, value())
	add("RWValue", "", 3, value())
	for _, l := range []int{1, 2, 8, 1000} {
		add("queue", fmt.Sprintf("limit=%d", l), 1, fifo(l))
		if l > 4 {
			add("queue", fmt.Sprintf("limit=%d", l), 3, fifo(l))
		}
	}
	b := func() bool { return r.IntN(2) == 0 }
	for mode := 0; mode <= 5; mode++ {
		for _, long := range []bool{false, true} {
			for _, ordered := range []bool{false, true} {
				c := pcfg{num: 1 + r.IntN(3), mode: mode, dag: b() || mode == 4, ordered: ordered, pre: b(), long: long}
				w := ws()
				add("Pipelines", mon.P(c), w, c.build(w))
			}
		}
		c := pcfg{num: 1 + r.IntN(3), mode: mode, dag: b(), ordered: b(), pre: b(), life: true}
		add("Pipelines that come and go", mon.P(c), ws(), c.build(0))
	}
	c := pcfg{num: 2, warn: true}
	add("Pipelines", mon.P(c), 2, c.build(2))
	c = pcfg{num: 2, fail: true}
	add("New that fails", mon.P(c), 2, c.build(0))
	return out
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"M01": {Gen: gen, Reps: 2, MinEvents: 50000, Rule: "a case is a kind of object or call, its options, and how operations end (success, error, cancelled before or during, refused), repeated some hundred times with fresh contexts, functions and values; the heap is measured over rounds of doubling length in the first execution; distinct by parameters and order of library steps"},
	})
}
