package pools

import (
	"cmp"
	"context"
	"math/rand/v2"
	"regexp"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"

	"verifharness/kit"
	"verifharness/mon"
)

const minute = time.Minute

type kind int

const (
	kLimited kind = iota
	kPooled
)

func (k kind) String() string { return [...]string{"limited", "pooled"}[k] }

func (k kind) new(s *mon.S, name string, size int) goroutines.Pool {
	var p goroutines.Pool
	var err error
	if k == kLimited {
		p, err = limited.New(name, size)
	} else {
		p, err = pooled.New(name, size)
	}
	if err != nil {
		s.Fail("New(%q, %d): %v", name, size, err)
		panic(err)
	}
	return p
}

func (k kind) nb() goroutines.SubmitOption {
	if k == kLimited {
		return limited.NonBlocking()
	}
	return pooled.NonBlocking()
}

func (k kind) caller(n string) goroutines.SubmitOption {
	if k == kLimited {
		return limited.Caller(n)
	}
	return pooled.Caller(n)
}

func (k kind) other() kind { return 1 - k }

// opts returns submit options for a valid submission.
func (k kind) opts(nb bool, v int) []goroutines.SubmitOption {
	var o []goroutines.SubmitOption
	if v&1 != 0 {
		o = append(o, k.caller("caller"))
	}
	if nb {
		o = append(o, k.nb())
	}
	if v&2 != 0 {
		o = append(o, k.caller("other"))
	}
	return o
}

type ctxKey struct{}

var poolFrame = regexp.MustCompile(`github\.com/gostdlib/concurrency/goroutines/(limited|pooled)\.\(\*Pool\)|created by github\.com/gostdlib/concurrency/goroutines/`)

// work simulates a job: some mix of computing, yielding and sleeping.
func work(d int) {
	switch {
	case d == 0:
	case d == 1:
		runtime.Gosched()
	case d == 2:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(d) * 10 * time.Microsecond)
	}
}

// ---------------------------------------------------------------- P01

type job struct {
	id       int
	runs     atomic.Int32
	ended    atomic.Int32
	rejected bool
	accepted atomic.Bool
	ctx      context.Context
}

type p01 struct {
	k                   kind
	size, subs, perSub  int
	nbPct, badPct, nest int
	rounds, maxDur      int
	waiters             int
	cancelPct           int
	exitPct             int // jobs that end with runtime.Goexit
	named               bool
}

func (c p01) run(s *mon.S) {
	name := ""
	if c.named {
		name = "ponepool"
	}
	before := len(mon.Goroutines(poolFrame))
	p := c.k.new(s, name, c.size)
	nestSem := make(chan struct{}, max(c.size-1, 1))
	var idc atomic.Int64

	for round := 0; round < c.rounds && !s.Failed(); round++ {
		var mu sync.Mutex
		var all []*job
		var lastEnd atomic.Int64 // virtual ns
		t0 := time.Now()

		add := func() *job {
			j := &job{id: int(idc.Add(1))}
			mu.Lock()
			all = append(all, j)
			mu.Unlock()
			return j
		}
		var mk func(j *job, r *rand.Rand, depth int) goroutines.Job
		submit := func(r *rand.Rand, depth int, nb bool) {
			j := add()
			if r.IntN(100) < c.badPct {
				// A submission that must be rejected.
				j.rejected = true
				var err error
				fn := mk(j, rand.New(rand.NewPCG(r.Uint64(), 1)), 0)
				ctx := context.WithValue(context.Background(), ctxKey{}, j.id)
				switch r.IntN(4) {
				case 0:
					err = p.Submit(ctx, nil)
				case 1:
					err = p.Submit(ctx, fn, c.k.other().nb())
				case 2:
					err = p.Submit(ctx, fn, c.k.other().caller("x"))
				case 3:
					err = p.Submit(ctx, fn, c.k.nb(), c.k.other().nb())
				}
				if err == nil {
					s.Fail("invalid Submit returned nil error")
				}
				s.Obs("rejected submissions", 1)
				return
			}
			ctx := kit.Ctx(r, context.WithValue(context.Background(), ctxKey{}, j.id))
			if r.IntN(100) < c.cancelPct {
				cctx, cancel := context.WithCancel(ctx)
				cancel()
				ctx = cctx
			}
			j.ctx = ctx
			fn := mk(j, rand.New(rand.NewPCG(r.Uint64(), 2)), depth)
			if err := p.Submit(ctx, fn, c.k.opts(nb, r.IntN(4))...); err != nil {
				s.Fail("valid Submit(nb=%v) returned %v", nb, err)
				return
			}
			j.accepted.Store(true)
		}
		mk = func(j *job, r *rand.Rand, depth int) goroutines.Job {
			d := r.IntN(c.maxDur + 1)
			nested := 0
			if depth > 0 {
				nested = r.IntN(3)
			}
			exits := r.IntN(100) < c.exitPct
			return func(ctx context.Context) {
				if n := j.runs.Add(1); n != 1 {
					s.Fail("job %d executed %d times", j.id, n)
				}
				if j.rejected {
					s.Fail("job %d executed although its Submit was rejected", j.id)
				}
				if v, _ := ctx.Value(ctxKey{}).(int); v != j.id {
					s.Fail("job %d ran with the context of %v", j.id, ctx.Value(ctxKey{}))
				}
				work(d)
				for i := 0; i < nested; i++ {
					nb := r.IntN(2) == 0
					if nb {
						submit(r, depth-1, true)
						s.Obs("nested non-blocking", 1)
					} else if c.size > 1 {
						// Blocking from inside the pool is only sane if not all places are taken by
						// jobs doing the same.
						select {
						case nestSem <- struct{}{}:
							submit(r, depth-1, false)
							<-nestSem
							s.Obs("nested blocking", 1)
						default:
						}
					}
				}
				work(d / 2)
				if j.ctx != nil {
					if d := kit.OtherCtx(ctx, j.ctx); d != "" {
						s.Fail("the context of job %d %s", j.id, d)
					}
				}
				ns := int64(time.Since(t0))
				for {
					o := lastEnd.Load()
					if o >= ns || lastEnd.CompareAndSwap(o, ns) {
						break
					}
				}
				j.ended.Add(1)
				if exits {
					s.Obs("jobs that end their goroutine", 1)
					runtime.Goexit()
				}
			}
		}

		var subs sync.WaitGroup
		for i := 0; i < c.subs; i++ {
			r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(i)))
			subs.Add(1)
			go func() {
				defer subs.Done()
				for n := 0; n < c.perSub && !s.Failed(); n++ {
					submit(r, c.nest, r.IntN(100) < c.nbPct)
				}
			}()
		}
		if !s.Within(10*minute, "submitting all jobs", subs.Wait) {
			return
		}
		check := func(what string) {
			at := time.Since(t0)
			mu.Lock()
			l := append([]*job(nil), all...)
			mu.Unlock()
			for _, j := range l {
				want := int32(1)
				if j.rejected {
					want = 0
				}
				if r, e := j.runs.Load(), j.ended.Load(); r != want || e != want {
					s.Fail("%s returned: job %d started %d and finished %d times, want %d", what, j.id, r, e, want)
					return
				}
				s.Event(1)
			}
			if late := at - time.Duration(lastEnd.Load()); len(l) > 0 && late > time.Second {
				s.Fail("%s returned %v after the last job had finished", what, late)
			}
		}
		last := round == c.rounds-1
		if last && s.R.IntN(2) == 0 {
			// Close without Wait.
			if !s.Within(10*minute, "Close", func() { p.Close(); check("Close") }) {
				return
			}
			s.Obs("closes as barrier", 1)
		} else {
			var ws sync.WaitGroup
			for i := 0; i < c.waiters; i++ {
				ws.Add(1)
				go func() {
					defer ws.Done()
					p.Wait()
					check("Wait")
				}()
			}
			if !s.Within(10*minute, "Wait", ws.Wait) {
				return
			}
			if last {
				if !s.Within(10*minute, "Close", p.Close) {
					return
				}
			}
		}
		s.Settle()
		check("(at rest) Wait")
		s.Obs("jobs", len(all))
		s.ObsMax("max jobs in a round", len(all))
	}
	s.Settle()
	if !s.Failed() && s.Alone() {
		if left := mon.Goroutines(poolFrame); len(left) > before {
			s.Fail("%d goroutines of the pool are left after Close:\n%s", len(left)-before, left[0])
		}
	}
}

func genP01(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r)
	add := func(c p01) { cs = append(cs, mon.Case{Name: "submit mix", Params: mon.P(c), Run: c.run}) }
	for _, k := range []kind{kLimited, kPooled} {
		for _, size := range []int{1, 2, 3, 8} {
			add(p01{k: k, size: size, subs: 1, perSub: 60, rounds: 2, maxDur: 3, waiters: 1})
			add(p01{k: k, size: size, subs: 6, perSub: 30, nbPct: 40, badPct: 10, rounds: 3, maxDur: 6, waiters: 2, cancelPct: 10, named: true})
			add(p01{k: k, size: size, subs: 3, perSub: 20, nbPct: 30, nest: 1, rounds: 3, maxDur: 5, waiters: 1, exitPct: 15})
			add(p01{k: k, size: size, subs: 3, perSub: 10, nbPct: 50, badPct: 5, nest: 2, rounds: 2, maxDur: 5, waiters: 3})
		}
		add(p01{k: k, size: 4, subs: 4, perSub: 1, nest: 3, rounds: 8, maxDur: 4, waiters: 1})
		add(p01{k: k, size: 2, subs: 8, perSub: 40, nbPct: 100, rounds: 2, maxDur: 2, waiters: 1})
		add(p01{k: k, size: 64, subs: 8, perSub: 60, nbPct: 10, rounds: 2, maxDur: 10, waiters: 1})
		add(p01{k: k, size: 5, subs: 1, perSub: 0, rounds: 2, waiters: 2})
		add(p01{k: k, size: 1, subs: 1, perSub: 1, rounds: 20, waiters: 1, maxDur: 1})
		add(p01{k: k, size: 3, subs: 2, perSub: 1500, nbPct: 20, rounds: 1, waiters: 1, maxDur: 1})
	}
	for _, k := range []kind{kLimited, kPooled} {
		for _, c := range []p01{
			{k: k, size: 2, subs: 2, perSub: 3500, nbPct: 10, rounds: 2, waiters: 1, maxDur: 1},
			{k: k, size: 1, subs: 1, perSub: 6000, rounds: 1, waiters: 1},
			{k: k, size: 6, subs: 2, perSub: 34000, nbPct: 20, rounds: 1, waiters: 1},
		} {
			cs = append(cs, mon.Case{Name: "long history", Params: mon.P(c), Run: c.run, Reps: 1, Calm: c.subs*c.perSub > 10000})
		}
	}
	n := 8
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		add(p01{k: kind(r.IntN(2)), size: 1 + r.IntN(10), subs: 1 + r.IntN(8), perSub: 1 + r.IntN(40), nbPct: []int{0, 20, 50, 90}[r.IntN(4)],
			badPct: r.IntN(20), nest: r.IntN(3), rounds: 1 + r.IntN(4), maxDur: r.IntN(12), waiters: 1 + r.IntN(3), cancelPct: r.IntN(30), named: r.IntN(2) == 0, exitPct: r.IntN(3) / 2 * 10})
	}
	return cs
}

// ---------------------------------------------------------------- P02

type p02 struct {
	k         kind
	size      int
	history   int // number of jobs run before the capacity is measured
	subs      int
	nbPct     int
	maxDur    int
	waiting   int // submitters waiting for a place while it is full
	nbHolders int // limited only: non-blocking jobs that hold on meanwhile
	nestNB    bool
	exitPct   int // jobs that end with runtime.Goexit
	stride    int // jobs released between two measurements, 1 if 0
}

func (c p02) run(s *mon.S) {
	p := c.k.new(s, "", c.size)
	var active, peak atomic.Int64
	enter := func() {
		a := active.Add(1)
		if a > int64(c.size) {
			s.Fail("%d blocking jobs execute at once in a pool of size %d", a, c.size)
		}
		for {
			o := peak.Load()
			if o >= a || peak.CompareAndSwap(o, a) {
				break
			}
		}
		s.Event(1)
	}
	leave := func() { active.Add(-1) }

	// History: a mix of jobs, errors and options.
	var wg sync.WaitGroup
	for i := 0; i < c.subs; i++ {
		r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < c.history/c.subs && !s.Failed(); n++ {
				d := r.IntN(c.maxDur + 1)
				ctx := kit.Ctx(r, context.Background())
				exits := r.IntN(100) < c.exitPct
				switch v := r.IntN(100); {
				case v < 4:
					p.Submit(ctx, nil)
				case v < 8:
					p.Submit(ctx, func(context.Context) { s.Fail("rejected job ran") }, c.k.other().nb())
				case v < 8+c.nbPct:
					p.Submit(ctx, func(context.Context) {
						work(d)
						if exits {
							runtime.Goexit()
						}
					}, c.k.opts(true, r.IntN(4))...)
				default:
					nest := c.nestNB && r.IntN(4) == 0
					p.Submit(ctx, func(ctx context.Context) {
						enter()
						work(d)
						if nest {
							p.Submit(ctx, func(context.Context) { work(d) }, c.k.nb())
						}
						leave()
						if exits {
							runtime.Goexit()
						}
					}, c.k.opts(false, r.IntN(4))...)
				}
			}
		}()
	}
	if !s.Within(10*minute, "history of jobs", func() { wg.Wait(); p.Wait() }) {
		return
	}

	// Non-blocking jobs of a limited pool hold on and must not take places.
	release := make(chan struct{})
	if c.k == kLimited {
		for i := 0; i < c.nbHolders; i++ {
			if !s.Within(minute, "non-blocking Submit", func() { p.Submit(context.Background(), func(context.Context) { <-release }, c.k.nb()) }) {
				return
			}
		}
	}
	// Capacity: size jobs at once, then one for one.
	total := c.size + c.waiting
	step := make(chan struct{})
	var started, ended atomic.Int64
	for i := 0; i < total; i++ {
		go func() {
			err := p.Submit(context.Background(), func(context.Context) {
				enter()
				started.Add(1)
				<-step
				leave()
				ended.Add(1)
			}, c.k.opts(false, i%4)...)
			if err != nil {
				s.Fail("Submit: %v", err)
			}
		}()
	}
	for i := 0; i <= total; {
		s.Settle()
		want := int64(min(c.size, total-i))
		if a := active.Load(); a != want {
			s.Fail("pool of size %d with %d jobs outstanding and %d ended runs %d jobs at once, want %d", c.size, total-i, ended.Load(), a, want)
			return
		}
		if i == total {
			break
		}
		for n := min(max(c.stride, 1), total-i); n > 0; n-- {
			step <- struct{}{}
			i++
		}
	}
	close(release)
	if !s.Within(minute, "Close", p.Close) {
		return
	}
	if n := started.Load(); n != int64(total) {
		s.Fail("%d of %d jobs executed", n, total)
	}
	s.Obs("capacity probes", total+1)
	s.ObsMax("max jobs at once", int(peak.Load()))
}

func genP02(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r)
	add := func(c p02) { cs = append(cs, mon.Case{Name: "capacity", Params: mon.P(c), Run: c.run}) }
	for _, k := range []kind{kLimited, kPooled} {
		for _, size := range []int{1, 2, 3, 5, 16, 40} {
			add(p02{k: k, size: size, history: 40 * min(size, 6), subs: 1 + size%7, nbPct: 20, maxDur: 5, waiting: size + 2, nbHolders: 3})
			add(p02{k: k, size: size, history: 0, subs: 1, waiting: 3, nbHolders: 2 * size})
			add(p02{k: k, size: size, history: 30, subs: 2, nbPct: 20, maxDur: 3, waiting: 2, exitPct: 20})
		}
		add(p02{k: k, size: 4, history: 800, subs: 8, nbPct: 0, maxDur: 2, waiting: 6})
		add(p02{k: k, size: 3, history: 300, subs: 6, nbPct: 60, maxDur: 4, waiting: 6, nestNB: true, nbHolders: 5})
		add(p02{k: k, size: 300, history: 100, subs: 2, nbPct: 10, maxDur: 4, waiting: 10})
		for _, c := range []p02{
			{k: k, size: 3000, history: 10, subs: 2, nbPct: 10, maxDur: 4, waiting: 20, stride: 999},
			{k: k, size: 2, history: 9000, subs: 2, nbPct: 30, maxDur: 1, waiting: 5},
		} {
			cs = append(cs, mon.Case{Name: "capacity at length", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	n := 8
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		add(p02{k: kind(r.IntN(2)), size: 1 + r.IntN(12), history: r.IntN(300), subs: 1 + r.IntN(8), nbPct: r.IntN(90), maxDur: r.IntN(10), waiting: r.IntN(20), nbHolders: r.IntN(10), nestNB: r.IntN(2) == 0, exitPct: r.IntN(3) / 2 * 15})
	}
	return cs
}

// ---------------------------------------------------------------- P03

type p03 struct {
	k       kind
	size    int
	holders int // blocking jobs holding on, at most size run
	nbHold  int // non-blocking jobs holding on
	queued  int // extra blocking submitters that wait
	probes  int // non-blocking submissions under test, at the same time
	churn   int // short blocking jobs going on at the same time
	inside  bool
	depth   int
	order   int
}

func (c p03) run(s *mon.S) {
	p := c.k.new(s, "", c.size)
	release := make(chan struct{})
	hold := func(context.Context) { <-release }
	var wg sync.WaitGroup
	blocking := func(n int) {
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); p.Submit(context.Background(), hold, c.k.opts(false, i%4)...) }()
		}
	}
	nonblocking := func(n int) bool {
		for i := 0; i < n; i++ {
			if !s.Within(minute, "non-blocking Submit", func() { p.Submit(context.Background(), hold, c.k.opts(true, i%4)...) }) {
				return false
			}
		}
		return true
	}
	ok := true
	switch c.order {
	case 0:
		blocking(c.holders)
		s.Settle()
		ok = nonblocking(c.nbHold)
		blocking(c.queued)
	case 1:
		ok = nonblocking(c.nbHold)
		blocking(c.holders)
		s.Settle()
		blocking(c.queued)
	case 2:
		blocking(c.holders + c.queued)
		ok = nonblocking(c.nbHold)
	}
	if !ok {
		return
	}
	if c.churn == 0 {
		s.Settle()
	}

	stop := make(chan struct{})
	var churnWG sync.WaitGroup
	for i := 0; i < c.churn; i++ {
		churnWG.Add(1)
		go func() {
			defer churnWG.Done()
			for n := 0; n < 40; n++ {
				select {
				case <-stop:
					return
				default:
				}
				p.Submit(context.Background(), func(context.Context) { work(n % 3) }, c.k.opts(n%3 == 0, 0)...)
			}
		}()
	}

	// The probes: each submits a job without blocking; all jobs must start although nobody ends.
	var returned, startedN atomic.Int64
	gate := make(chan struct{})
	var probe func(depth int) func(context.Context)
	probe = func(depth int) func(context.Context) {
		return func(ctx context.Context) {
			startedN.Add(1)
			if depth > 0 {
				// A job that submits to its own full pool and waits for the result.
				done := make(chan struct{})
				inner := probe(depth - 1)
				if err := p.Submit(ctx, func(ctx context.Context) { inner(ctx); close(done) }, c.k.nb()); err != nil {
					s.Fail("nested non-blocking Submit: %v", err)
				}
				returned.Add(1)
				<-done
				return
			}
			<-gate
		}
	}
	want := int64(c.probes * (1 + c.depth))
	r := s.R.IntN(4)
	submitProbe := func(i int) {
		ctx := kit.Ctx(rand.New(rand.NewPCG(uint64(i), uint64(c.size))), context.Background())
		if err := p.Submit(ctx, probe(c.depth), c.k.opts(true, (i+r)%4)...); err != nil {
			s.Fail("non-blocking Submit: %v", err)
		}
		returned.Add(1)
	}
	if c.inside {
		// Submitted from one job of the pool, which itself was submitted without blocking.
		go p.Submit(context.Background(), func(context.Context) {
			for i := 0; i < c.probes; i++ {
				submitProbe(i)
			}
		}, c.k.nb())
	} else {
		for i := 0; i < c.probes; i++ {
			go submitProbe(i)
		}
	}
	// At quiescence (after churn, whose jobs all end) everything must have started.
	s.Settle()
	if c.churn > 0 {
		time.Sleep(time.Second)
		s.Settle()
	}
	if n := returned.Load(); n != want {
		s.Fail("%d of %d non-blocking Submit calls returned while the pool is occupied\n%s", n, want, mon.Blocked())
		return
	}
	if n := startedN.Load(); n != want {
		s.Fail("%d of %d non-blocking jobs started while the pool is occupied", n, want)
		return
	}
	s.Event(int(want))
	s.Obs("non-blocking jobs started in an occupied pool", int(want))
	close(gate)
	close(release)
	close(stop)
	s.Within(10*minute, "drain", func() { churnWG.Wait(); wg.Wait(); p.Close() })
}

func genP03(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r)
	add := func(c p03) { cs = append(cs, mon.Case{Name: "non-blocking", Params: mon.P(c), Run: c.run}) }
	for _, k := range []kind{kLimited, kPooled} {
		for _, size := range []int{1, 2, 4, 9} {
			for order := 0; order < 3; order++ {
				add(p03{k: k, size: size, holders: size, nbHold: order, queued: order * 2, probes: 3, order: order, depth: 1})
				add(p03{k: k, size: size, holders: size - 1, nbHold: 0, queued: 0, probes: 5, churn: order, order: order, inside: order == 1})
			}
			add(p03{k: k, size: size, holders: size, queued: 5, probes: 20, depth: 3})
			add(p03{k: k, size: size, holders: 0, nbHold: 3 * size, probes: 10, inside: true})
			add(p03{k: k, size: size, holders: 0, probes: size + 4, churn: 2})
			add(p03{k: k, size: size, holders: 0, probes: 2 * size, depth: 2})
		}
		for _, c := range []p03{
			{k: k, size: 2, holders: 2, nbHold: 20, queued: 3, probes: 3000},
			{k: k, size: 3, holders: 3, probes: 1, depth: 400},
			{k: k, size: 2500, holders: 2500, queued: 2, probes: 40, depth: 1},
		} {
			cs = append(cs, mon.Case{Name: "many non-blocking", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	n := 10
	if thorough {
		n = 80
	}
	for i := 0; i < n; i++ {
		c := p03{k: kind(r.IntN(2)), size: 1 + r.IntN(8), probes: 1 + r.IntN(12), depth: r.IntN(3), order: r.IntN(3), inside: r.IntN(2) == 0, churn: r.IntN(3)}
		c.holders, c.nbHold, c.queued = r.IntN(c.size+1), r.IntN(5), r.IntN(5)
		if c.churn > 0 { // churn needs a free place to come to an end
			c.holders, c.nbHold, c.queued = max(0, c.size-1-r.IntN(c.size)), 0, 0
			if c.k == kPooled && c.holders+c.probes*(1+c.depth) >= c.size {
				c.churn = 0
			}
		}
		add(c)
	}
	return cs
}

// ---------------------------------------------------------------- P04

type p04 struct {
	k      kind
	size   int
	subs   int
	per    int
	nbPct  int
	maxDur int
	rounds int
	// exitPct of the jobs end with runtime.Goexit.
	exitPct int
	holdPct int // of the jobs in every second round run until the end of it, 20 if 0
}

func (c p04) run(s *mon.S) {
	p := c.k.new(s, "", c.size)
	lenIs := func(when string) {
		if l := p.Len(); l != c.size {
			s.Fail("Len() is %d %s, the pool has size %d", l, when, c.size)
		}
	}
	lenIs("before use")
	if n := p.Running(); n != 0 {
		s.Fail("Running() is %d before use", n)
	}
	var begun, started, ended, failed atomic.Int64
	sample := func(inside bool) {
		st := started.Load()
		n := int64(p.Running())
		en := ended.Load()
		be := begun.Load()
		if n < 0 {
			s.Fail("Running() is %d", n)
		}
		if n < st-en {
			s.Fail("Running() is %d, at least %d jobs were executing", n, st-en)
		}
		if inside && n < 1 {
			s.Fail("Running() is %d inside a job", n)
		}
		if n > be {
			s.Fail("Running() is %d, only %d jobs were ever submitted", n, be)
		}
		lenIs("while busy")
		s.Event(1)
	}
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		var hold chan struct{}
		if round%2 == 1 {
			hold = make(chan struct{})
		}
		var wg sync.WaitGroup
		for i := 0; i < c.subs; i++ {
			r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < c.per; n++ {
					d := r.IntN(c.maxDur + 1)
					ctx := kit.Ctx(r, context.Background())
					exits := r.IntN(100) < c.exitPct
					if r.IntN(12) == 0 {
						if r.IntN(2) == 0 {
							p.Submit(ctx, nil)
						} else {
							p.Submit(ctx, func(context.Context) {}, c.k.other().nb())
						}
						failed.Add(1)
						sample(false)
						continue
					}
					probe := r.IntN(3) == 0
					holds := hold != nil && r.IntN(100) < cmp.Or(c.holdPct, 20)
					begun.Add(1)
					err := p.Submit(ctx, func(context.Context) {
						started.Add(1)
						if probe {
							sample(true)
						}
						if holds {
							<-hold
						} else {
							work(d)
						}
						ended.Add(1)
						if exits {
							runtime.Goexit()
						}
					}, c.k.opts(r.IntN(100) < c.nbPct, r.IntN(4))...)
					if err != nil {
						s.Fail("Submit: %v", err)
					}
					if probe {
						sample(false)
					}
				}
			}()
		}
		// Exact bounds whenever everything is at rest.
		rest := func() {
			s.Settle()
			n, st, en, be := int64(p.Running()), started.Load(), ended.Load(), begun.Load()
			if n < st-en || n > be-en {
				s.Fail("at rest: Running() is %d, %d jobs are executing and %d are submitted and not ended", n, st-en, be-en)
			}
			lenIs("at rest")
			s.Obs("exact samples", 1)
			s.ObsMax("max jobs running at rest", int(st-en))
			s.Event(1)
		}
		for i := 0; i < 6; i++ {
			rest()
			time.Sleep(time.Duration(s.R.IntN(100)) * time.Microsecond)
		}
		time.Sleep(time.Second)
		rest()
		if hold != nil {
			close(hold)
		}
		if !s.Within(10*minute, "Wait", func() {
			wg.Wait()
			p.Wait()
			if n := p.Running(); n != 0 {
				s.Fail("Running() is %d when Wait has returned", n)
			}
			lenIs("after Wait")
		}) {
			return
		}
		rest()
	}
	s.Within(minute, "Close", p.Close)
	if n := p.Running(); n != 0 {
		s.Fail("Running() is %d after Close", n)
	}
	lenIs("after Close")
	s.Obs("jobs", int(begun.Load()))
	s.Obs("rejected", int(failed.Load()))
}

func genP04(r *rand.Rand, thorough bool) []mon.Case {
	cs := patienceCases(r)
	add := func(c p04) { cs = append(cs, mon.Case{Name: "running", Params: mon.P(c), Run: c.run}) }
	for _, k := range []kind{kLimited, kPooled} {
		for _, size := range []int{1, 2, 6, 20} {
			add(p04{k: k, size: size, subs: 3, per: 20, nbPct: 30, maxDur: 6, rounds: 4})
			add(p04{k: k, size: size, subs: 1, per: 4, nbPct: 0, maxDur: 0, rounds: 10})
			add(p04{k: k, size: size, subs: 2, per: 5, nbPct: 100, maxDur: 3, rounds: 6})
			add(p04{k: k, size: size, subs: 3, per: 10, nbPct: 30, maxDur: 3, rounds: 4, exitPct: 20})
		}
		add(p04{k: k, size: 3, subs: 1, per: 1, nbPct: 50, maxDur: 0, rounds: 40})
		add(p04{k: k, size: 8, subs: 8, per: 60, nbPct: 20, maxDur: 4, rounds: 2})
		for _, c := range []p04{
			{k: k, size: 5, subs: 3, per: 1100, nbPct: 100, maxDur: 1, rounds: 2, holdPct: 95},
			{k: k, size: 2200, subs: 2, per: 1000, maxDur: 1, rounds: 2, holdPct: 90},
		} {
			cs = append(cs, mon.Case{Name: "many running", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	n := 8
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		add(p04{k: kind(r.IntN(2)), size: 1 + r.IntN(10), subs: 1 + r.IntN(6), per: 1 + r.IntN(30), nbPct: r.IntN(100), maxDur: r.IntN(8), rounds: 1 + r.IntN(6)})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"P01": {Gen: genP01, Twins: 16, Reps: 24, MinEvents: 1000, Rule: "a case is a pool kind, size and mix of submitters, options, nested, rejected and cancelled submissions and rounds; an execution is non-trivial if jobs ran, distinct by parameters and order of library steps"},
		"P02": {Gen: genP02, Twins: 16, Reps: 48, MinEvents: 1000, Rule: "a case is a pool kind and size, a history of jobs and a capacity measurement with waiting submitters; distinct by parameters and order of library steps"},
		"P03": {Gen: genP03, Twins: 16, Reps: 60, MinEvents: 500, Rule: "a case is a pool kind and size, an occupation of it and a set of non-blocking submissions from outside or inside; distinct by parameters and order of library steps"},
		"P04": {Gen: genP04, Twins: 16, Reps: 36, MinEvents: 1000, Rule: "a case is a pool kind and size and a mix of jobs during which Running and Len are sampled; distinct by parameters and order of library steps"},
	})
}
