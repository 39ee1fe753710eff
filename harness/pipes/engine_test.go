package pipes

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"regexp"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"

	"verifharness/kit"
	"verifharness/mon"
	"verifharness/tracer"
)

// step of a request's plan.
type planStep struct {
	stage  int
	dur    int // of the stage, see kit.Work
	long   time.Duration
	ppDur  int  // of the first preprocessor
	err    bool // the stage sets Err
	ppErr  int  // the preprocessor that sets Err + 1
	cancel bool // the stage cancels the context of the request
	gate   bool // the stage waits for the engine's gate
	loud   bool // the stage sets Next as well as Err
	wrap   bool // the stage puts a value into the context
	own    int  // what the stage cancels is its own context, which it puts in the place of the request's (2: by a deadline)
}

// rec is what the monitor knows about a request.
type rec struct {
	id, group, item int
	// eng is the engine that runs it, for stages that are not methods.
	eng      *engine
	plan     []planStep
	preErr   error
	stageErr error
	stale    stage

	mu        sync.Mutex
	stages    []int
	pps       int
	inside    int
	acc       uint64
	wrapped   int   // the value that stages have put into the context
	stopped   bool  // nothing may run any more
	done      bool  // the last stage has run
	cancelled int64 // virtual time at which its context is done, -1 not
	ctx       context.Context
	cancel    context.CancelFunc
	delivered int
	submitted bool // Submit has returned nil
	rejected  error
	call, ret int64 // logical times of Submit
	begin     int64 // virtual time of Submit
	taken     int64 // virtual time at which its first preprocessor or stage ran
	end       int64 // virtual time at which its last one ended
	out       int   // position in the group's output

	// Of traced requests.
	root, span *tracer.Span
	stageSpans []*tracer.Span
}

// cfg configures a run of the engine.
type cfg struct {
	sm, num          int
	dag, ordered     bool
	delay            int // µs, 0 none
	pps              int
	ppSplit          bool // one option per preprocessor
	groups, subs     int
	reqs             int  // per submitter
	route            int  // maximal length after Start
	tail             bool // routes are that long and half of them repeat one stage at the end
	repeat           bool
	maxDur, readDur  int
	gap              int
	errPct, ppErrPct int
	preErrPct        int
	stalePct         int
	cancelPct        int // contexts cancelled at some time after the submission
	cancelAt         int // within that many µs
	stageCancelPct   int
	preCancelPct     int
	nilPct           int
	churn            int // successive groups per group worker
	chain            bool
	chainFlip        bool // exactly one of the two Pipelines is ordered
	chainDrop        int  // percentage of the requests that are not passed on
	feedback         int  // percentage of the delivered requests that are submitted to another group of the same Pipelines
	stay             bool // a group that is opened first and closed last
	long             int  // minutes that stages may last in addition
	closeFirst       bool // Pipelines.Close before the groups are closed
	lateRead         bool // reading starts when submission has ended
	reuse            bool // the options were used for other Pipelines before
	probe            bool // measure the capacity at the end
	sharedCtx        bool // requests of a group share one context that is cancelled at some time
	shared           int
	trace            int // percentage of traced requests
	over             *sharedSM
	objs             int // objects in CountSubStages whose stages are not used, up to 2
}

type engine struct {
	s    *mon.S
	prop string
	c    cfg
	m    machine
	k    int // stages that count
	p    *stagedpipe.Pipelines[D]

	start    time.Time
	clock    atomic.Int64
	ids      atomic.Int64
	inStages atomic.Int64
	peak     atomic.Int64
	closed   atomic.Int64
	closing  atomic.Bool
	gate     chan struct{}

	mu        sync.Mutex
	recs      []*rec
	delivered atomic.Int64
	accepted  atomic.Int64
	events    atomic.Int64
	next      *engine // of a chain
	tr        *tracer.Provider
}

func (e *engine) fail(prop, format string, a ...any) {
	if prop == e.prop || e.prop == "T01" || e.prop == "X02" {
		e.s.Fail(format, a...)
	} else {
		e.s.Obs("deviations that other properties are about", 1)
	}
}

func (e *engine) now() int64 { return int64(time.Since(e.start)) }

func mix(acc uint64, v int) uint64 { return (acc ^ uint64(v+17)) * 0x9e3779b97f4a7c15 }

func (e *engine) smClose() {
	if e.closed.Add(1) > 1 {
		e.fail("G06", "the state machine's Close was called %d times", e.closed.Load())
	}
	if n := e.inStages.Load(); n != 0 {
		e.fail("G06", "the state machine's Close was called while %d stage calls were running", n)
	}
}

// expectPos is called with r.mu held.
func (e *engine) mayRun(r *rec, q *req, what string) {
	if e.closed.Load() != 0 {
		e.fail("G06", "%s runs after the state machine's Close", what)
	}
	if r.rejected != nil {
		e.fail("G01", "%s of request %d runs although its Submit returned %v", what, r.id, r.rejected)
	}
	if r.inside != 0 {
		e.fail("G02", "%s of request %d starts while another is running for it", what, r.id)
	}
	if r.delivered > 0 {
		e.fail("G01", "%s of request %d runs after its delivery", what, r.id)
	}
	if r.stopped {
		if e.c.dag && e.stoppedCyclic(r) {
			e.fail("G04", "%s of request %d runs although %v are repeated (plan %v)", what, r.id, r.stages, route(r))
		} else {
			e.fail("G02", "%s of request %d runs after an error", what, r.id)
		}
	}
	if c := r.cancelled; c >= 0 && e.now() > c {
		e.fail("G05", "%s of request %d starts %v after its context was done", what, r.id, time.Duration(e.now()-c))
	}
	if q.Err != nil {
		e.fail("G02", "%s of request %d sees the error %v", what, r.id, q.Err)
	}
	if q.Ctx == nil || q.Ctx.Value(kit.Key{}) != r {
		e.fail("G01", "%s of request %d has the context of another request", what, r.id)
	}
	if q.Data.Acc != r.acc || q.Data.N != len(r.stages) || q.Data.PP != r.pps {
		e.fail("G02", "%s of request %d does not see the data left by the previous one", what, r.id)
	}
	if q.Ctx != nil && wrapOf(q.Ctx) != r.wrapped {
		e.fail("G02", "%s of request %d has a context with the value %d, the stages before it left %d", what, r.id, wrapOf(q.Ctx), r.wrapped)
	}
	if q.Ctx != nil && q.Ctx.Err() != nil && r.ctx.Err() == nil {
		e.fail("G05", "%s of request %d has a context that is done, the submitted one is not", what, r.id)
	}
	for _, p := range q.Data.Pad {
		if p != uint64(q.Data.ID) {
			e.fail("G02", "data of request %d is damaged", r.id)
		}
	}
	if r.taken < 0 {
		r.taken = e.now()
	}
	e.events.Add(1)
}

type wrapKey struct{}

func wrapOf(ctx context.Context) int {
	n, _ := ctx.Value(wrapKey{}).(int)
	return n
}

func route(r *rec) (l []int) {
	for _, p := range r.plan {
		l = append(l, p.stage)
	}
	return l
}

// stoppedCyclic reports whether what the request would run next is a repetition.
func (e *engine) stoppedCyclic(r *rec) bool {
	if len(r.stages) >= len(r.plan) {
		return false
	}
	for _, st := range r.stages {
		if st == r.plan[len(r.stages)].stage {
			return true
		}
	}
	return false
}

// pp is preprocessor i.
func (e *engine) pp(i int) stagedpipe.PreProcesor[D] {
	return func(q req) req {
		r := q.Data.Rec
		r.mu.Lock()
		e.mayRun(r, &q, fmt.Sprintf("preprocessor %d", i))
		k := len(r.stages)
		want := k*e.c.pps + i
		if r.pps != want {
			e.fail("G02", "preprocessor %d of request %d runs after %d preprocessor and %d stage calls", i, r.id, r.pps, k)
		}
		if k >= len(r.plan) {
			e.fail("G02", "preprocessor %d of request %d runs although no next stage was chosen", i, r.id)
			r.mu.Unlock()
			return q
		}
		r.pps++
		q.Data.PP++
		st := r.plan[k]
		r.inside++
		r.mu.Unlock()
		if i == 0 || i == e.c.pps-1 {
			kit.Work(st.ppDur)
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.inside--
		r.end = e.now()
		r.acc = mix(r.acc, 100+i)
		q.Data.Acc = mix(q.Data.Acc, 100+i)
		if st.ppErr == i+1 {
			r.stopped = true
			q.Err = r.stageErr
		}
		return q
	}
}

// step is stage i.
func (e *engine) step(i int, q req) req {
	r := q.Data.Rec
	n := e.inStages.Add(1)
	defer e.inStages.Add(-1)
	kit.Max(&e.peak, n)
	if max := int64(e.c.num * e.k); n > max {
		e.fail("G07", "%d requests are in their stages, at most %d x %d allowed", n, e.c.num, e.k)
	}
	r.mu.Lock()
	e.mayRun(r, &q, fmt.Sprintf("stage %d", i))
	k := len(r.stages)
	if k >= len(r.plan) {
		e.fail("G02", "stage %d of request %d runs after %v, and no next stage was chosen (plan %v)", i, r.id, r.stages, route(r))
		r.mu.Unlock()
		q.Next = nil
		return q
	}
	st := r.plan[k]
	if st.stage != i {
		e.fail("G02", "request %d runs stage %d after %v, its plan is %v", r.id, i, r.stages, route(r))
	}
	if r.pps != (k+1)*e.c.pps {
		e.fail("G02", "stage %d of request %d runs after %d preprocessor calls, want %d", i, r.id, r.pps, (k+1)*e.c.pps)
	}
	if e.c.dag {
		for _, x := range r.stages {
			if x == i {
				e.fail("G04", "stage %d of request %d runs again with the DAG option, after %v", i, r.id, r.stages)
			}
		}
	}
	r.stages = append(r.stages, i)
	r.inside++
	e.traceStage(r, &q)
	r.mu.Unlock()
	kit.Work(st.dur)
	if st.long > 0 {
		time.Sleep(st.long)
	}
	if st.gate {
		<-e.gate
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.inside--
	if r.root != nil && len(r.stageSpans) > 0 {
		if sp := r.stageSpans[len(r.stageSpans)-1]; sp.Ends() > 0 || r.span.Ends() > 0 {
			e.fail("T01", "stage %d of request %d is running and its %v or the %v of the request is ended", i, r.id, sp, r.span)
		}
	}
	r.end = e.now()
	r.acc = mix(r.acc, i)
	q.Data.Acc = mix(q.Data.Acc, i)
	q.Data.N++
	if st.cancel && r.cancel != nil {
		r.cancelled = e.now()
		switch st.own {
		case 0:
			r.cancel()
		case 1:
			ctx, cancel := context.WithCancel(q.Ctx)
			cancel()
			q.Ctx, r.ctx = ctx, ctx
		case 2:
			ctx, cancel := context.WithDeadline(q.Ctx, time.Now().Add(-time.Second))
			defer cancel()
			q.Ctx, r.ctx = ctx, ctx
		}
		// Whatever starts at a later virtual time is too late; that it starts at all is too.
		r.cancelled = e.now() - 1
	}
	if st.wrap {
		r.wrapped = r.id*100 + k + 1
		q.Ctx = context.WithValue(q.Ctx, wrapKey{}, r.wrapped)
	}
	last := k+1 >= len(r.plan)
	if last {
		r.done = true
	}
	if st.err {
		q.Err = r.stageErr
		r.stopped, r.done = true, true
	}
	if !last && (!st.err || st.loud) {
		nx := r.plan[k+1].stage
		if a, ok := e.m.(interface{ at2(int) stage }); ok && (r.id+k)%2 == 0 {
			q.Next = a.at2(nx)
		} else {
			q.Next = e.m.at(nx)
		}
	}
	if !r.stopped && e.c.dag && e.stoppedCyclic(r) {
		r.stopped = true // the next one is a repetition
	}
	return q
}

// newEngine makes the Pipelines of c.
func newEngine(s *mon.S, prop string, c cfg) *engine {
	e := &engine{s: s, prop: prop, c: c, start: time.Now(), gate: make(chan struct{})}
	if c.trace > 0 {
		e.tr = newProvider(s)
	}
	e.m, e.k = newMachine(c.sm, e)
	if c.over != nil {
		e.m, e.k = c.over, c.over.n()
	}
	var o []stagedpipe.Option[D]
	var pps []stagedpipe.PreProcesor[D]
	for i := 0; i < c.pps; i++ {
		pps = append(pps, e.pp(i))
		if c.ppSplit {
			o = append(o, stagedpipe.PreProcessors(e.pp(i)))
		}
	}
	if !c.ppSplit && c.pps > 0 {
		o = append(o, stagedpipe.PreProcessors(pps...))
	}
	o = append(o, e.m.options()...)
	if c.objs > 0 {
		o = append(o, stagedpipe.CountSubStages[D](unusedA{}))
		e.k++
	}
	if c.objs > 1 {
		o = append(o, stagedpipe.CountSubStages[D](&unusedB{}))
		e.k += 2
	}
	if c.dag {
		o = append(o, stagedpipe.DAG[D]())
	}
	if c.ordered {
		o = append(o, stagedpipe.Ordered[D]())
	}
	if c.delay > 0 {
		o = append(o, stagedpipe.DelayWarning[D](time.Duration(c.delay)*time.Microsecond))
	}
	s.R.Shuffle(len(o), func(i, j int) {
		if !c.ppSplit {
			o[i], o[j] = o[j], o[i]
		}
	})
	if c.reuse {
		// The options were already used for other Pipelines.
		for i := 0; i < 2; i++ {
			q, err := stagedpipe.New("other", 1+i, stagedpipe.StateMachine[D](decoySM{}), o...)
			if err != nil {
				s.Fail("New: %v", err)
				return e
			}
			q.Close()
		}
	}
	var err error
	e.p, err = stagedpipe.New("verif", c.num, stagedpipe.StateMachine[D](e.m), o...)
	if err != nil {
		s.Fail("New: %v", err)
	}
	// The slices belong to the caller.
	clear(o)
	for i := range pps {
		pps[i] = func(r stagedpipe.Request[D]) stagedpipe.Request[D] {
			s.Fail("a preprocessor that was put into the caller's slice after New was called")
			return r
		}
	}
	return e
}

// decoySM has one stage, which is not used.
type decoySM struct{}

func (decoySM) Close()                                              {}
func (decoySM) Start(r stagedpipe.Request[D]) stagedpipe.Request[D] { return r }

// newRec plans a request.
func (e *engine) newRec(r *rand.Rand, group int) *rec {
	c := e.c
	x := &rec{id: int(e.ids.Add(1)), group: group, cancelled: -1, taken: -1, end: -1, out: -1}
	x.stageErr = kit.MkErr(x.id, r.IntN(kit.Styles)).Err
	n := e.m.n()
	length := 1 + r.IntN(c.route+1)
	if c.tail {
		length = 1 + c.route - r.IntN(min(4, c.route+1))
	}
	var perm []int
	for _, v := range r.Perm(n) {
		if v != 0 {
			perm = append(perm, v)
		}
	}
	for i := 0; i < length; i++ {
		p := planStep{dur: r.IntN(c.maxDur + 1), ppDur: r.IntN(c.maxDur/2 + 1)}
		if i > 0 {
			switch {
			case c.repeat && r.IntN(2) == 0 || i > len(perm):
				if !c.repeat {
					length = i
				}
				p.stage = r.IntN(n)
			default:
				p.stage = perm[i-1]
			}
		}
		if i >= length {
			break
		}
		if r.IntN(100) < c.errPct {
			p.err = true
			p.loud = r.IntN(2) == 0
		}
		if c.pps > 0 && r.IntN(100) < c.ppErrPct {
			p.ppErr = 1 + r.IntN(c.pps)
		}
		p.cancel = r.IntN(100) < c.stageCancelPct
		p.wrap = r.IntN(6) == 0
		p.own = max(0, r.IntN(5)-2)
		if c.long > 0 {
			p.long = time.Duration(r.Int64N(int64(c.long) * int64(time.Minute)))
		}
		x.plan = append(x.plan, p)
	}
	if c.tail && r.IntN(2) == 0 {
		again := 0
		if r.IntN(2) == 0 {
			again = r.IntN(len(x.plan))
		}
		x.plan = append(x.plan, planStep{stage: x.plan[again].stage})
	}
	if r.IntN(100) < c.preErrPct {
		x.preErr = x.stageErr
		x.stopped = true
	}
	if r.IntN(100) < c.stalePct {
		x.stale = e.m.at(r.IntN(n))
	}
	e.mu.Lock()
	e.recs = append(e.recs, x)
	e.mu.Unlock()
	return x
}

// outcome checks how a request came out.
func (e *engine) outcome(r *rec, q *req) {
	ctxErr := r.ctx.Err()
	if r.preErr != nil {
		if !kit.Same(q.Err, r.preErr) && (ctxErr == nil || !kit.Same(q.Err, ctxErr)) {
			e.fail("G02", "request %d was submitted with the error %v and came out with %v", r.id, r.preErr, q.Err)
			e.fail("G01", "request %d was submitted with the error %v and came out with %v", r.id, r.preErr, q.Err)
		}
		return
	}
	// What should have happened without cancellation.
	full := 0 // stages
	var want error
	cyclic := false
loop:
	for i, p := range r.plan {
		if e.c.dag {
			for _, b := range r.plan[:i] {
				if b.stage == p.stage {
					cyclic = true
					break loop
				}
			}
		}
		if p.ppErr > 0 {
			want = r.stageErr
			break
		}
		full++
		if p.err {
			want = r.stageErr
			break
		}
	}
	ran := r.stages
	isCyc := stagedpipe.IsErrCyclic(q.Err)
	if ctxErr != nil && kit.Same(q.Err, ctxErr) {
		// Stopped by its context: a prefix has run.
		if len(ran) == len(r.plan) && !r.plan[len(r.plan)-1].err {
			e.fail("G05", "request %d had finished all its stages and came out with %v", r.id, q.Err)
		}
		return
	}
	e.events.Add(1)
	if ctxErr == nil && q.Err != nil && (q.Err == context.Canceled || q.Err == context.DeadlineExceeded) {
		e.fail("G05", "request %d came out with %v, its context is not done", r.id, q.Err)
	}
	if e.c.dag && isCyc != cyclic {
		e.fail("G04", "request %d with the plan %v ran %v and came out with the error %v", r.id, route(r), ran, q.Err)
		return
	}
	if !e.c.dag && isCyc {
		e.fail("G04", "request %d came out with the cyclic error %v without the DAG option", r.id, q.Err)
		return
	}
	if len(ran) != full {
		if cyclic {
			e.fail("G04", "request %d with the plan %v ran %v and came out with the error %v", r.id, route(r), ran, q.Err)
		}
		if c := r.cancelled; c >= 0 && ctxErr != nil {
			e.fail("G05", "request %d was cancelled, ran %v of %v and came out with the error %v", r.id, ran, route(r), q.Err)
		} else {
			e.fail("G02", "request %d ran %v of %v and came out with the error %v", r.id, ran, route(r), q.Err)
		}
	}
	if !isCyc && !kit.Same(q.Err, want) {
		e.fail("G02", "request %d came out with the error %v, want %v", r.id, q.Err, want)
		e.fail("G01", "request %d came out with the error %v, want %v", r.id, q.Err, want)
	}
}

// receive is called for every value on the output of group g, the pos-th.
func (e *engine) receive(g *group, q req, pos int) {
	r := q.Data.Rec
	if r == nil {
		e.fail("G01", "a request came out that nobody submitted")
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.delivered++
	r.out = pos
	if r.delivered > 1 {
		e.fail("G01", "request %d was delivered %d times", r.id, r.delivered)
	}
	if r.group != g.id {
		e.fail("G01", "request %d of group %d came out of group %d", r.id, r.group, g.id)
		e.fail("G09", "request %d of group %d came out of group %d", r.id, r.group, g.id)
	}
	if r.inside != 0 {
		e.fail("G01", "request %d came out while a stage was running for it", r.id)
	}
	if q.Data.ID != r.id || q.Data.Acc != r.acc || q.Data.N != len(r.stages) || q.Data.PP != r.pps {
		e.fail("G01", "request %d does not carry the data its stages left", r.id)
	}
	if r.rejected != nil {
		e.fail("G01", "request %d came out although its Submit returned %v", r.id, r.rejected)
	}
	switch {
	case q.Ctx == nil || q.Ctx.Value(kit.Key{}) != r:
		e.fail("G01", "request %d came out without the context it was submitted with", r.id)
	case wrapOf(q.Ctx) != r.wrapped:
		e.fail("G01", "request %d came out with the value %d in its context, its stages left %d", r.id, wrapOf(q.Ctx), r.wrapped)
	default:
		done := q.Ctx.Err()
		if done != nil && r.ctx.Err() == nil {
			e.fail("G05", "request %d came out with a context that is done, the submitted one is not", r.id)
		}
		if r.ctx.Err() != nil && q.Ctx.Err() == nil {
			e.fail("G05", "request %d came out with a context that is not done, the submitted one is", r.id)
		}
	}
	e.outcome(r, &q)
	e.traceOut(r, &q)
	e.events.Add(1)
	if q.Ctx == nil {
		return
	}
	if diff := kit.OtherCtx(q.Ctx, r.ctx); diff != "" {
		e.fail("G01", "request %d came out with a context that %s", r.id, diff)
	}
	if r.cancel != nil && g.sink == nil && r.id%2 == 0 {
		// What came out is still the context of its submitter.
		r.cancel()
		if !mon.Recv(q.Ctx.Done(), time.Minute) {
			e.fail("G01", "request %d came out with a context that does not end with the submitted one", r.id)
		}
		e.s.Obs("contexts that ended after the delivery", 1)
	}
}

// group is a RequestGroup and its users.
type group struct {
	e       *engine
	id      int
	g       *stagedpipe.RequestGroup[D]
	recs    []*rec // by submitter, in the order of submission
	mu      sync.Mutex
	outs    []*rec
	outDone chan struct{}
	sink    func(req)
}

// submit submits r. ctx of r is set.
func (g *group) submit(r *rec, nilCtx bool) error {
	e := g.e
	q := req{Ctx: r.ctx, Err: r.preErr, Next: r.stale, Data: D{ID: r.id, Rec: r}}
	for i := range q.Data.Pad {
		q.Data.Pad[i] = uint64(r.id)
	}
	if nilCtx {
		q.Ctx = nil
	}
	return g.submitReq(e, r, q, nilCtx)
}

func (g *group) submitReq(e *engine, r *rec, q req, nilCtx bool) error {
	r.mu.Lock()
	r.eng = e
	r.begin = e.now()
	r.call = e.clock.Add(1)
	r.mu.Unlock()
	err := g.g.Submit(q)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ret = e.clock.Add(1)
	now := e.now()
	if nilCtx {
		if err == nil {
			e.fail("G05", "Submit of a request without context returned nil")
		}
		err = errors.Join(err, errors.New("nil context"))
	} else if err != nil {
		if r.ctx.Err() == nil {
			e.fail("G05", "Submit returned %v although the request's context is not done", err)
			e.fail("G01", "Submit returned %v although the request's context is not done", err)
		} else if !errors.Is(err, r.ctx.Err()) {
			e.fail("G05", "Submit returned %v, the context's error is %v", err, r.ctx.Err())
		}
	}
	if c := r.cancelled; c >= 0 && !nilCtx && now > max(c, r.begin)+int64(time.Millisecond) {
		e.fail("G05", "Submit returned %v after the request's context was done", time.Duration(now-max(c, r.begin)))
	}
	if err != nil {
		r.rejected = err
		r.stopped = true
		e.traceRejected(r)
		if len(r.stages) > 0 || r.pps > 0 {
			e.fail("G01", "request %d was processed although its Submit returned %v", r.id, err)
		}
		if r.delivered > 0 {
			e.fail("G01", "request %d was delivered although its Submit returned %v", r.id, err)
		}
		return err
	}
	r.submitted = true
	e.accepted.Add(1)
	return nil
}

// context gives r its context.
func (e *engine) context(r *rec, rd *rand.Rand, parent context.Context) {
	ctx := context.WithValue(parent, kit.Key{}, r)
	if e.tr != nil && rd.IntN(100) < e.c.trace {
		ctx, r.root = e.tr.Root(ctx, fmt.Sprint("caller of ", r.id))
	}
	cause := errors.New("the cause")
	withCancel := func() {
		if rd.IntN(3) == 0 {
			c, cancel := context.WithCancelCause(ctx)
			r.ctx, r.cancel = c, func() { cancel(cause) }
			return
		}
		r.ctx, r.cancel = context.WithCancel(ctx)
	}
	switch {
	case rd.IntN(100) < e.c.preCancelPct:
		switch rd.IntN(4) {
		case 0:
			r.ctx, r.cancel = context.WithDeadline(ctx, e.start.Add(-time.Hour))
		default:
			withCancel()
			r.cancel()
		}
		r.cancelled = e.now()
	case rd.IntN(100) < e.c.cancelPct:
		d := time.Duration(rd.IntN(e.c.cancelAt+1)) * time.Microsecond
		r.cancelled = e.now() + int64(d)
		switch rd.IntN(4) {
		case 0:
			r.ctx, r.cancel = context.WithTimeout(ctx, d)
		case 1:
			r.ctx, r.cancel = context.WithTimeoutCause(ctx, d, cause)
		default:
			withCancel()
			time.AfterFunc(d, r.cancel)
		}
	case e.c.stageCancelPct > 0:
		withCancel()
	default:
		r.ctx = ctx
		switch rd.IntN(12) {
		case 0:
			r.ctx, r.cancel = context.WithTimeout(ctx, 1e5*time.Hour)
		case 1:
			withCancel()
		}
	}
	if rd.IntN(6) == 0 {
		r.ctx = otherCtx{r.ctx}
	}
}

// otherCtx is a context type of the caller's own.
type otherCtx struct{ context.Context }

func (e *engine) newGroup(id int) *group {
	g := &group{e: e, id: id, outDone: make(chan struct{})}
	g.g = e.p.NewRequestGroup()
	if id%2 == 0 {
		g.g.Name = fmt.Sprint("group", id)
	}
	return g
}

// read drains the group.
func (g *group) read(seed uint64) {
	e := g.e
	r := rand.New(rand.NewPCG(seed, 2))
	pos := 0
	for q := range g.g.Out() {
		x := q.Data.Rec
		e.receive(g, q, pos)
		pos++
		e.delivered.Add(1)
		g.mu.Lock()
		g.outs = append(g.outs, x)
		g.mu.Unlock()
		if g.sink != nil {
			g.sink(q)
		}
		if e.c.readDur > 0 {
			kit.Work(r.IntN(e.c.readDur + 1))
		}
	}
	close(g.outDone)
}

// finish is called when the group's Close has returned and its Out is closed.
func (g *group) finish() {
	e := g.e
	g.mu.Lock()
	defer g.mu.Unlock()
	acc := 0
	for _, r := range g.recs {
		r.mu.Lock()
		switch {
		case r.submitted && r.delivered != 1:
			for _, p := range []string{"G01", "G06", "G03", "G09", "G05"} {
				e.fail(p, "request %d was accepted and delivered %d times before the output of its group was closed", r.id, r.delivered)
			}
		case !r.submitted && r.delivered != 0:
			e.fail("G01", "request %d was not accepted and was delivered", r.id)
		}
		if r.submitted {
			acc++
		}
		r.mu.Unlock()
	}
	e.traceGroup(g)
	if len(g.outs) != acc {
		e.fail("G01", "%d requests were accepted and %d came out", acc, len(g.outs))
	}
	if e.c.ordered {
		maxCall, which := int64(-1), -1
		for _, r := range g.outs {
			if r == nil {
				continue
			}
			if r.ret < maxCall {
				e.fail("G03", "request %d came out after request %d, which was submitted later (%d submitted)", r.id, which, acc)
				break
			}
			if r.call > maxCall {
				maxCall, which = r.call, r.id
			}
		}
	}
	e.events.Add(int64(acc))
	e.s.Obs("requests", acc)
	e.s.Obs("rejected submissions", len(g.recs)-acc)
}

// work runs one group from creation to the end.
func (e *engine) work(id int, seed uint64, closing func()) {
	c := e.c
	rd := rand.New(rand.NewPCG(seed, 5))
	g := e.newGroup(id)
	nx := e.next
	if c.feedback > 0 {
		nx = e
	}
	if nx != nil {
		gid := id
		if c.feedback > 0 {
			gid += 1 << 16
		}
		ng := nx.newGroup(gid)
		nextDone := make(chan struct{})
		seed2 := rd.Uint64()
		go ng.read(seed2)
		r2 := rand.New(rand.NewPCG(seed2, 8))
		var passing sync.WaitGroup
		g.sink = func(q req) {
			// Passed on as it came out.
			x := q.Data.Rec
			if c.feedback > 0 && r2.IntN(100) >= c.feedback || r2.IntN(100) < c.chainDrop {
				return
			}
			n := nx.newRec(r2, gid)
			n.ctx = context.WithValue(x.ctx, kit.Key{}, n)
			if x.root != nil {
				n.ctx, n.root = nx.tr.Root(context.WithValue(q.Ctx, kit.Key{}, n), fmt.Sprint("caller of ", n.id))
			}
			n.wrapped = wrapOf(n.ctx)
			x.mu.Lock()
			n.cancelled = x.cancelled
			x.mu.Unlock()
			n.preErr = q.Err
			n.stopped = q.Err != nil
			q.Ctx = n.ctx
			q.Data = D{ID: n.id, Rec: n}
			for i := range q.Data.Pad {
				q.Data.Pad[i] = uint64(n.id)
			}
			ng.mu.Lock()
			ng.recs = append(ng.recs, n)
			ng.mu.Unlock()
			if c.feedback > 0 {
				// The reader must not wait for the Pipelines it reads from.
				passing.Add(1)
				go func() {
					defer passing.Done()
					ng.submitReq(nx, n, q, false)
				}()
				return
			}
			ng.submitReq(nx, n, q, false)
		}
		defer func() {
			go func() {
				passing.Wait()
				ng.g.Close()
				<-ng.outDone
				close(nextDone)
			}()
			<-nextDone
			ng.finish()
		}()
	}
	parent := context.Background()
	sharedAt := int64(-1)
	if c.sharedCtx && id%2 == 0 {
		d := time.Duration(rd.IntN(c.cancelAt+1)) * time.Microsecond
		p, cancel := context.WithTimeout(parent, d)
		defer cancel()
		parent, sharedAt = p, e.now()+int64(d)
	}
	readSeed := rd.Uint64()
	if !c.lateRead {
		go g.read(readSeed)
	}
	var wg sync.WaitGroup
	for k := 0; k < c.subs; k++ {
		r := rand.New(rand.NewPCG(rd.Uint64(), 6))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.reqs; i++ {
				kit.Work(r.IntN(c.gap + 1))
				x := e.newRec(r, id)
				e.context(x, r, parent)
				if sharedAt >= 0 && (x.cancelled < 0 || x.cancelled > sharedAt) {
					x.cancelled = sharedAt
				}
				g.mu.Lock()
				g.recs = append(g.recs, x)
				g.mu.Unlock()
				g.submit(x, r.IntN(100) < c.nilPct)
			}
		}()
	}
	if c.lateRead {
		// Everything is stuck until the output is read.
		time.Sleep(5 * time.Millisecond)
		go g.read(readSeed)
	}
	wg.Wait()
	if closing != nil {
		closing()
	}
	g.g.Close()
	g.mu.Lock()
	recs := append([]*rec(nil), g.recs...)
	g.mu.Unlock()
	for _, r := range recs {
		r.mu.Lock()
		if r.inside != 0 {
			e.fail("G06", "the group's Close returned while a stage was running for request %d", r.id)
		}
		if r.submitted && r.ctx.Err() == nil && !r.done && !r.stopped {
			e.fail("G06", "the group's Close returned before request %d was processed (ran %v of %v)", r.id, r.stages, route(r))
		}
		r.mu.Unlock()
	}
	<-g.outDone
	g.finish()
}

// run is the whole life of the Pipelines.
func (e *engine) run() bool {
	c := e.c
	if !e.s.Within(10*time.Hour, "use of the Pipelines: requests are stuck, or a Close or Out", e.use()) {
		return false
	}
	e.s.Settle()
	if c.probe && !c.closeFirst {
		e.capacity(3)
	}
	if c.closeFirst {
		e.afterClose()
	} else {
		e.close()
	}
	e.s.Event(int(e.events.Load()))
	e.s.ObsMax("max requests in stages", int(e.peak.Load()))
	return true
}

// use starts the use of the Pipelines by all groups and returns what waits for its end.
func (e *engine) use() func() {
	c := e.c
	var wg, submitted sync.WaitGroup
	closing := func() {}
	if c.closeFirst {
		submitted.Add(c.groups)
		allIn := make(chan struct{})
		closing = func() {
			submitted.Done()
			<-allIn
		}
		go func() {
			submitted.Wait()
			e.p.Close()
			close(allIn)
		}()
	}
	staying := func() {}
	if c.stay {
		g := e.newGroup(1 << 21)
		go g.read(1)
		r := rand.New(rand.NewPCG(e.s.R.Uint64(), 9))
		one := func() {
			x := e.newRec(r, g.id)
			x.ctx = context.WithValue(context.Background(), kit.Key{}, x)
			g.mu.Lock()
			g.recs = append(g.recs, x)
			g.mu.Unlock()
			g.submit(x, false)
		}
		one()
		staying = func() {
			one()
			g.g.Close()
			<-g.outDone
			g.finish()
		}
	}
	for w := 0; w < c.groups; w++ {
		seed := e.s.R.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < max(1, c.churn); k++ {
				e.work(w+k*c.groups, seed+uint64(k), closing)
			}
		}()
	}
	return func() { wg.Wait(); staying() }
}

var libGoroutine = regexp.MustCompile(`gostdlib/concurrency/(goroutines|prim|pipelines/stagedpipe)[./]`)

// close closes the Pipelines, whose groups are all closed.
func (e *engine) close() {
	if e.closed.Load() != 0 {
		e.fail("G06", "the state machine's Close was called before Pipelines.Close")
	}
	e.p.Close()
	e.afterClose()
}

func (e *engine) afterClose() {
	e.s.Settle()
	if e.closed.Load() != 1 {
		time.Sleep(time.Minute)
		if n := e.closed.Load(); n != 1 {
			e.fail("G06", "Pipelines.Close was called, all is processed, and the state machine's Close was called %d times", n)
		}
	}
	if e.prop == "G06" && e.s.Alone() {
		time.Sleep(2 * time.Millisecond)
		if e.next == nil || e.next.closed.Load() > 0 {
			if l := mon.Goroutines(libGoroutine); len(l) > 0 {
				e.fail("G06", "everything is closed and %d goroutines of the library are left, one is\n%s", len(l), l[0])
			}
		}
		e.events.Add(1)
	}
}

// capacity checks that exactly num x k requests can be in their stages at once.
// Nothing else is in flight.
func (e *engine) capacity(extra int) {
	p := e.fill(1<<20, extra)
	e.s.Settle()
	p.check()
	p.end()
}

// filled is a Pipelines whose places are all taken, until end.
type filled struct {
	e            *engine
	g            *group
	total, extra int
	wg           sync.WaitGroup
}

func (e *engine) fill(id, extra int) *filled {
	p := &filled{e: e, total: e.c.num * e.k, extra: extra}
	e.gate = make(chan struct{})
	e.peak.Store(0)
	p.g = e.newGroup(id)
	go p.g.read(1)
	for i := 0; i < p.total+extra; i++ {
		x := &rec{id: int(e.ids.Add(1)), group: p.g.id, cancelled: -1, taken: -1, end: -1, plan: []planStep{{gate: true}}}
		x.ctx = context.WithValue(context.Background(), kit.Key{}, x)
		p.g.recs = append(p.g.recs, x)
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			p.g.submit(x, false)
		}()
	}
	return p
}

// check is called when everything is blocked.
func (p *filled) check() {
	e := p.e
	n := int(e.inStages.Load())
	if n != p.total {
		for _, prop := range []string{"G07", "G05"} {
			e.fail(prop, "%d requests are in their stages while %d more wait, %d x %d are possible", n, p.total+p.extra-n, e.c.num, e.k)
		}
	}
	e.s.Obs("capacity probes", 1)
	e.s.ObsMax("max capacity measured", n)
	e.events.Add(1)
}

func (p *filled) end() bool {
	e := p.e
	close(e.gate)
	if !e.s.Within(time.Hour, "capacity probe", func() {
		p.wg.Wait()
		p.g.g.Close()
		<-p.g.outDone
	}) {
		return false
	}
	p.g.finish()
	return true
}
