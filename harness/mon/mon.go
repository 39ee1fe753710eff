// Package mon runs the monitored scenarios of one property: it sets the delay
// policy, keeps the observations, and turns failures into a result file.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/signal"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gostdlib/concurrency/zzv"
)

// Case is one parametrised scenario.
type Case struct {
	Name   string
	Params string
	Run    func(s *S)
	// Reps is how often it is executed, each time under another policy (default Prop.Reps).
	Reps int
	// Early is set if the case takes much virtual time.
	Early bool
	// Calm is set if the case is so long that real delays are not for it.
	Calm bool
}

// Prop is the workload of a property.
type Prop struct {
	// NoBubble runs the cases in real time.
	NoBubble bool
	// OwnBubbles gives each execution its own bubble, so that the tickers it leaves behind
	// stop. Else all have one.
	OwnBubbles bool
	// Reps is the default number of executions per case, quick and thorough.
	Reps, ThoroughReps int
	// Gen makes the case list. r is seeded with VERIF_SEED only.
	Gen func(r *rand.Rand, thorough bool) []Case
	// Rule describes how cases are made and what is non-trivial.
	Rule string
	// MinEvents is the number of events a run must observe, else it is inconclusive.
	MinEvents int64
	// Twins is the number of cases that are two or three of the list at the same time.
	Twins int
	// StepLimit is the number of instrumented steps after which one execution counts as livelocked.
	StepLimit int64
}

// S is one execution of a case.
type S struct {
	Case   *Case
	R      *rand.Rand
	T      *testing.T
	Rep    int
	Bubble bool
	mu     sync.Mutex
	fails  []string
	known  []string
	events atomic.Int64
	obs    map[string]int64
	stop   atomic.Bool

	// parent and settle are set if other cases run at the same time.
	parent *S
	settle chan struct{}
}

// Alone reports whether no other case runs at the same time.
func (s *S) Alone() bool { return s.parent == nil }

// Fail records a violation.
func (s *S) Fail(format string, a ...any) {
	s.stop.Store(true)
	if s.parent != nil {
		s.parent.Fail("%s {%s}: %s", s.Case.Name, s.Case.Params, fmt.Sprintf(format, a...))
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.fails) < 8 {
		s.fails = append(s.fails, fmt.Sprintf(format, a...))
	}
}

// Known records that a listed finding showed.
func (s *S) Known(id string) {
	if s.parent != nil {
		s.parent.Known(id)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.known = append(s.known, id)
}

// Failed reports whether the execution has failed.
func (s *S) Failed() bool { return s.stop.Load() || s.parent != nil && s.parent.Failed() }

// Event counts observed events the oracle looked at.
func (s *S) Event(n int) {
	if s.parent != nil {
		s.parent.Event(n)
		return
	}
	s.events.Add(int64(n))
}

// Obs counts something worth reporting.
func (s *S) Obs(key string, n int) {
	if s.parent != nil {
		s.parent.Obs(key, n)
		return
	}
	s.mu.Lock()
	s.obs[key] += int64(n)
	s.mu.Unlock()
}

// ObsMax keeps a maximum.
func (s *S) ObsMax(key string, n int) {
	if s.parent != nil {
		s.parent.ObsMax(key, n)
		return
	}
	s.mu.Lock()
	if s.obs[key] < int64(n) {
		s.obs[key] = int64(n)
	}
	s.mu.Unlock()
}

// Within runs f in its own goroutine and fails if it has not returned after d.
// In a bubble d is virtual, so that a failure means that everything is blocked
// (or polling) although nothing in the scenario takes that long.
func (s *S) Within(d time.Duration, what string, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	if !s.Bubble {
		<-done
		return true
	}
	select {
	case <-done:
		return true
	case <-time.After(d):
		s.Fail("%s: not finished after %v of virtual time, everything is blocked\n%s", what, d, Blocked())
		return false
	}
}

// Recv waits for ch (closed or sent) for the virtual time d.
func Recv[T any](ch <-chan T, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// Settle returns when every other goroutine of the bubble is durably blocked.
func (s *S) Settle() {
	if s.settle != nil {
		// Only one goroutine of a bubble may wait.
		s.settle <- struct{}{}
		defer func() { <-s.settle }()
	}
	synctest.Wait()
}

// twins makes n cases that are two or three of cs at the same time.
func twins(cs []Case, r *rand.Rand, n int) []Case {
	var from []Case
	for _, c := range cs {
		if c.Reps == 0 && !c.Early {
			from = append(from, c)
		}
	}
	var out []Case
	for i := 0; i < n && len(from) > 0; i++ {
		var parts []Case
		for k := 2 + r.IntN(2); k > 0; k-- {
			parts = append(parts, from[r.IntN(len(from))])
		}
		if i%4 == 0 {
			parts[1] = parts[0]
		}
		c := Case{Name: "at the same time"}
		for k, p := range parts {
			c.Params += fmt.Sprintf(" %d: %s {%s}", k+1, p.Name, p.Params)
		}
		c.Run = func(s *S) {
			var wg sync.WaitGroup
			settle := make(chan struct{}, 1)
			for k := range parts {
				child := &S{Case: &parts[k], R: rand.New(rand.NewPCG(s.R.Uint64(), uint64(k))), T: s.T, Rep: s.Rep, Bubble: s.Bubble, parent: s, settle: settle}
				wg.Add(1)
				go func() {
					defer wg.Done()
					child.Case.Run(child)
				}()
			}
			wg.Wait()
			s.Obs("cases run beside another", len(parts))
		}
		out = append(out, c)
	}
	return out
}

var libFrame = regexp.MustCompile(`github\.com/gostdlib/concurrency/(goroutines|prim|pipelines)`)

// Goroutines returns the stacks of all goroutines that match re in a frame or
// as their creator.
func Goroutines(re *regexp.Regexp) []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if re.MatchString(g) {
			out = append(out, g)
		}
	}
	return out
}

// Blocked returns a short dump of the goroutines inside the library.
func Blocked() string {
	gs := Goroutines(libFrame)
	if len(gs) > 6 {
		gs = gs[:6]
	}
	s := strings.Join(gs, "\n\n")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Failure is one reported violation.
type Failure struct {
	Index  int    `json:"index"`
	Rep    int    `json:"rep"`
	Case   string `json:"case"`
	Params string `json:"params"`
	Policy string `json:"policy"`
	Msg    string `json:"msg"`
}

// Result is what the child reports.
type Result struct {
	Evaluations int              `json:"evaluations"`
	Distinct    []string         `json:"distinct"` // hashes, merged over the shards by the parent
	Cases       int              `json:"cases"`
	Events      int64            `json:"events"`
	MinEvents   int64            `json:"min_events"`
	Rule        string           `json:"rule"`
	Obs         map[string]int64 `json:"obs"`
	Points      int              `json:"points_hit"`
	Hits        int64            `json:"point_hits"`
	Samples     []string         `json:"samples"`
	Failures    []Failure        `json:"failures"`
	Known       []string         `json:"known"`
	Done        bool             `json:"done"`
	Race        bool             `json:"race"`
}

var (
	resMu sync.Mutex
	res   = Result{Obs: map[string]int64{}}
	outF  string
	curMu sync.Mutex
	cur   struct {
		f     Failure
		n     int
		steps int64
	}
)

func write() {
	b, _ := json.Marshal(&res)
	os.WriteFile(outF+".tmp", b, 0o644)
	os.Rename(outF+".tmp", outF)
}

func finish() {
	resMu.Lock()
	res.Points, res.Hits = 0, 0
	for i := range zzv.Hits {
		if h := hit(i); h > 0 {
			res.Points++
			res.Hits += int64(h)
		}
	}
	write()
	os.Exit(0)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// policy sets the delays of one execution.
func policy(r *rand.Rand, n int, points []int) string {
	zzv.On = false
	zzv.Yield, zzv.Sleep, zzv.SleepNS = 0, 0, 20000
	zzv.Slow = [zzv.MaxPoints]uint8{}
	procs := []int{8, 2, 8, 1, 8, 4}[r.IntN(6)]
	if procs > runtime.NumCPU() {
		procs = runtime.NumCPU()
	}
	runtime.GOMAXPROCS(procs)
	desc := ""
	switch n % 6 {
	case 0:
		desc = "plain"
	case 1:
		zzv.Yield = 1 << 13
		desc = "yield/8"
	case 2:
		zzv.Yield = 1 << 12
		zzv.Sleep = 1 << 9
		desc = "sleep/128"
	case 3: // a few slow points
		k := 2 + r.IntN(8)
		var l []string
		for i := 0; i < k; i++ {
			p := points[r.IntN(len(points))]
			zzv.Slow[p] = 2
			l = append(l, strconv.Itoa(p))
		}
		zzv.SleepNS = 50000
		zzv.Yield = 1 << 11
		desc = "slow points " + strings.Join(l, ",")
	case 4: // every other point slow with some probability: one in 5 sleeps
		m := uint64(3 + r.IntN(5))
		o := r.Uint64()
		for i := 0; i < zzv.MaxPoints; i++ {
			if (uint64(i)*0x9e3779b97f4a7c15+o)>>32%m == 0 {
				zzv.Slow[i] = 1
			}
		}
		zzv.Sleep = 1 << 7
		zzv.Yield = 1 << 7 // who spins must give way sometimes
		desc = fmt.Sprintf("yield at every point with hash%%%d==0", m)
	case 5:
		zzv.Sleep = 1 << 11
		desc = "sleep/32"
	}
	zzv.On = true
	return fmt.Sprintf("%s procs=%d", desc, procs)
}

// Run executes the workload named in the environment and exits the process.
func Run(t *testing.T, props map[string]*Prop) {
	id := os.Getenv("ZZ_PROP")
	p := props[id]
	if p == nil {
		t.Skip("ZZ_PROP not set to a property of this package")
	}
	outF = env("ZZ_OUT", "/dev/null")
	seed, _ := strconv.ParseUint(env("ZZ_SEED", "1"), 10, 64)
	thorough := env("ZZ_TIER", "quick") == "thorough"
	only, _ := strconv.Atoi(env("ZZ_ONLY", "-1"))
	mult, _ := strconv.Atoi(env("ZZ_MULT", "1"))
	points := []int{0}
	for _, v := range strings.Split(env("ZZ_POINTS", "0"), ",") {
		if n, err := strconv.Atoi(v); err == nil && n < zzv.MaxPoints {
			points = append(points, n)
		}
	}
	prog, _ := os.OpenFile(outF+".progress", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)

	h := fnv.New64a()
	h.Write([]byte(id))
	r := rand.New(rand.NewPCG(seed, h.Sum64()))
	cases := p.Gen(r, thorough)
	if n := p.Twins; n > 0 {
		if thorough {
			n *= 5
		}
		cases = append(cases, twins(cases, r, n)...)
	}
	res.Cases = len(cases)
	res.Rule = p.Rule
	res.MinEvents = p.MinEvents
	res.Race = zzv.Race

	type exec struct{ c, rep int }
	shard, _ := strconv.Atoi(env("ZZ_SHARD", "0"))
	shards, _ := strconv.Atoi(env("ZZ_SHARDS", "1"))
	var execs []exec
	total := 0
	for rep := 0; ; rep++ {
		any := false
		for i := range cases {
			n := cases[i].Reps
			if n == 0 {
				n = p.Reps * 5 / 2
			}
			if thorough {
				if cases[i].Reps == 0 && p.ThoroughReps != 0 {
					n = p.ThoroughReps
				} else {
					n *= 8
				}
			}
			n *= mult
			if rep < n {
				any = true
				total++
				if (only < 0 || only == i) && total%shards == shard {
					execs = append(execs, exec{i, rep})
				}
			}
		}
		if !any {
			break
		}
	}

	// What an execution leaves behind ticks on in virtual time, so that
	// executions that take much of it come first.
	sort.SliceStable(execs, func(i, j int) bool { return cases[execs[i].c].Early && !cases[execs[j].c].Early })

	go watch(p)

	distinct := map[uint64]bool{}
	run := func(t *testing.T, from, to int) {
		for n := from; n < to; n++ {
			e := execs[n]
			c := &cases[e.c]
			er := rand.New(rand.NewPCG(seed^uint64(e.rep)*0x9e3779b97f4a7c15, uint64(e.c)+1))
			pol := policy(er, e.c+e.rep, points)
			if c.Calm {
				zzv.Sleep, zzv.Slow = 0, [zzv.MaxPoints]uint8{}
				pol += ", only yields"
			}
			s := &S{Case: c, R: er, T: t, Rep: e.rep, Bubble: !p.NoBubble, obs: map[string]int64{}}
			f := Failure{Index: e.c, Rep: e.rep, Case: c.Name, Params: c.Params, Policy: pol}
			curMu.Lock()
			cur.f, cur.n, cur.steps = f, n, totalHits()
			curMu.Unlock()
			if prog != nil {
				b, _ := json.Marshal(f)
				prog.WriteAt(append(b, []byte("\n"+strings.Repeat(" ", 2000))...), 0)
			}
			resetSeq()
			c.Run(s)
			sq := seqVal()
			zzv.On = false
			resMu.Lock()
			res.Evaluations++
			ev := s.events.Load()
			res.Events += ev
			if ev > 0 {
				k := fnv.New64a()
				fmt.Fprintf(k, "%d|%d|%s", e.c, sq, c.Params)
				if v := k.Sum64(); !distinct[v] {
					distinct[v] = true
					res.Distinct = append(res.Distinct, strconv.FormatUint(v, 36))
				}
			}
			s.mu.Lock()
			for k, v := range s.obs {
				if strings.HasPrefix(k, "max ") {
					if res.Obs[k] < v {
						res.Obs[k] = v
					}
				} else {
					res.Obs[k] += v
				}
			}
			if len(res.Samples) < 12 && n%(len(execs)/12+1) == 0 {
				res.Samples = append(res.Samples, fmt.Sprintf("#%d %s {%s} policy=%s events=%d obs=%s", e.c, c.Name, c.Params, pol, ev, fmtObs(s.obs)))
			}
			for _, k := range s.known {
				if !contains(res.Known, k) {
					res.Known = append(res.Known, k)
				}
			}
			bad := len(s.fails) > 0
			for _, m := range s.fails {
				g := f
				g.Msg = m
				res.Failures = append(res.Failures, g)
			}
			s.mu.Unlock()
			resMu.Unlock()
			if bad {
				finish()
			}
		}
	}
	body := func(t *testing.T) {
		run(t, 0, len(execs))
		res.Done = true
		finish()
	}
	switch {
	case p.NoBubble:
		body(t)
	case p.OwnBubbles:
		for i := range execs {
			func() {
				// Dependencies leave blocked goroutines behind, which a bubble complains about.
				defer func() {
					if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
						panic(r)
					}
				}()
				synctest.Test(t, func(t *testing.T) { run(t, i, i+1) })
			}()
		}
		res.Done = true
		finish()
	default:
		synctest.Test(t, body)
	}
}

func contains(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func fmtObs(m map[string]int64) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

var progress atomic.Int64

// Progress tells that the execution gets on, however many steps that takes. Scenarios
// whose operations spin while others are held up use it.
func Progress() { progress.Add(1) }

var gState = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)`)

// watch runs outside the bubble, in real time. It decides two things exactly:
// a deadlock on mutexes (every goroutine of the workload is blocked and stays
// so) and a livelock (one execution took far more library steps than any
// amount of work in it can explain). Anything else is left to the parent's
// generous timeout, which is inconclusive.
func watch(p *Prop) {
	limit := p.StepLimit
	if limit == 0 {
		limit = 40_000_000
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM)
	last, same, made := -1, 0, int64(0)
	var lastDump string
	for {
		select {
		case <-sig:
			fmt.Fprintln(os.Stderr, "TERMINATED\n"+Blocked())
			os.Exit(3)
		case <-time.After(time.Second):
		}
		curMu.Lock()
		n, f, st := cur.n, cur.f, cur.steps
		curMu.Unlock()
		if n != last {
			last, same, lastDump = n, 0, ""
			continue
		}
		if m := progress.Load(); m != made {
			made = m
			curMu.Lock()
			cur.steps = totalHits()
			curMu.Unlock()
			continue
		}
		same++
		if steps := totalHits() - st; steps > limit {
			report(f, fmt.Sprintf("livelock: more than %d library steps in one execution\n%s", limit, Blocked()))
		}
		if same < 8 {
			continue
		}
		dump := quiet()
		if dump == "" {
			lastDump, same = "", 8
			continue
		}
		if lastDump == dump && same >= 14 {
			report(f, "deadlock: every goroutine of the scenario is blocked\n"+Blocked())
		}
		if lastDump != dump {
			lastDump, same = dump, 8
		}
	}
}

// quiet returns the goroutine dump without the times when no goroutine but
// this one can run, else "".
func quiet() string {
	gs := Goroutines(regexp.MustCompile(`.`))
	var keep []string
	for _, g := range gs {
		if strings.Contains(g, "mon.watch(") || strings.Contains(g, "os/signal.") {
			continue
		}
		m := gState.FindStringSubmatch(g)
		if m == nil {
			return ""
		}
		switch st := m[1]; {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"), strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "sema"), strings.HasPrefix(st, "synctest"), strings.HasPrefix(st, "durable"):
		case st == "sleep" && strings.Contains(g, "synctest bubble"):
		case strings.HasPrefix(st, "finalizer"), strings.HasPrefix(st, "GC "), strings.HasPrefix(st, "force gc"), strings.HasPrefix(st, "cleanup"):
		default:
			return ""
		}
		i := strings.Index(g, "\n")
		keep = append(keep, m[1]+g[i:])
	}
	return strings.Join(keep, "\n\n")
}

func report(f Failure, msg string) {
	f.Msg = msg
	resMu.Lock()
	res.Failures = append(res.Failures, f)
	write()
	os.Exit(0)
}

// P formats the fields of a parameter struct.
func P(v any) string {
	rv := reflect.ValueOf(v)
	var l []string
	for i := 0; i < rv.NumField(); i++ {
		l = append(l, fmt.Sprintf("%s=%v", rv.Type().Field(i).Name, format(rv.Field(i))))
	}
	return strings.Join(l, " ")
}

func format(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Func:
		return fmt.Sprint(!v.IsNil())
	case reflect.Int:
		return fmt.Sprint(v.Int())
	}
	return fmt.Sprintf("%v", v)
}
