package reg

import (
	"context"
	"math/rand/v2"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/goroutines/zzverif"

	"verifharness/mon"
)

func newPool(kind int, name string, size int) (goroutines.Pool, error) {
	if kind == 0 {
		p, err := limited.New(name, size)
		if err != nil {
			if p != nil {
				return p, err
			}
			return nil, err
		}
		return p, nil
	}
	p, err := pooled.New(name, size)
	if err != nil {
		if p != nil {
			return p, err
		}
		return nil, err
	}
	return p, nil
}

var goodNames = []string{"alpha", "b", "b.c/d_e", "名前", "github.com/x/y.pool", "Alpha",
	strings.Repeat("long/", 60) + "x", strings.Repeat("long/", 60) + "y", "a.b", "ab", "B"}
var badNames = []string{"a1", "a-b", "a b", "1", "-", " ", "\t", "a\n", "alpha-1", "0x", "é9", "a\rb", "b-", "-b", "alpha-",
	"b\fb", "名前1", strings.Repeat("long/", 60) + "7", strings.Repeat("x", 70) + "-" + strings.Repeat("y", 70), strings.Repeat("long.", 300) + " ", " " + strings.Repeat("z", 2000)}

var numbered = regexp.MustCompile(`^-[0-9]+$`)

// list reads the registry; the channel must be closed.
func list(s *mon.S) ([]goroutines.Pool, bool) {
	var l []goroutines.Pool
	ok := s.Within(time.Minute, "listing the registry", func() {
		for p := range zzverif.Pools() {
			l = append(l, p)
		}
	})
	return l, ok
}

type seqCase struct {
	ops, names int
	closePct   int
	badPct     int
	useJobs    bool
	sizes      bool // pools of many sizes
}

// sequential random history against an exact model.
func (c seqCase) run(s *mon.S) {
	r := s.R
	live := map[string]goroutines.Pool{}
	var all []goroutines.Pool // live, named and unnamed
	unnamed := map[goroutines.Pool]bool{}
	check := func(after string) bool {
		l, ok := list(s)
		if !ok {
			return false
		}
		seen := map[goroutines.Pool]int{}
		for _, p := range l {
			seen[p]++
			if unnamed[p] {
				s.Fail("after %s: the registry lists an unnamed pool", after)
			}
			if live[p.GetName()] != p {
				s.Fail("after %s: the registry lists %q, which is closed or not the pool with that name", after, p.GetName())
			}
		}
		for n, p := range live {
			if seen[p] != 1 {
				s.Fail("after %s: the registry lists the live pool %q %d times", after, n, seen[p])
			}
			if p.GetName() != n {
				s.Fail("after %s: pool %q is now called %q", after, n, p.GetName())
			}
		}
		s.Event(1 + len(l))
		return !s.Failed()
	}
	for i := 0; i < c.ops && !s.Failed(); i++ {
		v := r.IntN(100)
		switch {
		case v < c.closePct && len(all) > 0:
			k := r.IntN(len(all))
			p := all[k]
			n := p.GetName()
			if !s.Within(time.Minute, "Close", p.Close) {
				return
			}
			all = append(all[:k], all[k+1:]...)
			if unnamed[p] {
				delete(unnamed, p)
			} else {
				delete(live, n)
			}
			if !check("Close of " + n) {
				return
			}
		case v < c.closePct+c.badPct:
			name, size := goodNames[r.IntN(c.names)], 1
			switch r.IntN(3) {
			case 0:
				name = badNames[r.IntN(len(badNames))]
			case 1:
				size = -r.IntN(3)
			case 2:
				name, size = "", 0
			}
			var p goroutines.Pool
			var err error
			if !s.Within(time.Minute, "New", func() { p, err = newPool(r.IntN(2), name, size) }) {
				return
			}
			if err == nil {
				s.Fail("New(%q, %d) returned no error (pool %v)", name, size, p != nil)
				return
			}
			s.Obs("rejected creations", 1)
			if !check("a rejected New") {
				return
			}
		default:
			name := goodNames[r.IntN(c.names)]
			if r.IntN(8) == 0 {
				name = ""
			}
			var p goroutines.Pool
			var err error
			kind, size := r.IntN(2), 1+r.IntN(3)
			if c.sizes {
				size = []int{1, 8, 64, 129, 300, 1100, 6000}[r.IntN(7)]
				if kind == 0 && r.IntN(4) == 0 {
					size = 70000
				}
				s.ObsMax("max pool size", size)
			}
			if !s.Within(time.Minute, "New "+name, func() { p, err = newPool(kind, name, size) }) {
				return
			}
			if err != nil {
				s.Fail("New(%q) failed: %v", name, err)
				return
			}
			got := p.GetName()
			if name == "" {
				if got != "" {
					s.Fail("an unnamed pool is called %q", got)
				}
				unnamed[p] = true
			} else {
				if q := live[got]; q != nil {
					s.Fail("two live pools are called %q", got)
					return
				}
				if _, taken := live[name]; !taken && got != name {
					s.Fail("New(%q) is called %q although no live pool has the requested name", name, got)
				}
				if got != name && !(strings.HasPrefix(got, name) && numbered.MatchString(got[len(name):])) {
					s.Fail("New(%q) is called %q", name, got)
				}
				if got != name {
					s.Obs("name collisions resolved", 1)
				}
				live[got] = p
				s.ObsMax("max live named pools", len(live))
			}
			all = append(all, p)
			if c.useJobs {
				done := make(chan struct{})
				p.Submit(context.Background(), func(context.Context) { close(done) })
				if !mon.Recv(done, time.Minute) {
					s.Fail("a job of a new pool does not run")
				}
			}
			if !check("New of " + name) {
				return
			}
		}
		s.Event(1)
	}
	for _, p := range all {
		if !s.Within(time.Minute, "Close", p.Close) {
			return
		}
	}
	if l, ok := list(s); ok && len(l) != 0 {
		s.Fail("%d pools registered after all were closed", len(l))
	}
}

type closingCase struct {
	kind, kind2, jobs int
	nb                bool
}

// run closes a pool whose jobs are still executing: until they end, the pool is live,
// so that its name is taken and the registry lists it.
func (c closingCase) run(s *mon.S) {
	name := goodNames[s.R.IntN(len(goodNames))]
	p, err := newPool(c.kind, name, max(1, c.jobs))
	if err != nil {
		s.Fail("New(%q): %v", name, err)
		return
	}
	gate := make(chan struct{})
	var started sync.WaitGroup
	started.Add(c.jobs)
	for i := 0; i < c.jobs; i++ {
		var opts []goroutines.SubmitOption
		if c.nb {
			opts = append(opts, []goroutines.SubmitOption{limited.NonBlocking(), pooled.NonBlocking()}[c.kind])
		}
		if err := p.Submit(context.Background(), func(context.Context) { started.Done(); <-gate }, opts...); err != nil {
			s.Fail("Submit: %v", err)
			close(gate)
			return
		}
	}
	if !s.Within(time.Minute, "the start of the jobs", started.Wait) {
		close(gate)
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		p.Close()
	}()
	s.Settle()
	var q goroutines.Pool
	if s.Within(time.Minute, "New", func() { q, err = newPool(c.kind2, name, 1) }) {
		if err != nil {
			s.Fail("New(%q): %v", name, err)
		} else if q.GetName() == name {
			s.Fail("New(%q) has that very name although a pool with it is still running %d jobs", name, c.jobs)
		}
		if l, ok := list(s); ok {
			n := 0
			for _, x := range l {
				if x == p {
					n++
				}
			}
			if n != 1 || len(l) != 2 {
				s.Fail("the registry lists the pool that is still running jobs %d times, and %d pools in all", n, len(l))
			}
		}
	}
	s.Event(4)
	s.Obs("pools closed while their jobs run", 1)
	close(gate)
	if !mon.Recv(done, time.Minute) {
		s.Fail("Close does not return after the jobs have ended")
		return
	}
	if q != nil {
		if !s.Within(time.Minute, "Close", q.Close) {
			return
		}
	}
	p, err = newPool(c.kind2, name, 1)
	if err != nil {
		s.Fail("New(%q): %v", name, err)
		return
	}
	if p.GetName() != name {
		s.Fail("New(%q) is called %q although no live pool has the requested name", name, p.GetName())
	}
	s.Within(time.Minute, "Close", p.Close)
	if l, ok := list(s); ok && len(l) != 0 {
		s.Fail("%d pools registered after all were closed", len(l))
	}
}

type conCase struct {
	workers, ops, names int
	lister              bool
	hold                int
}

// concurrent creations and closings; uniqueness is judged on the intervals in
// which a name is certainly held.
func (c conCase) run(s *mon.S) {
	var mu sync.Mutex
	held := map[string]int{}
	var keep []goroutines.Pool
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for w := 0; w < c.workers; w++ {
		r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []goroutines.Pool
			release := func(k int) {
				p := mine[k]
				if n := p.GetName(); n != "" {
					mu.Lock()
					held[n]--
					mu.Unlock()
				}
				p.Close()
				mine = append(mine[:k], mine[k+1:]...)
			}
			for i := 0; i < c.ops && !s.Failed(); i++ {
				if len(mine) > 0 && (len(mine) >= c.hold || r.IntN(2) == 0) {
					release(r.IntN(len(mine)))
					continue
				}
				name := goodNames[r.IntN(c.names)]
				switch r.IntN(12) {
				case 0:
					name = ""
				case 1:
					if _, err := newPool(r.IntN(2), badNames[r.IntN(len(badNames))], 1); err == nil {
						s.Fail("New with an invalid name returned no error")
					}
					continue
				}
				p, err := newPool(r.IntN(2), name, 1+r.IntN(2))
				if err != nil {
					s.Fail("New(%q): %v", name, err)
					return
				}
				got := p.GetName()
				if name == "" {
					if got != "" {
						s.Fail("an unnamed pool is called %q", got)
					}
				} else {
					if got != name && !(strings.HasPrefix(got, name) && numbered.MatchString(got[len(name):])) {
						s.Fail("New(%q) is called %q", name, got)
					}
					mu.Lock()
					held[got]++
					if held[got] != 1 {
						s.Fail("two live pools are called %q", got)
					}
					mu.Unlock()
				}
				mine = append(mine, p)
				s.Event(1)
				s.Obs("concurrent creations", 1)
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
			// The pools that stay are checked at rest.
			if len(mine) > 1 {
				release(0)
			}
			mu.Lock()
			keep = append(keep, mine...)
			mu.Unlock()
		}()
	}
	if c.lister {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				n := map[string]bool{}
				for p := range zzverif.Pools() {
					// A pool may be closed meanwhile, but one listing has no name twice and no unnamed pool.
					if p.GetName() == "" {
						s.Fail("the registry lists an unnamed pool")
					}
					if n[p.GetName()] {
						s.Fail("one listing of the registry has the name %q twice", p.GetName())
					}
					n[p.GetName()] = true
				}
				s.Obs("concurrent listings", 1)
				time.Sleep(time.Microsecond)
			}
		}()
	}
	if !s.Within(10*time.Minute, "concurrent creating and closing", wg.Wait) {
		return
	}
	close(stop)
	s.Settle()
	want := map[goroutines.Pool]bool{}
	for _, p := range keep {
		if p.GetName() != "" {
			want[p] = true
		}
	}
	l, ok := list(s)
	if !ok {
		return
	}
	seen := map[goroutines.Pool]int{}
	for _, p := range l {
		seen[p]++
		if !want[p] {
			s.Fail("the registry lists %q, which is closed or unnamed", p.GetName())
		}
	}
	for p := range want {
		if seen[p] != 1 {
			s.Fail("the registry lists the live pool %q %d times", p.GetName(), seen[p])
		}
	}
	s.Event(len(l))
	for _, p := range keep {
		if !s.Within(time.Minute, "Close", p.Close) {
			return
		}
	}
	if l, ok := list(s); ok && len(l) != 0 {
		s.Fail("%d pools registered after all were closed", len(l))
	}
}

func gen(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	seq := func(c seqCase) { cs = append(cs, mon.Case{Name: "history", Params: mon.P(c), Run: c.run}) }
	con := func(c conCase) { cs = append(cs, mon.Case{Name: "concurrent", Params: mon.P(c), Run: c.run}) }
	seq(seqCase{ops: 15, names: 1})
	seq(seqCase{ops: 60, names: 1, closePct: 40, badPct: 10})
	seq(seqCase{ops: 120, names: 2, closePct: 45, badPct: 10, useJobs: true})
	seq(seqCase{ops: 200, names: len(goodNames), closePct: 45, badPct: 15})
	seq(seqCase{ops: 40, names: 3, closePct: 30, badPct: 50})
	for i := 0; i < 3; i++ {
		c := seqCase{ops: 14, names: 1 + i, closePct: 35, sizes: true, useJobs: i == 1}
		cs = append(cs, mon.Case{Name: "sizes", Params: mon.P(c), Run: c.run, Reps: 2})
	}
	for i := 0; i < 2; i++ {
		c := seqCase{ops: 340, names: 1 + i, closePct: 5, badPct: 2}
		cs = append(cs, mon.Case{Name: "many", Params: mon.P(c), Run: c.run, Reps: 1})
	}
	con(conCase{workers: 2, ops: 20, names: 1, hold: 1})
	con(conCase{workers: 6, ops: 30, names: 1, hold: 3, lister: true})
	con(conCase{workers: 8, ops: 40, names: 3, hold: 2, lister: true})
	con(conCase{workers: 16, ops: 4, names: 1, hold: 4})
	for kind := 0; kind < 2; kind++ {
		for kind2 := 0; kind2 < 2; kind2++ {
			for _, nb := range []bool{false, true} {
				c := closingCase{kind: kind, kind2: kind2, jobs: 1 + r.IntN(3), nb: nb}
				cs = append(cs, mon.Case{Name: "closing", Params: mon.P(c), Run: c.run})
			}
		}
	}
	n := 6
	if thorough {
		n = 40
	}
	for i := 0; i < n; i++ {
		seq(seqCase{ops: 20 + r.IntN(150), names: 1 + r.IntN(len(goodNames)), closePct: 20 + r.IntN(30), badPct: r.IntN(30), useJobs: r.IntN(2) == 0})
		con(conCase{workers: 2 + r.IntN(10), ops: 5 + r.IntN(40), names: 1 + r.IntN(3), hold: 1 + r.IntN(4), lister: r.IntN(2) == 0})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"P05": {Gen: gen, Reps: 20, MinEvents: 1000, StepLimit: 3_000_000,
			Rule: "a case is a random history of creations (valid, invalid, unnamed), closings and listings of both pool kinds, sequential against an exact model of the registry or concurrent against name intervals; distinct by parameters and order of library steps"},
	})
}
