package queue

import (
	"context"
	"io"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/zzverif"

	"verifharness/mon"
)

// item is unique; p and n are pusher and number.
type item struct {
	p, n int
	pad  [3]uint64
}

func (i item) ok() bool {
	return i.pad == [3]uint64{uint64(i.p), uint64(i.n), uint64(i.p) ^ uint64(i.n)*31}
}
func mk(p, n int) item {
	return item{p, n, [3]uint64{uint64(p), uint64(n), uint64(p) ^ uint64(n)*31}}
}

type rec struct {
	it        item
	call, ret int64
	pop       bool
	who       int
}

type mix struct {
	limit, pushers, poppers, per int
	closeEarly                   bool // Close while poppers are still at work
	pace                         int
}

func (c mix) run(s *mon.S) {
	q := zzverif.NewQueue[item](c.limit)
	var clock atomic.Int64
	var pushWG, popWG sync.WaitGroup
	var mu sync.Mutex
	var pushes, pops []rec
	var pushed atomic.Int64
	for p := 0; p < c.pushers; p++ {
		r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(p)))
		pushWG.Add(1)
		go func() {
			defer pushWG.Done()
			var l []rec
			for n := 0; n < c.per; n++ {
				x := rec{it: mk(p, n), who: p}
				x.call = clock.Add(1)
				q.Push(x.it)
				mon.Progress()
				x.ret = clock.Add(1)
				pushed.Add(1)
				l = append(l, x)
				pace(r, c.pace)
			}
			mu.Lock()
			pushes = append(pushes, l...)
			mu.Unlock()
		}()
	}
	var popped atomic.Int64
	for p := 0; p < c.poppers; p++ {
		r := rand.New(rand.NewPCG(s.R.Uint64(), uint64(1000+p)))
		popWG.Add(1)
		go func() {
			defer popWG.Done()
			var l []rec
			for {
				x := rec{pop: true, who: p}
				x.call = clock.Add(1)
				v, ok := q.Pop()
				mon.Progress()
				x.ret = clock.Add(1)
				if !ok {
					if v != (item{}) {
						s.Fail("Pop reports the end with the value %v", v)
					}
					break
				}
				if !v.ok() {
					s.Fail("Pop returned a damaged or never pushed value %v", v)
				}
				popped.Add(1)
				x.it = v
				l = append(l, x)
				pace(r, c.pace)
			}
			mu.Lock()
			pops = append(pops, l...)
			mu.Unlock()
		}()
	}
	if !s.Within(10*time.Minute, "pushing", pushWG.Wait) {
		return
	}
	if !c.closeEarly {
		// Everything pushed must become available without a Close.
		for i := 0; i < 1200 && popped.Load() < int64(c.pushers*c.per); i++ {
			time.Sleep(time.Duration(10+i*i) * time.Microsecond)
		}
		if n := popped.Load(); n != int64(c.pushers*c.per) {
			s.Fail("%d of %d values were popped before Close", n, c.pushers*c.per)
			return
		}
	}
	q.Close()
	if !s.Within(10*time.Minute, "all Pop calls returning after Close", popWG.Wait) {
		return
	}
	if len(pops) != len(pushes) {
		s.Fail("%d values pushed before Close, %d popped", len(pushes), len(pops))
	}
	at := map[item]rec{}
	for _, x := range pops {
		if _, dup := at[x.it]; dup {
			s.Fail("value %v popped twice", x.it)
			return
		}
		at[x.it] = x
	}
	for _, x := range pushes {
		y, ok := at[x.it]
		if !ok {
			s.Fail("value %v was never popped", x.it)
			return
		}
		if y.ret < x.call {
			s.Fail("value %v popped before it was pushed", x.it)
			return
		}
		s.Event(2)
	}
	// FIFO: if push(a) ended before push(b) began then not (pop(b) ended before pop(a) began).
	sort.Slice(pushes, func(i, j int) bool { return pushes[i].call < pushes[j].call })
	// For every b: the latest begin of a pop among all a pushed completely before b.
	byRet := append([]rec(nil), pushes...)
	sort.Slice(byRet, func(i, j int) bool { return byRet[i].ret < byRet[j].ret })
	k := 0
	var latest rec
	for _, b := range pushes {
		for k < len(byRet) && byRet[k].ret < b.call {
			if y := at[byRet[k].it]; y.call > latest.call {
				latest = y
			}
			k++
		}
		if y := at[b.it]; latest.call > y.ret {
			s.Fail("value %v was pushed after %v but popped before it", b.it, latest.it)
			return
		}
	}
	s.Obs("values", len(pushes))
}

func pace(r *rand.Rand, p int) {
	switch {
	case p == 0:
	case r.IntN(3) == 0:
		runtime.Gosched()
	case r.IntN(4) == 0:
		time.Sleep(time.Duration(r.IntN(p)) * time.Microsecond)
	}
}

type bound struct {
	limit, pushers, extra int
	popsAfter             int
	idle                  time.Duration
}

// limit: at quiescence at most limit values are held and exactly that many Push calls returned.
func (c bound) run(s *mon.S) {
	q := zzverif.NewQueue[int](c.limit)
	total := c.limit + c.extra
	if c.limit <= 0 {
		total = c.extra
	}
	var pushed atomic.Int64
	perP := (total + c.pushers - 1) / c.pushers
	total = perP * c.pushers
	var wg sync.WaitGroup
	for p := 0; p < c.pushers; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < perP; i++ {
				q.Push(p*perP + i)
				mon.Progress()
				pushed.Add(1)
			}
		}()
	}
	seen := map[int]bool{}
	expect := func(popped int) bool {
		s.Settle()
		want := total
		if c.limit > 0 {
			want = min(total, c.limit+popped)
		}
		if n := int(pushed.Load()); n != want {
			s.Fail("limit %d: %d Push calls returned after %d Pop calls, want %d", c.limit, n, popped, want)
			return false
		}
		s.Event(1)
		return true
	}
	if !expect(0) {
		return
	}
	for i := 0; i < total; i++ {
		var v int
		var ok bool
		if !s.Within(time.Minute, "Pop with values present", func() { v, ok = q.Pop() }) {
			return
		}
		if !ok || seen[v] {
			s.Fail("Pop returned %v, %v (seen before: %v)", v, ok, seen[v])
			return
		}
		seen[v] = true
		if !expect(i + 1) {
			return
		}
	}
	// Blocks until a value is available.
	var got atomic.Int64
	res := make(chan int, 1)
	go func() {
		v, ok := q.Pop()
		if !ok {
			v = -1
		}
		got.Add(1)
		res <- v
	}()
	time.Sleep(20 * time.Millisecond)
	if got.Load() != 0 {
		s.Fail("Pop of an empty open queue returned")
		return
	}
	if !s.Within(time.Minute, "Push", func() { q.Push(12345) }) {
		return
	}
	select {
	case v := <-res:
		if v != 12345 {
			s.Fail("waiting Pop returned %d", v)
		}
	case <-time.After(time.Minute):
		s.Fail("waiting Pop did not get the pushed value")
		return
	}
	// However long it has waited.
	for _, idle := range []time.Duration{c.idle / 100, c.idle} {
		go func() {
			if v, ok := q.Pop(); ok {
				res <- v
			} else {
				res <- -1
			}
		}()
		time.Sleep(idle)
		if !s.Within(time.Minute, "Push", func() { q.Push(54321) }) {
			return
		}
		select {
		case v := <-res:
			if v != 54321 {
				s.Fail("waiting Pop returned %d", v)
			}
		case <-time.After(time.Second):
			s.Fail("Pop that had waited for %v did not get the pushed value within a second", idle)
			return
		}
		s.Event(1)
	}
	// Values pushed before Close, end for every caller afterwards and repeatedly.
	n := 3
	if c.limit > 0 {
		n = min(n, c.limit)
	}
	for i := 0; i < n; i++ {
		q.Push(i)
	}
	q.Close()
	for i := 0; i < n; i++ {
		if v, ok := q.Pop(); !ok || v != i {
			s.Fail("after Close Pop returned %v, %v, want %d", v, ok, i)
			return
		}
	}
	var ends sync.WaitGroup
	for i := 0; i < 5; i++ {
		ends.Add(1)
		go func() {
			defer ends.Done()
			if v, ok := q.Pop(); ok {
				s.Fail("Pop of a closed empty queue returned %v", v)
			}
		}()
	}
	s.Within(time.Minute, "Pop of a closed empty queue", ends.Wait)
	s.Obs("limit probes", total)
}

// fill is a single client that pushes and pops, zero values among them, against a list.
type fill struct {
	typ, limit, high, ops int
}

func (c fill) run(s *mon.S) {
	switch c.typ {
	case 0:
		runFill(s, c, func(i int) any { return []any{nil, i, "", 0, (*int)(nil), struct{}{}}[i%6] })
	case 1:
		runFill(s, c, func(i int) *int { return []*int{nil, new(int)}[i%2] })
	case 2:
		runFill(s, c, func(i int) int { return max(0, i%7-3) })
	case 3:
		runFill(s, c, func(i int) error { return []error{nil, context.Canceled, io.EOF}[i%3] })
	}
}

func runFill[T comparable](s *mon.S, c fill, mk func(int) T) {
	q := zzverif.NewQueue[T](c.limit)
	var held []T
	pop := func(when string) bool {
		var v T
		var ok bool
		if !s.Within(time.Minute, "Pop with values present", func() { v, ok = q.Pop() }) {
			return false
		}
		if !ok || v != held[0] {
			s.Fail("Pop %s returned %v, %v, want %v (%d held)", when, v, ok, held[0], len(held))
			return false
		}
		held = held[1:]
		s.Event(1)
		return true
	}
	high := c.high
	if c.limit > 0 {
		high = min(high, c.limit)
	}
	n, up := 0, true
	for i := 0; i < c.ops; i++ {
		if len(held) == 0 {
			up = true
		} else if len(held) == high {
			up = false
		}
		if push := up == (s.R.IntN(8) > 0); push && len(held) < high || len(held) == 0 {
			v := mk(n)
			n++
			if !s.Within(time.Minute, "Push with room", func() { q.Push(v) }) {
				return
			}
			held = append(held, v)
			s.ObsMax("max values held", len(held))
		} else if !pop("of the open queue") {
			return
		}
	}
	q.Close()
	for len(held) > 0 {
		if !pop("after Close") {
			return
		}
	}
	if v, ok := q.Pop(); ok {
		s.Fail("Pop of a closed empty queue returned %v", v)
	}
}

// closeRace: one Push followed by Close while Pop calls wait.
type closeRace struct{ poppers, limit, n int }

func (c closeRace) run(s *mon.S) {
	for round := 0; round < 30 && !s.Failed(); round++ {
		q := zzverif.NewQueue[int](c.limit)
		var got atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < c.poppers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					if _, ok := q.Pop(); !ok {
						return
					}
					got.Add(1)
				}
			}()
		}
		if round%3 == 0 {
			s.Settle()
		}
		for i := 0; i < c.n; i++ {
			q.Push(i)
		}
		q.Close()
		if !s.Within(time.Minute, "Pop after Close", wg.Wait) {
			return
		}
		if n := got.Load(); n != int64(c.n) {
			s.Fail("%d of %d values pushed before Close were popped before the end was reported", n, c.n)
		}
		s.Event(c.n)
	}
	s.Obs("close races", 30)
}

func gen(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c mix) { cs = append(cs, mon.Case{Name: "mix", Params: mon.P(c), Run: c.run}) }
	bd := func(c bound) { cs = append(cs, mon.Case{Name: "bound", Params: mon.P(c), Run: c.run}) }
	cr := func(c closeRace) { cs = append(cs, mon.Case{Name: "close", Params: mon.P(c), Run: c.run}) }
	for _, limit := range []int{0, 1, 2, 10, -1} {
		add(mix{limit: limit, pushers: 1, poppers: 1, per: 80})
		add(mix{limit: limit, pushers: 4, poppers: 4, per: 60, closeEarly: true})
		add(mix{limit: limit, pushers: 8, poppers: 2, per: 30, pace: 5, closeEarly: true})
		add(mix{limit: limit, pushers: 2, poppers: 6, per: 50, pace: 20})
		bd(bound{limit: limit, pushers: 1, extra: 7})
		bd(bound{limit: limit, pushers: 5, extra: 12})
		cr(closeRace{poppers: 1 + limit&3, limit: limit, n: 2})
		cr(closeRace{poppers: 2, limit: limit, n: 1})
	}
	for _, limit := range []int{0, 3} {
		for i := range 2 {
			c := bound{limit: limit, pushers: 1 + i, extra: 1, idle: time.Minute * time.Duration(1+i)}
			cs = append(cs, mon.Case{Name: "idle", Params: mon.P(c), Run: c.run, Reps: 1})
		}
	}
	for typ := 0; typ < 4; typ++ {
		for _, c := range []fill{{typ, 0, 20, 300}, {typ, 7, 7, 200}, {typ, 1, 1, 40}, {typ, 64 + typ, 100, 400}} {
			cs = append(cs, mon.Case{Name: "fill", Params: mon.P(c), Run: c.run})
		}
		c := fill{typ, typ % 2 * 2000, 2500, []int{8000, 140000, 140000, 9000}[typ]}
		cs = append(cs, mon.Case{Name: "fill", Params: mon.P(c), Run: c.run, Reps: 1, Calm: true})
	}
	add(mix{limit: 3, pushers: 6, poppers: 1, per: 100, closeEarly: true})
	n := 5
	if thorough {
		n = 40
	}
	for i := 0; i < n; i++ {
		add(mix{limit: r.IntN(12) - 1, pushers: 1 + r.IntN(8), poppers: 1 + r.IntN(8), per: 1 + r.IntN(80), closeEarly: r.IntN(2) == 0, pace: r.IntN(20)})
		bd(bound{limit: r.IntN(20), pushers: 1 + r.IntN(6), extra: 1 + r.IntN(20)})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"Q01": {Gen: gen, Twins: 16, Reps: 24, MinEvents: 1000, Rule: "a case is a limit and a mix of pushers and poppers with unique values, a bound probe at quiescence or a Push/Close/Pop race; distinct by parameters and order of library steps"},
	})
}
