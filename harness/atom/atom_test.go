package atom

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/gostdlib/concurrency/prim/atomics"

	"verifharness/mon"
)

type v8 struct {
	id  int64
	pad [8]int64
}
type v200 struct {
	id  int64
	s   string
	pad [200]int64
}

// kind describes a type of value.
type kind[T any] struct {
	mk func(id int64) T
	id func(T) (int64, error)
}

var (
	kInt = kind[int64]{func(i int64) int64 { return i }, func(i int64) (int64, error) { return i, nil }}
	kV8  = kind[v8]{
		func(id int64) v8 {
			v := v8{id: id}
			for i := range v.pad {
				v.pad[i] = id
			}
			return v
		},
		func(v v8) (int64, error) {
			for _, p := range v.pad {
				if p != v.id {
					return 0, fmt.Errorf("value mixes the writes %d and %d", v.id, p)
				}
			}
			return v.id, nil
		}}
	kV200 = kind[v200]{
		func(id int64) v200 {
			v := v200{id: id, s: fmt.Sprint(id)}
			for i := range v.pad {
				v.pad[i] = id
			}
			return v
		},
		func(v v200) (int64, error) {
			for _, p := range v.pad {
				if p != v.id {
					return 0, fmt.Errorf("value mixes the writes %d and %d", v.id, p)
				}
			}
			if v.s != fmt.Sprint(v.id) && !(v.s == "" && v.id == 0) {
				return 0, fmt.Errorf("value mixes the writes %d and %q", v.id, v.s)
			}
			return v.id, nil
		}}
	kSlice = kind[[]int64]{
		func(id int64) []int64 {
			if id == 0 {
				return nil
			}
			l := make([]int64, 3+id%5)
			for i := range l {
				l[i] = id
			}
			return l
		},
		func(v []int64) (int64, error) {
			if v == nil {
				return 0, nil
			}
			if len(v) == 0 || len(v) != int(3+v[0]%5) {
				return 0, fmt.Errorf("value %v was never written", v)
			}
			for _, p := range v {
				if p != v[0] {
					return 0, fmt.Errorf("value mixes the writes %d and %d", v[0], p)
				}
			}
			return v[0], nil
		}}
	kAny = kind[any]{
		func(id int64) any {
			switch {
			case id == 0:
				return nil
			case id%2 == 0:
				return id
			}
			return fmt.Sprint(id)
		},
		func(v any) (int64, error) {
			switch x := v.(type) {
			case nil:
				return 0, nil
			case int64:
				return x, nil
			case string:
				var id int64
				fmt.Sscan(x, &id)
				return id, nil
			}
			return 0, fmt.Errorf("value %v was never written", v)
		}}
)

// ---------------------------------------------------------------- A01

type opIn struct {
	kind byte // 'l' load, 's' store, 'r' replace, 'f' failing replace
	id   int64
}

var model = porcupine.Model{
	Init: func() any { return int64(0) },
	Step: func(st, in, out any) (bool, any) {
		o, i := out.(int64), in.(opIn)
		switch i.kind {
		case 'l':
			return o == st.(int64), st
		case 's':
			return true, i.id
		case 'r':
			return o == st.(int64), i.id
		default:
			return o == st.(int64), st
		}
	},
	Equal: func(a, b any) bool { return a.(int64) == b.(int64) },
	DescribeOperation: func(in, out any) string {
		i := in.(opIn)
		return fmt.Sprintf("%c id=%d saw=%d", i.kind, i.id, out.(int64))
	},
}

type a01 struct {
	typ, clients, ops   int
	pLoad, pStore, pRep int
	pFail               int
	clock               bool
	slow                int // yields inside a replacer
	rounds              int
	onlyReplace         bool
	init                bool
}

func (c a01) run(s *mon.S) {
	switch c.typ {
	case 0:
		runA01(s, c, kInt)
	case 1:
		runA01(s, c, kV8)
	case 2:
		runA01(s, c, kV200)
	case 3:
		runA01(s, c, kSlice)
	case 4:
		runA01(s, c, kAny)
	}
}

var errNo = errors.New("no")

// rec is one operation as a client saw it. It is written by its client only.
type rec struct {
	in        opIn
	out       int64
	call, ret int64
}

func runA01[T any](s *mon.S, c a01, k kind[T]) {
	for round := 0; round < c.rounds && !s.Failed(); round++ {
		var v atomics.RWValue[T]
		var clock atomic.Int64
		tick := func() int64 {
			if c.clock {
				return clock.Add(1)
			}
			return 0
		}
		base := int64(0)
		if c.init {
			v.Store(k.mk(1))
			base = 1
		}
		logs := make([][]rec, c.clients)
		seeds := make([]uint64, c.clients)
		for i := range seeds {
			seeds[i] = s.R.Uint64()
		}
		errs := make([]error, c.clients)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for cl := 0; cl < c.clients; cl++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seeds[cl], 1))
				<-start
				lastSeen := int64(-1)
				for n := 0; n < c.ops; n++ {
					x := r.IntN(c.pLoad + c.pStore + c.pRep + c.pFail)
					o := rec{in: opIn{id: int64(cl+1)*1_000_000 + int64(n) + 1}}
					var e error
					switch {
					case x < c.pLoad:
						o.in.kind = 'l'
						o.call = tick()
						t := v.Load()
						o.ret = tick()
						o.out, e = k.id(t)
					case x < c.pLoad+c.pStore:
						o.in.kind = 's'
						t := k.mk(o.in.id)
						o.call = tick()
						v.Store(t)
						o.ret = tick()
					default:
						o.in.kind = 'r'
						fail := x >= c.pLoad+c.pStore+c.pRep
						if fail {
							o.in.kind = 'f'
						}
						o.call = tick()
						err := v.LoadReplace(func(t T) (T, error) {
							o.out, e = k.id(t)
							if c.onlyReplace {
								o.in.id = o.out + 1
							}
							for i := 0; i < c.slow; i++ {
								runtime.Gosched()
							}
							if fail {
								return k.mk(o.in.id), errNo
							}
							return k.mk(o.in.id), nil
						})
						o.ret = tick()
						if (err != nil) != fail || fail && err != errNo {
							e = fmt.Errorf("LoadReplace returned %v (function failed: %v)", err, fail)
						}
					}
					if e != nil {
						errs[cl] = e
						return
					}
					if c.onlyReplace && o.in.kind != 's' {
						seen := o.out
						if seen < lastSeen {
							errs[cl] = fmt.Errorf("client saw the value %d after the value %d", seen, lastSeen)
							return
						}
						lastSeen = seen
						if o.in.kind == 'r' {
							lastSeen = o.in.id
						}
					}
					logs[cl] = append(logs[cl], o)
					if r.IntN(6) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				s.Fail("%v", e)
				return
			}
		}
		final, e := k.id(v.Load())
		if e != nil {
			s.Fail("%v", e)
			return
		}
		// Every value is replaced at most once; the replaces and stores form
		// one chain that ends in the final value.
		replacedBy := map[int64]int64{}
		written := map[int64]bool{base: true, 0: true}
		nrep, total := int64(0), 0
		for _, l := range logs {
			for _, o := range l {
				if o.in.kind == 's' || o.in.kind == 'r' {
					written[o.in.id] = true
				}
				if o.in.kind == 'r' {
					nrep++
				}
				total++
			}
		}
		if base == 1 {
			delete(written, 0)
			written[1] = true
		}
		for _, l := range logs {
			for _, o := range l {
				if o.in.kind != 's' && !written[o.out] {
					s.Fail("%s saw the value %d, which nothing wrote", model.DescribeOperation(o.in, o.out), o.out)
					return
				}
				if o.in.kind == 'r' {
					if p, ok := replacedBy[o.out]; ok {
						s.Fail("lost update: the value %d was replaced by %d and by %d", o.out, p, o.in.id)
						return
					}
					replacedBy[o.out] = o.in.id
				}
			}
		}
		if !written[final] {
			s.Fail("the final value %d was never written", final)
		}
		if _, ok := replacedBy[final]; ok && !c.onlyReplace {
			s.Fail("the final value %d had been replaced", final)
		}
		if c.onlyReplace && final != base+nrep {
			s.Fail("%d increments were made and the value went from %d to %d", nrep, base, final)
		}
		if c.clock {
			var h []porcupine.Operation
			if c.init {
				h = append(h, porcupine.Operation{ClientId: c.clients, Input: opIn{'s', 1}, Output: int64(0), Call: -2, Return: -1})
			}
			for cl, l := range logs {
				for _, o := range l {
					h = append(h, porcupine.Operation{ClientId: cl, Input: o.in, Output: o.out, Call: o.call, Return: o.ret})
				}
			}
			switch porcupine.CheckOperationsTimeout(model, h, 20*time.Second) {
			case porcupine.Illegal:
				d := ""
				if len(h) < 60 {
					for _, o := range h {
						d += fmt.Sprintf("\n client %d [%d,%d] %s", o.ClientId, o.Call, o.Return, model.DescribeOperation(o.Input, o.Output))
					}
				}
				s.Fail("the history of %d operations is not linearizable%s", len(h), d)
			case porcupine.Unknown:
				s.Obs("histories given up", 1)
			default:
				s.Obs("histories linearized", 1)
			}
		}
		s.Event(total)
		s.Obs("operations", total)
	}
}

func genA01(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c a01) {
		if c.onlyReplace {
			c.typ, c.pStore = c.typ%3, 0
		}
		cs = append(cs, mon.Case{Name: "history", Params: mon.P(c), Run: c.run})
	}
	for typ := 0; typ < 5; typ++ {
		add(a01{typ: typ, clients: 4, ops: 12, pLoad: 4, pStore: 2, pRep: 4, pFail: 1, clock: true, slow: 2, rounds: 20, init: typ%2 == 0})
		add(a01{typ: typ, clients: 3, ops: 8, pLoad: 3, pStore: 3, pRep: 3, clock: true, rounds: 30})
		add(a01{typ: typ, clients: 8, ops: 150, pLoad: 5, pStore: 2, pRep: 3, pFail: 1, slow: 1, rounds: 2})
		add(a01{typ: typ, clients: 8, ops: 150, pLoad: 8, pStore: 1, pRep: 1, rounds: 2, init: true})
		add(a01{typ: typ, clients: 6, ops: 100, pLoad: 3, pRep: 5, pFail: 2, slow: 1, rounds: 2, onlyReplace: true})
		add(a01{typ: typ, clients: 2, ops: 40, pLoad: 3, pRep: 5, clock: true, slow: 3, rounds: 10, onlyReplace: true, init: true})
	}
	n := 5
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		add(a01{typ: r.IntN(5), clients: 2 + r.IntN(6), ops: 1 + r.IntN(16), pLoad: r.IntN(6), pStore: r.IntN(4), pRep: 1 + r.IntN(5), pFail: r.IntN(3), clock: r.IntN(2) == 0, slow: r.IntN(4), rounds: 10, onlyReplace: r.IntN(3) == 0, init: r.IntN(2) == 0})
	}
	return cs
}

// ---------------------------------------------------------------- A02

type a02 struct {
	typ      int
	outcome  int // of the running replacer: 0 success, 1 error, 2 panic, 3 Goexit
	set      bool
	writers  int // waiting writers
	loaders  int
	inside   bool // Load also from inside the function
	sequence int
}

func (c a02) run(s *mon.S) {
	switch c.typ {
	case 0:
		runA02(s, c, kInt)
	case 1:
		runA02(s, c, kV8)
	case 2:
		runA02(s, c, kV200)
	case 3:
		runA02(s, c, kSlice)
	case 4:
		runA02(s, c, kAny)
	}
}

func runA02[T any](s *mon.S, c a02, k kind[T]) {
	var v atomics.RWValue[T]
	id := func(t T) int64 {
		i, err := k.id(t)
		if err != nil {
			s.Fail("%v", err)
		}
		return i
	}
	cur := int64(0)
	if c.set {
		v.Store(k.mk(5))
		cur = 5
	}
	expect := func(want int64, when string) {
		if got := id(v.Load()); got != want {
			s.Fail("Load %s returned %d, want %d", when, got, want)
		}
		s.Event(1)
	}
	expect(cur, "at first")
	next := int64(10)
	for seq := 0; seq < c.sequence && !s.Failed(); seq++ {
		outcome := c.outcome
		if outcome == 4 {
			outcome = s.R.IntN(4)
		}
		entered, gate, done := make(chan struct{}), make(chan struct{}), make(chan struct{})
		var calls atomic.Int32
		var err error
		var returned atomic.Bool
		myErr := errKinds[(seq+s.R.IntN(len(errKinds)))%len(errKinds)]
		if s.R.IntN(3) == 0 {
			myErr = fmt.Errorf("error %d", seq)
		}
		next++
		mine := next
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil && outcome != 2 {
					s.Fail("LoadReplace panicked: %v", p)
				}
			}()
			err = v.LoadReplace(func(t T) (T, error) {
				if n := calls.Add(1); n > 1 {
					s.Fail("function called %d times", n)
					return t, nil
				}
				if got := id(t); got != cur {
					s.Fail("function called with %d, the value is %d", got, cur)
				}
				close(entered)
				if c.inside {
					expect(cur, "inside the function")
				}
				<-gate
				switch outcome {
				case 1:
					return k.mk(mine), myErr
				case 2:
					panic("replacer")
				case 3:
					runtime.Goexit()
				}
				return k.mk(mine), nil
			})
			returned.Store(true)
		}()
		<-entered
		// Writers that have to wait.
		var wwg sync.WaitGroup
		var wmu sync.Mutex
		var order []int64
		for w := 0; w < c.writers; w++ {
			next++
			n := next
			wwg.Add(1)
			go func() {
				defer wwg.Done()
				switch w % 3 {
				case 0:
					v.Store(k.mk(n))
					wmu.Lock()
					order = append(order, n)
					wmu.Unlock()
				case 1:
					if err := v.LoadReplace(func(t T) (T, error) {
						if !done2(gate) {
							s.Fail("two functions run at the same time")
						}
						wmu.Lock()
						order = append(order, n)
						wmu.Unlock()
						return k.mk(n), nil
					}); err != nil {
						s.Fail("LoadReplace of a succeeding function returned %v", err)
					}
				case 2:
					if err := v.LoadReplace(func(t T) (T, error) { return k.mk(n), errNo }); err != errNo {
						s.Fail("LoadReplace of a failing function returned %v", err)
					}
				}
			}()
		}
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		// The gate opens only after the Loads have returned. A Load that waits
		// for the function leaves everything blocked for good.
		var lwg sync.WaitGroup
		for l := 0; l < c.loaders; l++ {
			lwg.Add(1)
			go func() {
				defer lwg.Done()
				for i := 0; i < 5; i++ {
					expect(cur, "while a function is running")
				}
			}()
		}
		lwg.Wait()
		close(gate)
		<-done
		wwg.Wait()
		switch outcome {
		case 0:
			if err != nil {
				s.Fail("LoadReplace of a succeeding function returned %v", err)
			}
		case 1:
			if err != myErr {
				s.Fail("LoadReplace returned %v, the function %v", err, myErr)
			}
		default:
			if returned.Load() {
				s.Fail("LoadReplace returned (%v) although its function panicked", err)
			}
		}
		got := id(v.Load())
		if c.writers == 0 {
			want := cur
			if outcome == 0 {
				want = mine
			}
			if got != want {
				s.Fail("the value is %d after outcome %d of the function, want %d", got, outcome, want)
			}
		} else {
			ok := false
			for _, o := range order {
				ok = ok || o == got
			}
			if len(order) == 0 {
				ok = got == cur && outcome != 0 || got == mine && outcome == 0
			}
			if !ok {
				s.Fail("the value is %d, the writers that succeeded are %v", got, order)
			}
		}
		// Later operations proceed normally.
		next++
		n := next
		if err := v.LoadReplace(func(t T) (T, error) {
			if g := id(t); g != got {
				s.Fail("function called with %d, the value is %d", g, got)
			}
			return k.mk(n), nil
		}); err != nil {
			s.Fail("a later LoadReplace returned %v", err)
		}
		expect(n, "after a later LoadReplace")
		if seq%2 == 0 {
			next++
			v.Store(k.mk(next))
			n = next
			expect(n, "after a later Store")
		}
		cur = n
		s.Obs("replacers", 1)
	}
}

type myError struct{ code int }

func (e *myError) Error() string { return "" }

// errKinds are errors a function may return; each is comparable.
var errKinds = []error{context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrNotExist, &myError{0}, (*myError)(nil), errors.New(""),
	fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF, context.DeadlineExceeded), syscall.EAGAIN, syscall.Errno(0)}

// done2 reports whether ch is closed.
func done2(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func genA02(r *rand.Rand, thorough bool) []mon.Case {
	var cs []mon.Case
	add := func(c a02) { cs = append(cs, mon.Case{Name: "replacer", Params: mon.P(c), Run: c.run}) }
	for typ := 0; typ < 5; typ++ {
		for out := 0; out < 5; out++ {
			add(a02{typ: typ, outcome: out, set: out%2 == 0, loaders: 2, sequence: 3, inside: out%2 == 1})
			add(a02{typ: typ, outcome: out, set: out%2 == 1, loaders: 2, writers: 4, sequence: 3})
			add(a02{typ: typ, outcome: out, set: false, loaders: 1, writers: typ, sequence: 4, inside: true})
		}
	}
	n := 10
	if thorough {
		n = 80
	}
	for i := 0; i < n; i++ {
		add(a02{typ: r.IntN(5), outcome: r.IntN(5), set: r.IntN(2) == 0, loaders: r.IntN(4), writers: r.IntN(8), sequence: 1 + r.IntN(6), inside: r.IntN(2) == 0})
	}
	return cs
}

func Test(t *testing.T) {
	mon.Run(t, map[string]*mon.Prop{
		"A01": {Gen: genA01, NoBubble: true, Reps: 12, MinEvents: 20000, Rule: "a case is a value type, clients and a mix of operations; short histories carry a clock and are checked by porcupine, long ones run without any added synchronisation under the race detector; distinct by parameters and library steps"},
		"A02": {Gen: genA02, NoBubble: true, Reps: 24, MinEvents: 5000, Rule: "a case is a value type, the outcome of a replacer that is held until all Loads returned, waiting writers; distinct by parameters and order of library steps"},
	})
}
