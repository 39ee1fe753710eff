// Package kit has helpers the workloads share.
package kit

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"

	"verifharness/tracer"
)

// Key is a context key.
type Key struct{}

// NewPool makes pool kind: 0 none, 1 limited, 2 pooled, 3 limited non-blocking, 4 pooled non-blocking.
func NewPool(kind, size int) (goroutines.Pool, []goroutines.SubmitOption) {
	var p goroutines.Pool
	var o []goroutines.SubmitOption
	var err error
	switch kind {
	case 0:
		return nil, nil
	case 1:
		p, err = limited.New("", size)
	case 3:
		p, err = limited.New("", size)
		o = []goroutines.SubmitOption{limited.NonBlocking(), limited.Caller("x")}
	case 2:
		p, err = pooled.New("", size)
	case 4:
		p, err = pooled.New("", size)
		o = []goroutines.SubmitOption{pooled.Caller("x"), pooled.NonBlocking()}
	}
	if err != nil {
		panic(err)
	}
	return p, o
}

// Ctx makes a context over base of one of many kinds: plain, already or soon
// cancelled, past its deadline, with a cause, or with a recording span.
func Ctx(r *rand.Rand, base context.Context) context.Context {
	switch r.IntN(24) {
	case 0:
		ctx, cancel := context.WithCancel(base)
		cancel()
		return ctx
	case 1:
		ctx, cancel := context.WithDeadline(base, time.Unix(1, 0))
		_ = cancel
		return ctx
	case 2:
		ctx, cancel := context.WithTimeout(base, time.Duration(1+r.IntN(200))*time.Microsecond)
		_ = cancel
		return ctx
	case 3:
		ctx, cancel := context.WithCancelCause(base)
		cancel(errors.New("the cause"))
		return ctx
	case 4, 5:
		ctx, _ := (&tracer.Provider{}).Root(base, "caller")
		return ctx
	case 6:
		ctx, s := (&tracer.Provider{}).Root(base, "caller")
		s.End()
		return ctx
	case 7:
		ctx, cancel := context.WithCancel(base)
		_ = cancel
		return ctx
	}
	return base
}

// OtherCtx says how got, which a job was given, differs from the context want that
// was submitted: cancelled or not, deadline, cause. It is for bubbles.
func OtherCtx(got, want context.Context) string {
	if got.Err() != nil && want.Err() == nil {
		return "is done, the submitted one is not"
	}
	if want.Err() != nil {
		select {
		case <-got.Done():
		case <-time.After(time.Minute):
			return "is not done, the submitted one is"
		}
		if g, w := context.Cause(got), context.Cause(want); g != w {
			return fmt.Sprintf("is done because of %v, the submitted one because of %v", g, w)
		}
	}
	g, gok := got.Deadline()
	w, wok := want.Deadline()
	if gok != wok || !g.Equal(w) {
		return fmt.Sprintf("has the deadline %v (%v), the submitted one %v (%v)", g, gok, w, wok)
	}
	return ""
}

// Work does something that takes d: nothing, yields, or virtual time.
func Work(d int) {
	switch {
	case d == 0:
	case d == 1:
		runtime.Gosched()
	case d == 2:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(d) * 10 * time.Microsecond)
	}
}

// MyErr is an error type for errors.As.
type MyErr struct{ ID int }

func (e *MyErr) Error() string { return fmt.Sprintf("myErr %d", e.ID) }

type valErr struct{ id int }

func (e valErr) Error() string { return fmt.Sprintf("valErr %d", e.id) }

// Made is an error together with the way to recognise it.
type Made struct {
	Err error
	In  func(got error) bool
}

// listErr cannot be compared: doing so panics.
type listErr []int

func (e listErr) Error() string { return fmt.Sprintf("listErr %d", e[0]) }

// Same compares errors, also those that cannot be compared.
func Same(a, b error) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok || ok2 {
		return ok && ok2 && x[0] == y[0]
	}
	return a == b
}

// Walk says whether f holds somewhere in the error tree.
func Walk(g error, f func(error) bool) bool {
	if g == nil {
		return false
	}
	if f(g) {
		return true
	}
	switch x := g.(type) {
	case interface{ Unwrap() error }:
		return Walk(x.Unwrap(), f)
	case interface{ Unwrap() []error }:
		for _, y := range x.Unwrap() {
			if Walk(y, f) {
				return true
			}
		}
	}
	return false
}

// Styles is the number of styles of MkErr.
const Styles = 10

// MkErr makes an error of one of several styles.
func MkErr(id, style int) Made {
	base := fmt.Errorf("base %d", id)
	is := func(x error) func(error) bool { return func(g error) bool { return errors.Is(g, x) } }
	switch style % Styles {
	case 0:
		return Made{base, is(base)}
	case 1:
		e := &MyErr{id}
		return Made{e, func(g error) bool {
			var t *MyErr
			return errors.Is(g, e) && errors.As(g, &t)
		}}
	case 2:
		w := fmt.Errorf("wrap: %w", base)
		return Made{w, func(g error) bool { return errors.Is(g, w) && errors.Is(g, base) }}
	case 3:
		w := fmt.Errorf("wrap: %w", context.Canceled)
		return Made{w, is(w)}
	case 4:
		e := valErr{id}
		return Made{e, is(e)}
	case 5:
		o := &MyErr{id}
		j := errors.Join(base, o)
		return Made{j, func(g error) bool { return errors.Is(g, base) && errors.Is(g, o) }}
	case 6:
		w := fmt.Errorf("wrap: %w", context.DeadlineExceeded)
		return Made{w, is(w)}
	case 7:
		e := listErr{id, id}
		return Made{e, func(g error) bool { return Walk(g, func(x error) bool { return Same(x, e) }) }}
	case 8:
		e := errors.New("")
		return Made{e, is(e)}
	default:
		w := fmt.Errorf("wrap twice: %w, %w", base, &MyErr{id})
		return Made{w, func(g error) bool {
			var t *MyErr
			return errors.Is(g, w) && errors.Is(g, base) && errors.As(g, &t)
		}}
	}
}

// Max raises a to v.
func Max(a *atomic.Int64, v int64) {
	for {
		o := a.Load()
		if o >= v || a.CompareAndSwap(o, v) {
			return
		}
	}
}
