From aa4b3c03f976ed91d169fd31c86c6f2604eff5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 01/35] fix: limited.Pool holds its slot until the job ends,
 not until Submit returns

---
 goroutines/limited/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..d3b0f47 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -160,6 +159,9 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 
 	go func() {
 		defer p.wg.Done()
+		if !opts.NonBlocking {
+			defer func() { <-p.queue }()
+		}
 		defer p.running.Add(-1)
 		runner(ctx)
 	}()
-- 
2.43.0


From 729b1bc6fc4ec12f4d560005c875edd9a29a0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 02/35] fix: Pool.Len returns the size of the pool

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index d3b0f47..63b9001 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..ae88e81 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, size: size, queue: ch}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From 3a57594102ed52a815c740900b1bfa34dfeaf42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 03/35] fix: creating a third pool with the same name does not
 loop forever

---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e05f045 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -60,7 +60,7 @@ func NewName(name string) string {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
+	sp := strings.Split(name, "-")
 	n, err := strconv.Atoi(sp[1])
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 63b9001..54b48cf 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index ae88e81..61f39e9 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -56,7 +56,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From ad7cbdab1203ab73274e7cbd9af3c29bfbe99cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 04/35] fix: register.Pools closes its channel and does not
 hold the registry lock while it is read

---
 goroutines/internal/register/register.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e05f045..5650907 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -72,13 +72,13 @@ func NewName(name string) string {
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
 func Pools() chan goroutines.Pool {
-	ch := make(chan goroutines.Pool, 1)
-	go func() {
-		mu.RLock()
-		defer mu.RUnlock()
-		for _, p := range registry {
-			ch <- p
-		}
-	}()
+	mu.RLock()
+	defer mu.RUnlock()
+
+	ch := make(chan goroutines.Pool, len(registry))
+	for _, p := range registry {
+		ch <- p
+	}
+	close(ch)
 	return ch
 }
-- 
2.43.0


From 036a8e77b08c3330cd6de566622d76a88351313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 05/35] fix: goroutines.Errors locks its readers and returns a
 copy of the list

---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From 0f98821628bff65ca4400361161f6e735436dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 06/35] fix: a non-blocking job of a pooled.Pool is not queued
 behind running jobs

---
 goroutines/pooled/goroutines.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 61f39e9..99f9c0b 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -29,6 +29,9 @@ type Pool struct {
 	metrics   pool.Metrics
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
+	// idle hands a non-blocking job to a goroutine that is waiting for work. It is not buffered,
+	// so that such a job is never queued behind a running one.
+	idle chan submit
 	name      string
 	size      int
 }
@@ -49,7 +52,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, size: size, queue: ch}
+	p := &Pool{name: name, size: size, queue: ch, idle: make(chan submit)}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -156,7 +159,7 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	p.running.Add(1)
 	if opts.NonBlocking {
 		select {
-		case p.queue <- s:
+		case p.idle <- s:
 		default:
 			go func() {
 				defer p.wg.Done()
@@ -202,7 +205,16 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 
 // runner is used to run any function that comes in on the in channel.
 func (p *Pool) runner() {
-	for s := range p.queue {
+	for {
+		var s submit
+		var ok bool
+		select {
+		case s, ok = <-p.queue:
+			if !ok {
+				return
+			}
+		case s = <-p.idle:
+		}
 		s.job(s.ctx)
 		p.running.Add(-1)
 		p.wg.Done()
-- 
2.43.0


From 18c7ec380d92844fbc74ad535995c41d8974b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 07/35] fix: wait.Group.Wait returns all errors, not only the
 last one

---
 prim/wait/wait.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..dcb25db 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From 45d3f2532712b6f719515a0341318db69b5a8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 08/35] fix: wait.Group.Running is updated before Wait can
 return

---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index dcb25db..a2d1d92 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 97d51649c9e7cf0d54a6e26879dbf8eac460950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 09/35] fix: wait.Group ends its span and gives it to all
 functions

---
 prim/wait/wait.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index a2d1d92..cd467b2 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -115,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
@@ -188,6 +189,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.Span != nil {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 737ea9693251f7f639e8cbb73465b701953f9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 10/35] fix: slices.Access accepts its options

---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..af19780 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -44,7 +44,7 @@ type SliceOption interface {
 func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...SliceOption) error {
 	spanner := span.Get(ctx)
 
-	opts := &sliceOptions{}
+	opts := sliceOptions{}
 	if err := calloptions.ApplyOptions(&opts, options); err != nil {
 		return err
 	}
-- 
2.43.0


From 7150f58697031c835f7979718be238cd8a042a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 11/35] fix: WithPoolOptions uses the pool it is given

---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 2be5b8334d0e8e1b8918d86c7caf02b7d401dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 12/35] fix: slices.Access and chans.Access wait for running
 accessors when they stop early

---
 prim/chans/chans.go  | 9 ++++++---
 prim/slices/slice.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..08570e8 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,14 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	// stopErr is set if we stop before input is closed. We still have to wait
+	// for the running accessors and their errors.
+	var stopErr error
 	for v := range input {
 		v := v
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopErr = ctx.Err(); stopErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +155,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
 
 // StreamResult is a result from a Stream operation.
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index af19780..5564ccd 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,14 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	// stopErr is set if we stop before all elements were handed out. We still have to wait
+	// for the running accessors and their errors.
+	var stopErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopErr = ctx.Err(); stopErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +90,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
-- 
2.43.0


From 8e0048366c71733b2864cf60bcfc8a959b45452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 13/35] fix: chans.Access and Modify notice cancellation while
 a channel is idle

---
 prim/chans/chans.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 08570e8..af925cb 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -134,8 +134,17 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	// stopErr is set if we stop before input is closed. We still have to wait
 	// for the running accessors and their errors.
 	var stopErr error
-	for v := range input {
-		v := v
+loop:
+	for {
+		var v T
+		var ok bool
+		select {
+		case <-ctx.Done():
+		case v, ok = <-input:
+			if !ok {
+				break loop
+			}
+		}
 
 		if stopErr = ctx.Err(); stopErr != nil {
 			break
@@ -199,7 +208,11 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 			}
 			return err
 		}
-		output <- StreamResult[R]{Value: r}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case output <- StreamResult[R]{Value: r}:
+		}
 		return nil
 	}
 
-- 
2.43.0


From ae764d34bd3570ef2c44a9b08444885e54f3c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 14/35] fix: RWValue.LoadReplace works on a value that was
 never set

---
 prim/atomics/atomics.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..db2b6a3 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -53,11 +53,9 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	if v == nil {
 		var zero T
 		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
+	} else {
+		n, err = lr(*v)
 	}
-	n, err = lr(*v)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d73764748d2ead85d49a66ca5a6ad833a226c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 15/35] fix: Pipelines.Close closes the state machine once all
 requests are processed

---
 pipelines/stagedpipe/stagedpipe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..8ef0c84 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -443,6 +443,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 			stats:         stats,
 			delayWarning:  p.delayWarning,
 			ss:            p.ss,
+			wg:            p.wg,
 		}
 
 		_, err := newPipeline(args)
@@ -649,6 +650,7 @@ type pipeline[T any] struct {
 	concurrency   int
 	delayWarning  time.Duration
 	ss            bool
+	wg            *sync.WaitGroup
 }
 
 type pipelineArgs[T any] struct {
@@ -663,6 +665,7 @@ type pipelineArgs[T any] struct {
 	num           int
 	subStages     int
 	delayWarning  time.Duration
+	wg            *sync.WaitGroup
 }
 
 // newPipeline creates a new Pipeline. A new Pipeline should be created for a new set of related
@@ -678,6 +681,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		sm:            args.sm,
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
+		wg:            args.wg,
 	}
 
 	p.concurrency = numStages[T](args.sm) + args.subStages
@@ -718,6 +722,7 @@ func (p *pipeline[T]) runner() {
 		} else {
 			p.out <- r
 		}
+		p.wg.Done()
 	}
 }
 
-- 
2.43.0


From fbac3c3e3cc23164c4c3915d42761e8b48401965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 16/35] fix: a failed Submit does not stop the output of an
 ordered RequestGroup

---
 pipelines/stagedpipe/stagedpipe.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 8ef0c84..6919e27 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -483,6 +483,10 @@ type RequestGroup[T any] struct {
 	// If set to nil, the output is not ordered.
 	ordered *demux.InOrder[uint64, Request[T]]
 
+	// submitLock is held during a Submit() when the Ordered() option is set, so that only requests
+	// that entered the Pipelines take a number. A channel, so that waiting for it can be cancelled.
+	submitLock chan struct{}
+
 	// out is the channel the demuxer will use to send us output.
 	out chan Request[T]
 	// user is the channel that we give the user to receive output. We do a little
@@ -540,6 +544,15 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	if r.submitLock != nil {
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.submitLock <- struct{}{}:
+			defer func() { <-r.submitLock }()
+		}
+	}
+
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
@@ -556,6 +569,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	select {
 	case <-req.Ctx.Done():
+		if r.submitLock != nil {
+			r.itemNum.Add(^uint64(0)) // Give the number back, or the output would wait for it.
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
@@ -603,6 +619,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
+		r.submitLock = make(chan struct{}, 1)
 		r.ordered = demux.NewInOrder(
 			func(r Request[T]) uint64 {
 				return r.itemNum
-- 
2.43.0


From 6816a57fe8969eed496d50247f814e10e1e30a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 17/35] fix: a delivered Request does not keep the stage list
 that goes back to the pool

---
 pipelines/stagedpipe/stagedpipe.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 6919e27..3b2cf71 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -744,15 +744,17 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
+	r.seenStages = nil
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			seenStagesPool.Put(seen)
+			out.seenStages = nil
 		}()
 	}
 
-- 
2.43.0


From 7dd5428107b13314064413a999c7800cdd93c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 18/35] fix: a DAG pipeline notices that Start is called again

---
 pipelines/stagedpipe/stagedpipe.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 3b2cf71..f74b1de 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -668,6 +668,7 @@ type pipeline[T any] struct {
 	delayWarning  time.Duration
 	ss            bool
 	wg            *sync.WaitGroup
+	startName     string
 }
 
 type pipelineArgs[T any] struct {
@@ -699,6 +700,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
 		wg:            args.wg,
+		startName:     startName[T](args.sm),
 	}
 
 	p.concurrency = numStages[T](args.sm) + args.subStages
@@ -766,9 +768,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, stageName := Stage[T](p.sm.Start), p.startName
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, stageName)
 		if r.Err != nil {
 			return r
 		}
@@ -778,14 +780,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 		if stage == nil {
 			return r
 		}
+		stageName = methodName(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
@@ -806,7 +807,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -842,6 +843,23 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name that methodName() gives to the Start method of sm when one of its stages
+// uses it as the next stage. methodName(sm.Start) would be the name of the method of the interface.
+func startName[T any](sm StateMachine[T]) string {
+	t := reflect.TypeOf(sm)
+	if t.Kind() == reflect.Pointer {
+		// A method with a value receiver has the name of the value's method.
+		if m, ok := t.Elem().MethodByName("Start"); ok {
+			return methodName(m.Func.Interface())
+		}
+	}
+	m, ok := t.MethodByName("Start")
+	if !ok {
+		return methodName(sm.Start)
+	}
+	return methodName(m.Func.Interface())
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From f39c86bfc592ce311da82ced40ad4799c67a205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 19/35] fix: Stats reports the minimum times instead of 0

---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..32944aa 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,17 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       minDuration(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +73,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: minDuration(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
@@ -78,6 +82,15 @@ func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	return stats
 }
 
+// minDuration returns a minimum recorded with setMin, 0 if nothing was recorded yet.
+func minDuration(min *atomic.Int64) time.Duration {
+	v := min.Load()
+	if v == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(v)
+}
+
 // setMin will set current to v if v is smaller that current.
 func setMin(current *atomic.Int64, v int64) {
 	for {
-- 
2.43.0


From ef9796b43276cf58ce7c68c51d6735d90823d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 20/35] fix: RequestGroups can be created and closed
 concurrently

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index f74b1de..f01e0df 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -405,6 +405,8 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		func(r Request[T], err error) {
 			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
 		},
+		// Without a mutex, creating and closing RequestGroups concurrently loses receivers.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From da36d3aadc14277bd40fbbf0965ecf5f830f28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 21/35] fix: the spans of RequestGroups, requests and stages
 are ended

---
 pipelines/stagedpipe/stagedpipe.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index f01e0df..379227e 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -576,6 +577,10 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		}
 		r.p.wg.Done()
 		r.wg.Done()
+		if spanner.IsRecording() {
+			spanner.Status(codes.Error, req.Ctx.Err().Error())
+			spanner.End()
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
@@ -604,6 +609,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
@@ -788,18 +794,19 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
-	parentCtx := r.Ctx
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageSpan := r.span
 
-	r.Event(stageName, "start", time.Now())
+	stageSpan.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		stageSpan.Event(stageName, "end", time.Now())
+		if stageSpan.IsRecording() {
+			stageSpan.End()
+			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
+		}
+		out.span = parentSpan
 	}()
 
 	// If the context has been cancelled, stop processing.
-- 
2.43.0


From 5cddc05476294bc75d9ba316d4c25b750f038650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 22/35] fix: queue.Pop does not report the end while a value is
 left

---
 pipelines/stagedpipe/internal/queue/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..92dc2ac 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,16 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// This must be read before the pop(), otherwise a value could be pushed between the
+		// pop() and a Close() and we would report the end before it was popped.
+		closed := q.closed.Load()
+
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From e65d5d83a18d6d84849d6311191a73a92a757d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 23/35] fix: a context cancelled while a preprocessor runs
 stops the request

The stage and the remaining preprocessors were still started.
---
 pipelines/stagedpipe/stagedpipe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 379227e..fe21bd9 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -824,6 +824,10 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string)
 
 	for _, pp := range p.preProcessors {
 		r = pp(r)
+		if r.Err == nil && r.Ctx != nil {
+			// The context may have been cancelled while the preprocessor ran.
+			r.Err = r.Ctx.Err()
+		}
 		if r.Err != nil {
 			return r
 		}
-- 
2.43.0


From ff215cdb83b3f45ee20cdcfd722c6d94e30e3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 24/35] fix: ingest stats of ordered groups include the wait
 for other submitters

---
 pipelines/stagedpipe/stagedpipe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index fe21bd9..5791be9 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -547,6 +547,8 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	req.queueTime = time.Now()
+
 	if r.submitLock != nil {
 		select {
 		case <-req.Ctx.Done():
@@ -558,7 +560,6 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
-	req.queueTime = time.Now()
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
 	r.p.wg.Add(1)
-- 
2.43.0


From 19526dcdc5715fb5d395584dda579388e493806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 25/35] fix: delivered requests carry the caller's span again,
 tracing accepts a nil Ctx

---
 pipelines/stagedpipe/stagedpipe.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5791be9..a8e9ae7 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -176,6 +176,8 @@ func (s *seenStages) reset() *seenStages {
 // Requests is a Request to be processed by a pipeline.
 type Request[T any] struct {
 	span span.Span
+	// callerSpan is the span that Ctx had in Submit().
+	callerSpan span.Span
 
 	// queueTime and ingestTime hold the times when the Request was queued and ingested.
 	queueTime, ingestTime time.Time
@@ -246,9 +248,9 @@ func (r Request[T]) Event(name string, keyValues ...any) error {
 	return r.span.Event(name, keyValues...)
 }
 
-func (r Request[T]) otelEnd() {
+func (r Request[T]) otelEnd() Request[T] {
 	if r.span.Span == nil || !r.span.Span.IsRecording() {
-		return
+		return r
 	}
 	if r.Err != nil {
 		r.span.Status(codes.Error, r.Err.Error())
@@ -263,6 +265,12 @@ func (r Request[T]) otelEnd() {
 		"elapsed_ns", time.Since(r.queueTime),
 	)
 	r.span.End()
+
+	// The Request's span cannot be the parent of others anymore.
+	if r.Ctx != nil {
+		r.Ctx = trace.ContextWithSpan(r.Ctx, r.callerSpan.Span)
+	}
+	return r
 }
 
 // StateMachine represents a state machine where the methods that implement Stage
@@ -530,6 +538,8 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		return errors.New("Request.Ctx cannot be nil")
 	}
 
+	req.callerSpan = span.Get(req.Ctx)
+
 	// If the group isn't named, name it.
 	gName := r.Name
 
@@ -639,7 +649,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
-				req.otelEnd()
+				req = req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
 				}
@@ -650,7 +660,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
-				req.otelEnd()
+				req = req.otelEnd()
 				r.user <- req
 			}
 		}()
@@ -805,7 +815,9 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string)
 		stageSpan.Event(stageName, "end", time.Now())
 		if stageSpan.IsRecording() {
 			stageSpan.End()
-			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
+			if out.Ctx != nil {
+				out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
+			}
 		}
 		out.span = parentSpan
 	}()
-- 
2.43.0


From 5ff33ab556458905dc783a910d6fa05ca48b6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 26/35] fix: stagedpipe-cli's main.go compiles whatever the
 package is called

---
 .../stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
index 573f44d..68d1a2b 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
@@ -8,7 +8,9 @@ import (
     "runtime"
 
     "github.com/gostdlib/concurrency/pipelines/stagedpipe"
-    "{{ .PackagePath }}"
+
+    // Named sm, as the name of the package could be the one of something else in here.
+    sm "{{ .PackagePath }}"
 )
 
 var parallelism = runtime.NumCPU()
@@ -20,13 +22,13 @@ func main() {
 	ctx := context.Background()
     
     // Create the StateMachine implementation that will be used in our pipeline.
-    xsm, err := {{ .PackageName }}.NewSM()
+    xsm, err := sm.NewSM()
     if err != nil {
         log.Fatalf("cannot start state machine: %s", err)
     }
 
     // Create our parallel and concurrent Pipeline from our StateMachine.
-    pipeline, err := stagedpipe.New[{{ .PackageName }}.Data]("pipeline name", parallelism, xsm)
+    pipeline, err := stagedpipe.New[sm.Data]("pipeline name", parallelism, xsm)
     if err!= nil {
         log.Fatalf("cannot create a pipeline: %s", err)
     }
@@ -83,7 +85,7 @@ func main() {
         if reqCtx.Err() != nil {
             break
         }
-        req := {{ .PackageName }}.NewRequest(reqCtx, {{ .PackageName }}.Data{Item: i})
+        req := sm.NewRequest(reqCtx, sm.Data{Item: i})
         if err := rg.Submit(req); err != nil {
             log.Fatalf("problem submitting request to the pipeline: %s", err)
             break
-- 
2.43.0


From 3d826359881f8578684d22c9d82400165e80299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 27/35] fix: stagedpipe-cli keeps the data file of packages
 called data, and names no file that the build skips

---
 .../stagedpipe/tools/stagedpipe-cli/cmd/init.go     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
index f6280b6..fc0db2b 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
@@ -8,6 +8,7 @@ import (
 	_ "embed"
 	"os"
 	"path"
+	"strings"
 	"text/template"
 
 	"github.com/spf13/cobra"
@@ -101,13 +102,23 @@ If you do not need a main.go, you can simply remove the "-m" from the command.`,
 			return err
 		}
 
-		if err := os.WriteFile(path.Base(tArgs.PackagePath)+".go", pipeBuff.Bytes(), 0o600); err != nil {
+		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600); err != nil {
 			return err
 		}
 		return nil
 	},
 }
 
+// pipelineFile returns the name of the file that holds the state machine of the package. It
+// must differ from that of the data and not read as a test or as made for one operating system.
+func pipelineFile(pkgName string) string {
+	name := strings.ReplaceAll(pkgName, "_", "")
+	if name == "" || name == "data" {
+		name = "pipeline"
+	}
+	return name + ".go"
+}
+
 func init() {
 	template.Must(tmpls.New("data").Parse(dataTmpl))
 	template.Must(tmpls.New("pipeline").Parse(pipelineTmpl))
-- 
2.43.0


From 34d8935f754fee6f39ab199caeffefc1a96d7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 28/35] fix: stagedpipe-cli also builds packages called Data

---
 pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
index fc0db2b..89f37b7 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
@@ -113,7 +113,7 @@ If you do not need a main.go, you can simply remove the "-m" from the command.`,
 // must differ from that of the data and not read as a test or as made for one operating system.
 func pipelineFile(pkgName string) string {
 	name := strings.ReplaceAll(pkgName, "_", "")
-	if name == "" || name == "data" {
+	if name == "" || strings.EqualFold(name, "data") {
 		name = "pipeline"
 	}
 	return name + ".go"
-- 
2.43.0


From 7073b45b97ef9452d3698481877bd5f8a93d43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 29/35] fix: a DAG pipeline notices a second Start that is a
 method of an embedded type

---
 pipelines/stagedpipe/stagedpipe.go | 47 +++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index a8e9ae7..f5cbf23 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -76,6 +76,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"reflect"
 	"runtime"
 	"strings"
@@ -872,18 +873,50 @@ func numStages[T any](sm any) int {
 // startName returns the name that methodName() gives to the Start method of sm when one of its stages
 // uses it as the next stage. methodName(sm.Start) would be the name of the method of the interface.
 func startName[T any](sm StateMachine[T]) string {
-	t := reflect.TypeOf(sm)
+	name, _ := startMethod(reflect.TypeOf(sm), 0)
+	if name == "" {
+		return methodName(sm.Start)
+	}
+	return name
+}
+
+// startMethod returns the name of the Start method of t, which may be the method of an embedded type,
+// and how deep that is embedded.
+func startMethod(t reflect.Type, depth int) (string, int) {
+	m, ok := t.MethodByName("Start")
 	if t.Kind() == reflect.Pointer {
+		t = t.Elem()
 		// A method with a value receiver has the name of the value's method.
-		if m, ok := t.Elem().MethodByName("Start"); ok {
-			return methodName(m.Func.Interface())
+		if vm, isValue := t.MethodByName("Start"); isValue {
+			m, ok = vm, true
 		}
 	}
-	m, ok := t.MethodByName("Start")
-	if !ok {
-		return methodName(sm.Start)
+	if !ok || t.Kind() == reflect.Interface {
+		return "", depth
+	}
+	name := methodName(m.Func.Interface())
+
+	pc := m.Func.Pointer()
+	if file, _ := runtime.FuncForPC(pc).FileLine(pc); file != "<autogenerated>" || t.Kind() != reflect.Struct || depth > 10 {
+		return name, depth
+	}
+
+	// It is promoted, from the embedded field where it is least deep.
+	least := math.MaxInt
+	for i := 0; i < t.NumField(); i++ {
+		f := t.Field(i)
+		if !f.Anonymous {
+			continue
+		}
+		ft := f.Type
+		if ft.Kind() != reflect.Pointer && ft.Kind() != reflect.Interface {
+			ft = reflect.PointerTo(ft)
+		}
+		if n, d := startMethod(ft, depth+1); n != "" && d < least {
+			name, least = n, d
+		}
 	}
-	return methodName(m.Func.Interface())
+	return name, least
 }
 
 // methodName takes a function or a method and returns its name.
-- 
2.43.0


From c4e0981056db84b4276c2f51919f362036d2cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 30/35] gofmt of pooled.Pool

---
 goroutines/pooled/goroutines.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 99f9c0b..d6f90e5 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -32,8 +32,8 @@ type Pool struct {
 	// idle hands a non-blocking job to a goroutine that is waiting for work. It is not buffered,
 	// so that such a job is never queued behind a running one.
 	idle chan submit
-	name      string
-	size      int
+	name string
+	size int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
-- 
2.43.0


From 179f0189402af83c28c92718b2cb5ade4afc60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 31/35] fix: instances of one generic stage are not taken for
 the same stage

---
 pipelines/stagedpipe/stagedpipe.go | 36 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index f5cbf23..0bce053 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -139,18 +139,25 @@ var seenStagesPool = sync.Pool{
 // cyclic errors. Implemented with a slice to reduce allocations and is faster to
 // remove elements from the slice than a map (to allow reuse). n is small, so the
 // lookup performance is negligible. This is not thread-safe (which is not needed).
-type seenStages []string
+type seenStages []seenStage
+
+// seenStage is a stage that has been called. pc tells the instances of a generic function apart,
+// as they all have the same name. It is 0 if there is only one or we don't know it.
+type seenStage struct {
+	name string
+	pc   uintptr
+}
 
 // seen returns true if the stage has been seen before. If it has not been seen,
 // it adds it to the list of seen stages.
-func (s *seenStages) seen(stage string) bool {
+func (s *seenStages) seen(stage string, pc uintptr) bool {
 	for _, st := range *s {
-		if st == stage {
+		if st.name == stage && (st.pc == pc || st.pc == 0 || pc == 0) {
 			return true
 		}
 	}
 
-	n := append(*s, stage)
+	n := append(*s, seenStage{stage, pc})
 	*s = n
 	return false
 }
@@ -162,7 +169,7 @@ func (s *seenStages) callTrace() string {
 		if i != 0 {
 			out.WriteString(" -> ")
 		}
-		out.WriteString(st)
+		out.WriteString(st.name)
 	}
 	return out.String()
 }
@@ -788,9 +795,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage, stageName := Stage[T](p.sm.Start), p.startName
+	stage, stageName, stagePC := Stage[T](p.sm.Start), p.startName, uintptr(0)
 	for {
-		r = p.execStage(r, stage, stageName)
+		r = p.execStage(r, stage, stageName, stagePC)
 		if r.Err != nil {
 			return r
 		}
@@ -800,13 +807,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 		if stage == nil {
 			return r
 		}
-		stageName = methodName(stage)
+		stageName, stagePC = methodName(stage), instancePC(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string, stagePC uintptr) (out Request[T]) {
 	parentSpan := r.span
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
 	stageSpan := r.span
@@ -830,7 +837,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string)
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(stageName) {
+		if r.seenStages.seen(stageName, stagePC) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -919,6 +926,15 @@ func startMethod(t reflect.Type, depth int) (string, int) {
 	return name, least
 }
 
+// instancePC returns what tells stage from other instances of the same generic function, 0 if it isn't one.
+func instancePC[T any](stage Stage[T]) uintptr {
+	pc := reflect.ValueOf(stage).Pointer()
+	if !strings.Contains(runtime.FuncForPC(pc).Name(), "[...]") {
+		return 0
+	}
+	return pc
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From 3794639afbd1ce81271968e514ee2f09fe012502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 32/35] fix: a job that ends with runtime.Goexit does not cost
 pooled.Pool a goroutine

---
 goroutines/pooled/goroutines.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index d6f90e5..0811f65 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -205,22 +205,36 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 
 // runner is used to run any function that comes in on the in channel.
 func (p *Pool) runner() {
+	// A job can end our goroutine with runtime.Goexit(), the next job then needs a new one.
+	closed := false
+	defer func() {
+		if !closed {
+			go p.runner()
+		}
+	}()
+
 	for {
 		var s submit
 		var ok bool
 		select {
 		case s, ok = <-p.queue:
 			if !ok {
+				closed = true
 				return
 			}
 		case s = <-p.idle:
 		}
-		s.job(s.ctx)
-		p.running.Add(-1)
-		p.wg.Done()
+		p.run(s)
 	}
 }
 
+// run runs a job. The job counts as ended however it ends.
+func (p *Pool) run(s submit) {
+	defer p.wg.Done()
+	defer p.running.Add(-1)
+	s.job(s.ctx)
+}
+
 func (p *Pool) callerName(opts pool.SubmitOptions) string {
 	if opts.Caller != "" {
 		return opts.Caller
-- 
2.43.0


From af19f8bd330baeb3379b8f87f1128c9f30bf9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 33/35] fix: every request span of an unnamed RequestGroup says
 it is unnamed

---
 pipelines/stagedpipe/stagedpipe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 0bce053..8444122 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -550,12 +550,11 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	// If the group isn't named, name it.
 	gName := r.Name
+	if gName == "" {
+		gName = "unnamed"
+	}
 
 	r.startOnce.Do(func() {
-		if r.Name == "" {
-			gName = "unnamed"
-		}
-
 		req.Ctx, r.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", gName))
 
 		// Record the time the first request was submitted.
-- 
2.43.0


From c82972efb107b3a5ef80424a6099df1091436463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 34/35] fix: a Queue does not keep every value it ever held

---
 pipelines/stagedpipe/internal/queue/queue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 92dc2ac..84c4189 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -82,14 +82,14 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 // simple is a simple lock free queue using 1.19's atomic.Pointer.
 type simple[A any] struct {
-	head  atomic.Pointer[node[A]]
-	tail  atomic.Pointer[node[A]]
-	dummy node[A]
+	head atomic.Pointer[node[A]]
+	tail atomic.Pointer[node[A]]
 }
 
 func newSimple[A any]() *simple[A] {
 	var s simple[A]
-	s.head.Store(&s.dummy)
+	// Not a field of simple, which would keep all entries that ever follow it from being collected.
+	s.head.Store(&node[A]{})
 	s.tail.Store(s.head.Load())
 	return &s
 }
-- 
2.43.0


From 6618ad88f7058395107cf5945a08e02e87cb5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 35/35] fix: a stagedpipe.New that fails stops its
 demultiplexer

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 8444122..d6c89ca 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -444,6 +444,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 
 	for _, o := range options {
 		if err := o(p); err != nil {
+			close(out) // Stops the demuxer.
 			return nil, err
 		}
 	}
@@ -468,6 +469,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		_, err := newPipeline(args)
 		if err != nil {
 			close(in)
+			close(out) // Stops the demuxer.
 			return nil, err
 		}
 	}
-- 
2.43.0

