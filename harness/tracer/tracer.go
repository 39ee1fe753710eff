// Package tracer is a recording OpenTelemetry tracer that remembers every span.
package tracer

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
)

// Provider is a TracerProvider.
type Provider struct {
	embedded.TracerProvider
	clock atomic.Int64
	mu    sync.Mutex
	spans []*Span
	// Twice is called when a span is ended again.
	Twice func(s *Span)
}

type tr struct {
	embedded.Tracer
	p *Provider
}

// Span is a span.
type Span struct {
	embedded.Span
	p      *Provider
	Name   string
	Own    bool // made by the workload
	Parent *Span

	mu     sync.Mutex
	ends   int
	status codes.Code
	start  int64
	end    int64
}

// Tracer implements trace.TracerProvider.
func (p *Provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tr{p: p} }

// Start implements trace.Tracer.
func (t tr) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	ctx, s := t.p.start(ctx, name, false)
	return ctx, s
}

// Root opens a span of the workload's.
func (p *Provider) Root(ctx context.Context, name string) (context.Context, *Span) {
	return p.start(ctx, name, true)
}

func (p *Provider) start(ctx context.Context, name string, own bool) (context.Context, *Span) {
	s := &Span{p: p, Name: name, Own: own, start: p.clock.Add(1)}
	s.Parent, _ = trace.SpanFromContext(ctx).(*Span)
	p.mu.Lock()
	p.spans = append(p.spans, s)
	p.mu.Unlock()
	return trace.ContextWithSpan(ctx, s), s
}

// From returns the span in ctx, nil if there is none of this package.
func From(ctx context.Context) *Span {
	if ctx == nil {
		return nil
	}
	s, _ := trace.SpanFromContext(ctx).(*Span)
	return s
}

// Library returns the spans the library has opened, those under root if it is not nil.
func (p *Provider) Library(root *Span) (l []*Span) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.spans {
		if !s.Own && (root == nil || s.Under(root)) {
			l = append(l, s)
		}
	}
	return l
}

// Under reports whether root is the closest span of the workload's above s.
func (s *Span) Under(root *Span) bool {
	for s != nil && !s.Own {
		s = s.Parent
	}
	return s == root
}

// Ends is the number of times the span was ended.
func (s *Span) Ends() int { s.mu.Lock(); defer s.mu.Unlock(); return s.ends }

// EndedAt is the logical time of the end.
func (s *Span) EndedAt() int64 { s.mu.Lock(); defer s.mu.Unlock(); return s.end }

// StartedAt is the logical time of the start.
func (s *Span) StartedAt() int64 { return s.start }

// Failed reports whether the status is an error.
func (s *Span) Failed() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.status == codes.Error }

// End implements trace.Span.
func (s *Span) End(...trace.SpanEndOption) {
	s.mu.Lock()
	s.ends++
	n := s.ends
	if n == 1 {
		s.end = s.p.clock.Add(1)
	}
	s.mu.Unlock()
	if n > 1 && s.p.Twice != nil {
		s.p.Twice(s)
	}
}

// IsRecording implements trace.Span.
func (s *Span) IsRecording() bool { return s.Ends() == 0 }

// SetStatus implements trace.Span; as in the SDK it is ignored after the end.
func (s *Span) SetStatus(c codes.Code, _ string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ends == 0 && s.status <= c {
		s.status = c
	}
}

func (s *Span) AddEvent(string, ...trace.EventOption)   {}
func (s *Span) AddLink(trace.Link)                      {}
func (s *Span) RecordError(error, ...trace.EventOption) {}
func (s *Span) SetName(string)                          {}
func (s *Span) SetAttributes(...attribute.KeyValue)     {}
func (s *Span) SpanContext() trace.SpanContext          { return trace.SpanContext{} }
func (s *Span) TracerProvider() trace.TracerProvider    { return s.p }
func (s *Span) String() string                          { return fmt.Sprintf("span %q (ended %d times)", s.Name, s.Ends()) }
