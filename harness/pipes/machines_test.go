package pipes

import (
	"sync/atomic"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

// D is the data of a request. Rec is the monitor's record of it.
type D struct {
	ID  int
	Rec *rec
	// Acc and N are what the stages leave in the request.
	Acc uint64
	N   int
	// PP counts the preprocessor calls.
	PP int
	// Pad makes the data big enough to be copied in pieces.
	Pad [6]uint64
}

type (
	req   = stagedpipe.Request[D]
	stage = stagedpipe.Stage[D]
)

// machine is a state machine with n stages, number 0 is Start.
type machine interface {
	stagedpipe.StateMachine[D]
	at(i int) stage
	n() int
	options() []stagedpipe.Option[D]
}

// ptrSM has pointer receivers.
type ptrSM struct{ e *engine }

func (m *ptrSM) Start(r req) req { return m.e.step(0, r) }
func (m *ptrSM) S1(r req) req    { return m.e.step(1, r) }
func (m *ptrSM) S2(r req) req    { return m.e.step(2, r) }
func (m *ptrSM) S3(r req) req    { return m.e.step(3, r) }
func (m *ptrSM) S4(r req) req    { return m.e.step(4, r) }
func (m *ptrSM) S5(r req) req    { return m.e.step(5, r) }
func (m *ptrSM) S6(r req) req    { return m.e.step(6, r) }

// hidden is a stage, but not an exported method.
func (m *ptrSM) hidden(r req) req { return m.e.step(7, r) }

// These have other signatures.
func (m *ptrSM) Other(int) int                                                    { return 0 }
func (m *ptrSM) Pair(r req) (req, error)                                          { return r, nil }
func (m *ptrSM) Ptr(r *req) *req                                                  { return r }
func (m *ptrSM) Two(r, q req) req                                                 { return r }
func (m *ptrSM) Close()                                                           { m.e.smClose() }
func (m *ptrSM) n() int                                                           { return 8 }
func (m *ptrSM) options() (l []stagedpipe.Option[D])                              { return nil }
func (m *ptrSM) StrStage(r stagedpipe.Request[string]) stagedpipe.Request[string] { return r }
func (m *ptrSM) at(i int) stage {
	switch i {
	case 0:
		return m.Start
	case 1:
		return m.S1
	case 2:
		return m.S2
	case 3:
		return m.S3
	case 4:
		return m.S4
	case 5:
		return m.S5
	case 6:
		return m.S6
	case 7:
		return m.hidden
	}
	return nil
}

// at2 is at from other places in the code.
func (m *ptrSM) at2(i int) stage {
	s1, s2 := m.S1, m.S2
	fs := []stage{m.Start, s1, s2, (*m).S3, m.S4, m.S5, m.S6, m.hidden}
	return fs[i]
}

// valSM has value receivers and is used as a value.
type valSM struct {
	e *engine
	x [3]int
}

func (m valSM) Start(r req) req                 { return m.e.step(0, r) }
func (m valSM) S1(r req) req                    { return m.e.step(1, r) }
func (m valSM) S2(r req) req                    { return m.e.step(2, r) }
func (m valSM) Close()                          { m.e.smClose() }
func (m valSM) n() int                          { return 3 }
func (m valSM) options() []stagedpipe.Option[D] { return nil }
func (m valSM) at(i int) stage                  { return []stage{m.Start, m.S1, m.S2}[i] }

// mixSM has both kinds of receivers and is used through a pointer.
type mixSM struct{ e *engine }

func (m mixSM) Start(r req) req                  { return m.e.step(0, r) }
func (m *mixSM) S1(r req) req                    { return m.e.step(1, r) }
func (m mixSM) S2(r req) req                     { return m.e.step(2, r) }
func (m *mixSM) S3(r req) req                    { return m.e.step(3, r) }
func (m *mixSM) Close()                          { m.e.smClose() }
func (m *mixSM) n() int                          { return 4 }
func (m *mixSM) options() []stagedpipe.Option[D] { return nil }
func (m *mixSM) at(i int) stage {
	switch i {
	case 0:
		return m.Start
	case 1:
		return m.S1
	case 2:
		return m.S2
	}
	return m.S3
}

// subSM has most of its stages in other objects.
type subSM struct {
	e *engine
	a *subA
	b subB
}

type subA struct{ m *subSM }
type subB struct{ m *subSM }

func (s *subA) S1(r req) req   { return s.m.e.step(2, r) }
func (s *subA) S2(r req) req   { return s.m.e.step(3, r) }
func (s *subA) Help(r req) int { return 0 }
func (s subB) S1(r req) req    { return s.m.e.step(4, r) }

func newSubSM(e *engine) *subSM {
	m := &subSM{e: e}
	m.a = &subA{m}
	m.b = subB{m}
	return m
}

func (m *subSM) Start(r req) req { return m.e.step(0, r) }
func (m *subSM) S1(r req) req    { return m.e.step(1, r) }
func (m *subSM) Close()          { m.e.smClose() }
func (m *subSM) n() int          { return 5 }
func (m *subSM) options() []stagedpipe.Option[D] {
	return []stagedpipe.Option[D]{stagedpipe.CountSubStages[D](m.a), stagedpipe.CountSubStages[D](m.b)}
}
func (m *subSM) at(i int) stage {
	switch i {
	case 0:
		return m.Start
	case 1:
		return m.S1
	case 2:
		return m.a.S1
	case 3:
		return m.a.S2
	}
	return m.b.S1
}

// sub2SM counts its objects in one option.
type sub2SM struct{ *subSM }

func (m sub2SM) Start(r req) req { return m.subSM.e.step(0, r) }
func (m sub2SM) S1(r req) req    { return m.subSM.e.step(1, r) }
func (m sub2SM) options() []stagedpipe.Option[D] {
	return []stagedpipe.Option[D]{stagedpipe.CountSubStages[D](m.subSM.a, m.subSM.b)}
}
func (m sub2SM) at(i int) stage {
	switch i {
	case 0:
		return m.Start
	case 1:
		return m.S1
	}
	return m.subSM.at(i)
}

// unusedA and unusedB have stages that are only counted.
type unusedA struct{}

func (unusedA) S1(r req) req { panic("not a stage that is used") }

type unusedB struct{ unusedA }

func (*unusedB) S2(r req) req { panic("not a stage that is used") }

// oneSM has only Start.
type oneSM struct{ e *engine }

func (m *oneSM) Start(r req) req                 { return m.e.step(0, r) }
func (m *oneSM) Close()                          { m.e.smClose() }
func (m *oneSM) n() int                          { return 1 }
func (m *oneSM) options() []stagedpipe.Option[D] { return nil }
func (m *oneSM) at(i int) stage                  { return m.Start }

// baseSM is embedded in others, which do not have a Start of their own.
type baseSM struct{ e *engine }

func (b *baseSM) Start(r req) req { return b.e.step(0, r) }
func (b *baseSM) S1(r req) req    { return b.e.step(1, r) }
func (b *baseSM) Close()          { b.e.smClose() }

// decoy has a Start that is embedded deeper.
type decoy struct{ decoy2 }
type decoy2 struct{}

func (decoy2) Start(r req) req { panic("never called") }
func (decoy2) Other()          {}

type midSM struct {
	decoy
	*baseSM
}

// embSM gets Start and Close from the embedded type of an embedded type.
type embSM struct {
	midSM
	x *atomic.Int64
}

func (m *embSM) S2(r req) req                    { return m.e.step(2, r) }
func (m embSM) S3(r req) req                     { return m.e.step(3, r) }
func (m *embSM) n() int                          { return 4 }
func (m *embSM) options() []stagedpipe.Option[D] { return nil }
func (m *embSM) at(i int) stage {
	switch i {
	case 0:
		if m.x.Add(1)%2 == 0 {
			return m.baseSM.Start
		}
		return m.Start
	case 1:
		return m.midSM.S1
	case 2:
		return m.S2
	}
	return m.S3
}

// genSub has the stages of a genericsSM, whose instances have the same names.
type genSub[X any] struct {
	m *genericsSM
	i int
	x X
}

func (s *genSub[X]) S1(r req) req { return s.m.e.step(s.i, r) }
func (s *genSub[X]) Not(X) X      { return s.x }

// genericsSM uses instances of generic types and functions, and plain functions.
type genericsSM struct {
	e *engine
	a *genSub[int]
	b *genSub[string]
	c *genSub[*D]
}

func genFunc[X any](r req) req {
	var x X
	switch any(x).(type) {
	case int:
		return r.Data.Rec.eng.step(4, r)
	default:
		return r.Data.Rec.eng.step(5, r)
	}
}

func plainFunc(r req) req { return r.Data.Rec.eng.step(6, r) }

var litFunc = func(r req) req { return r.Data.Rec.eng.step(7, r) }

func newGenericsSM(e *engine) *genericsSM {
	m := &genericsSM{e: e}
	m.a, m.b, m.c = &genSub[int]{m: m, i: 1}, &genSub[string]{m: m, i: 2}, &genSub[*D]{m: m, i: 3}
	return m
}

func (m *genericsSM) Start(r req) req { return m.e.step(0, r) }
func (m *genericsSM) Close()          { m.e.smClose() }
func (m *genericsSM) n() int          { return 8 }
func (m *genericsSM) options() []stagedpipe.Option[D] {
	return []stagedpipe.Option[D]{stagedpipe.CountSubStages[D](m.a, m.b, m.c)}
}
func (m *genericsSM) at(i int) stage {
	switch i {
	case 0:
		return m.Start
	case 1:
		return m.a.S1
	case 2:
		return m.b.S1
	case 3:
		return m.c.S1
	case 4:
		return genFunc[int]
	case 5:
		return genFunc[string]
	case 6:
		return plainFunc
	}
	return litFunc
}

// bigSM has many stages.
type bigSM struct{ e *engine }

func (m *bigSM) Start(r req) req                 { return m.e.step(0, r) }
func (m *bigSM) T1(r req) req                    { return m.e.step(1, r) }
func (m *bigSM) T2(r req) req                    { return m.e.step(2, r) }
func (m *bigSM) T3(r req) req                    { return m.e.step(3, r) }
func (m *bigSM) T4(r req) req                    { return m.e.step(4, r) }
func (m *bigSM) T5(r req) req                    { return m.e.step(5, r) }
func (m *bigSM) T6(r req) req                    { return m.e.step(6, r) }
func (m *bigSM) T7(r req) req                    { return m.e.step(7, r) }
func (m *bigSM) T8(r req) req                    { return m.e.step(8, r) }
func (m *bigSM) T9(r req) req                    { return m.e.step(9, r) }
func (m *bigSM) T10(r req) req                   { return m.e.step(10, r) }
func (m *bigSM) T11(r req) req                   { return m.e.step(11, r) }
func (m *bigSM) T12(r req) req                   { return m.e.step(12, r) }
func (m *bigSM) T13(r req) req                   { return m.e.step(13, r) }
func (m *bigSM) T14(r req) req                   { return m.e.step(14, r) }
func (m *bigSM) T15(r req) req                   { return m.e.step(15, r) }
func (m *bigSM) T16(r req) req                   { return m.e.step(16, r) }
func (m *bigSM) T17(r req) req                   { return m.e.step(17, r) }
func (m *bigSM) T18(r req) req                   { return m.e.step(18, r) }
func (m *bigSM) T19(r req) req                   { return m.e.step(19, r) }
func (m *bigSM) T20(r req) req                   { return m.e.step(20, r) }
func (m *bigSM) T21(r req) req                   { return m.e.step(21, r) }
func (m *bigSM) T22(r req) req                   { return m.e.step(22, r) }
func (m *bigSM) T23(r req) req                   { return m.e.step(23, r) }
func (m *bigSM) T24(r req) req                   { return m.e.step(24, r) }
func (m *bigSM) T25(r req) req                   { return m.e.step(25, r) }
func (m *bigSM) T26(r req) req                   { return m.e.step(26, r) }
func (m *bigSM) T27(r req) req                   { return m.e.step(27, r) }
func (m *bigSM) T28(r req) req                   { return m.e.step(28, r) }
func (m *bigSM) T29(r req) req                   { return m.e.step(29, r) }
func (m *bigSM) T30(r req) req                   { return m.e.step(30, r) }
func (m *bigSM) T31(r req) req                   { return m.e.step(31, r) }
func (m *bigSM) T32(r req) req                   { return m.e.step(32, r) }
func (m *bigSM) T33(r req) req                   { return m.e.step(33, r) }
func (m *bigSM) T34(r req) req                   { return m.e.step(34, r) }
func (m *bigSM) T35(r req) req                   { return m.e.step(35, r) }
func (m *bigSM) T36(r req) req                   { return m.e.step(36, r) }
func (m *bigSM) T37(r req) req                   { return m.e.step(37, r) }
func (m *bigSM) T38(r req) req                   { return m.e.step(38, r) }
func (m *bigSM) T39(r req) req                   { return m.e.step(39, r) }
func (m *bigSM) Close()                          { m.e.smClose() }
func (m *bigSM) n() int                          { return 40 }
func (m *bigSM) options() []stagedpipe.Option[D] { return nil }
func (m *bigSM) at(i int) stage {
	return []stage{m.Start, m.T1, m.T2, m.T3, m.T4, m.T5, m.T6, m.T7, m.T8, m.T9, m.T10, m.T11, m.T12, m.T13, m.T14, m.T15, m.T16, m.T17, m.T18, m.T19, m.T20, m.T21, m.T22, m.T23, m.T24, m.T25, m.T26, m.T27, m.T28, m.T29, m.T30, m.T31, m.T32, m.T33, m.T34, m.T35, m.T36, m.T37, m.T38, m.T39}[i]
}

// sub12 has twelve stages.
type sub12 struct {
	m   *wideSM
	off int
}

func (s *sub12) U0(r req) req  { return s.m.e.step(s.off+0, r) }
func (s *sub12) U1(r req) req  { return s.m.e.step(s.off+1, r) }
func (s *sub12) U2(r req) req  { return s.m.e.step(s.off+2, r) }
func (s *sub12) U3(r req) req  { return s.m.e.step(s.off+3, r) }
func (s *sub12) U4(r req) req  { return s.m.e.step(s.off+4, r) }
func (s *sub12) U5(r req) req  { return s.m.e.step(s.off+5, r) }
func (s *sub12) U6(r req) req  { return s.m.e.step(s.off+6, r) }
func (s *sub12) U7(r req) req  { return s.m.e.step(s.off+7, r) }
func (s *sub12) U8(r req) req  { return s.m.e.step(s.off+8, r) }
func (s *sub12) U9(r req) req  { return s.m.e.step(s.off+9, r) }
func (s *sub12) U10(r req) req { return s.m.e.step(s.off+10, r) }
func (s *sub12) U11(r req) req { return s.m.e.step(s.off+11, r) }

// wideSM has nearly all its stages in two objects.
type wideSM struct {
	e    *engine
	a, b *sub12
}

func newWideSM(e *engine) *wideSM {
	m := &wideSM{e: e}
	m.a, m.b = &sub12{m, 1}, &sub12{m, 13}
	return m
}

func (m *wideSM) Start(r req) req { return m.e.step(0, r) }
func (m *wideSM) Close()          { m.e.smClose() }
func (m *wideSM) n() int          { return 25 }
func (m *wideSM) options() []stagedpipe.Option[D] {
	return []stagedpipe.Option[D]{stagedpipe.CountSubStages[D](m.a), stagedpipe.CountSubStages[D](m.b)}
}
func (m *wideSM) at(i int) stage {
	if i == 0 {
		return m.Start
	}
	s := m.a
	if i--; i >= 12 {
		s = m.b
		i -= 12
	}
	return []stage{s.U0, s.U1, s.U2, s.U3, s.U4, s.U5, s.U6, s.U7, s.U8, s.U9, s.U10, s.U11}[i]
}

// newMachine makes machine kind and returns how many stages count for its concurrency.
func newMachine(kind int, e *engine) (machine, int) {
	switch kind {
	case 0:
		return &ptrSM{e}, 7
	case 1:
		return valSM{e: e}, 3
	case 2:
		return &mixSM{e}, 4
	case 3:
		return newSubSM(e), 5
	case 4:
		return sub2SM{newSubSM(e)}, 5
	case 6:
		return &embSM{midSM: midSM{baseSM: &baseSM{e}}, x: &atomic.Int64{}}, 4
	case 7:
		return newGenericsSM(e), 4
	case wide:
		return newWideSM(e), 25
	case big:
		return &bigSM{e}, 40
	}
	return &oneSM{e}, 1
}

const kinds = 8

// The machines with many stages are not among the first kinds.
const (
	big  = 100
	wide = 101
)
