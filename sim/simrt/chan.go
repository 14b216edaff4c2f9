package simrt

import (
	"reflect"
	"unsafe"
)

// Channels of the code under test. Buffers stay in the real channels, on which
// only operations that do not block are performed; tasks wait in the
// scheduler, and unbuffered channels meet here.

// chanKey is what every task that waits for a channel is parked on.
const chanKey = 1

// SelCase is one case of a select statement.
type SelCase interface {
	id() unsafe.Pointer // of the channel; nil: never ready
	send() bool
	meets() bool // unbuffered
	try() bool   // performs the operation if that needs no waiting
	val() any    // what is sent
	put(any)     // receives it
	real() reflect.SelectCase
	done(v reflect.Value, ok bool)
}

// RecvC receives.
type RecvC[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

//go:noinline
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

//go:noinline
func chanID[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:noinline
func (c *RecvC[T]) id() unsafe.Pointer { return chanID(c.ch) }

//go:noinline
func (c *RecvC[T]) send() bool { return false }

//go:noinline
func (c *RecvC[T]) meets() bool { return cap(c.ch) == 0 }

//go:noinline
func (c *RecvC[T]) val() any { return nil }

//go:noinline
func (c *RecvC[T]) put(v any) { c.v, _ = v.(T); c.ok = true }

//go:noinline
func (c *RecvC[T]) try() bool {
	select {
	case c.v, c.ok = <-c.ch:
		return true
	default:
		return false
	}
}

//go:noinline
func (c *RecvC[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

//go:noinline
func (c *RecvC[T]) done(v reflect.Value, ok bool) {
	c.ok = ok
	if ok {
		c.v, _ = v.Interface().(T)
	}
}

// Val is what was received.
//
//go:noinline
func (c *RecvC[T]) Val() T { return c.v }

// Val2 is what was received, and whether it was sent by somebody.
//
//go:noinline
func (c *RecvC[T]) Val2() (T, bool) { return c.v, c.ok }

// SendC sends.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

// SendCase evaluates the channel first, then what is sent.
//
//go:noinline
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch, v} }
}

//go:noinline
func (c *SendC[T]) id() unsafe.Pointer { return chanID(c.ch) }

//go:noinline
func (c *SendC[T]) send() bool { return true }

//go:noinline
func (c *SendC[T]) meets() bool { return cap(c.ch) == 0 }

//go:noinline
func (c *SendC[T]) val() any { return c.v }

//go:noinline
func (c *SendC[T]) put(any) {}

//go:noinline
func (c *SendC[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

//go:noinline
func (c *SendC[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

//go:noinline
func (c *SendC[T]) done(reflect.Value, bool) {}

// meeting is one case of a task that waits at an unbuffered channel.
type meeting struct {
	next *meeting
	w    *waiting
	ix   int
	c    SelCase
	id   unsafe.Pointer
	send bool
	a, b uint64 // what the race detector orders
}

type waiting struct {
	t    *Task
	over bool // served, or no longer waiting
	by   *meeting
}

// Select performs one of the operations, -1 if there is a default and none is
// ready.
//
//go:noinline
func Select(hasDefault bool, cs ...SelCase) int {
	if !active {
		return realSelect(hasDefault, cs)
	}
	YM(30)
	for {
		t := s.cur
		t.mapCtr++
		first := 0
		if len(cs) > 1 {
			first = int(Mix(s.cfg.Seed, 8, uint64(t.ID), t.mapCtr) % uint64(len(cs)))
		}
		for j := range cs {
			i := (first + j) % len(cs)
			c := cs[i]
			if c.id() == nil {
				continue
			}
			if c.try() || c.meets() && meet(c) {
				WakeAll(chanKey)
				YM(31)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		w := &waiting{t: t}
		for i, c := range cs {
			if c.id() != nil && c.meets() {
				m := &meeting{next: s.meetings, w: w, ix: i, c: c, id: c.id(), send: c.send()}
				RaceRelease(unsafe.Pointer(&m.a))
				s.meetings = m
			}
		}
		Block(chanKey)
		done := w.over
		w.over = true
		s.tidy()
		if done {
			RaceAcquire(unsafe.Pointer(&w.by.b))
			YM(31)
			return w.by.ix
		}
	}
}

// meet serves somebody who waits at the other end.
//
//go:noinline
func meet(c SelCase) bool {
	for m := s.meetings; m != nil; m = m.next {
		if m.w.over || m.w.t == s.cur || m.w.t.state == stDone || m.id != c.id() || m.send == c.send() {
			continue
		}
		m.w.over, m.w.by = true, m
		RaceAcquire(unsafe.Pointer(&m.a))
		if c.send() {
			m.c.put(c.val())
		} else {
			c.put(m.c.val())
		}
		RaceRelease(unsafe.Pointer(&m.b))
		return true
	}
	return false
}

//go:noinline
func (s *sched) tidy() {
	for p := &s.meetings; *p != nil; {
		if (*p).w.over {
			*p = (*p).next
		} else {
			p = &(*p).next
		}
	}
}

//go:noinline
func realSelect(hasDefault bool, cs []SelCase) int {
	var l []reflect.SelectCase
	for _, c := range cs {
		l = append(l, c.real())
	}
	if hasDefault {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i >= len(cs) {
		return -1
	}
	cs[i].done(v, ok)
	return i
}

// SendTo is ch <- v.
//
//go:noinline
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !active {
			ch <- v
			return
		}
		Select(false, SendCase(ch)(v))
	}
}

// Recv is <-ch.
//
//go:noinline
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:noinline
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.v, c.ok
}

// Close is close(ch).
//
//go:noinline
func Close[T any](ch chan<- T) {
	close(ch)
	WakeAll(chanKey)
}
