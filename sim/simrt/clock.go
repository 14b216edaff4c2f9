package simrt

import "time"

// Simulated time: one microsecond per step, what tasks sleep when nothing else
// can run, and what the plan lets pass.

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// slept is the part of the time that is not steps.
var slept time.Duration

//go:noinline
func elapsed() time.Duration { return slept + time.Duration(s.res.Steps)*time.Microsecond }

//go:noinline
func Now() time.Time {
	if !active {
		return epoch.Add(-time.Hour)
	}
	return epoch.Add(elapsed())
}

//go:noinline
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:noinline
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Advance lets time pass at once.
//
//go:noinline
func Advance(d time.Duration) {
	if !active {
		return
	}
	slept += d
	s.wakeSleepers()
}

//go:noinline
func Sleep(d time.Duration) {
	if !active {
		return
	}
	t := s.cur
	if t.dying || t.noPre > 0 {
		return
	}
	if d <= 0 {
		Pause()
		return
	}
	progress++
	t.until = elapsed() + d
	t.state = stSleep
	s.sleepers++
	s.due = min(s.due, t.until)
	s.wait(t)
	t.state = stRun
}

// A timer is something due, of the code under test.
type timer struct {
	until time.Duration
	every time.Duration
	f     func()
	c     chan time.Time
	on    bool
}

// Timer stands for time.Timer.
type Timer struct {
	C <-chan time.Time
	t timer
}

// Ticker stands for time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t timer
}

//go:noinline
func (t *timer) start(d time.Duration) {
	if !active {
		return
	}
	t.until = elapsed() + d
	if !t.on {
		t.on = true
		s.timers = append(s.timers, t)
	}
	s.due = min(s.due, t.until)
	s.wakeSleepers()
}

//go:noinline
func (t *timer) stop() bool {
	was := t.on
	t.on = false
	if s != nil {
		for i, x := range s.timers {
			if x == t {
				// One by one: copying at once would be seen by the race detector
				l := make([]*timer, 0, len(s.timers))
				for j, y := range s.timers {
					if j != i {
						l = append(l, y)
					}
				}
				s.timers = l
				break
			}
		}
	}
	return was
}

//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{t: timer{f: f}}
	t.t.start(d)
	return t
}

//go:noinline
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, t: timer{c: c}}
	t.t.start(d)
	return t
}

//go:noinline
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:noinline
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, t: timer{c: c, every: d}}
	t.t.start(d)
	return t
}

//go:noinline
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

//go:noinline
func (t *Timer) Stop() bool {
	was := t.t.stop()
	t.t.drain()
	return was
}

//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.stop()
	t.t.drain()
	t.t.start(d)
	return was
}

//go:noinline
func (t *Ticker) Stop() { t.t.stop(); t.t.drain() }

//go:noinline
func (t *Ticker) Reset(d time.Duration) {
	t.t.stop()
	t.t.every = d
	t.t.drain()
	t.t.start(d)
}

//go:noinline
func (t *timer) drain() {
	if t.c != nil {
		raceOff()
		select {
		case <-t.c:
		default:
		}
		raceOn()
	}
}

//go:noinline
func (t *timer) fire() {
	if t.every > 0 {
		t.until += t.every
		if n := elapsed(); t.until <= n {
			t.until = n + t.every
		}
	} else {
		t.stop()
	}
	if t.c != nil {
		raceOff()
		select {
		case t.c <- epoch.Add(elapsed()):
		default:
		}
		raceOn()
		WakeAll(chanKey)
		return
	}
	Go(t.f)
}

// wakeSleepers makes runnable what is due.
//
//go:noinline
func (s *sched) wakeSleepers() {
	if s.sleepers == 0 && len(s.timers) == 0 || s.waking {
		return
	}
	n := elapsed()
	if n < s.due {
		return
	}
	s.waking = true
	s.due = 1<<63 - 1
	for _, t := range s.tasks {
		if t.state != stSleep {
			continue
		}
		if t.until <= n {
			t.state = stRun
			s.sleepers--
		} else {
			s.due = min(s.due, t.until)
		}
	}
	for i := 0; i < len(s.timers); i++ {
		t := s.timers[i]
		if t.until <= n {
			t.fire()
			if !t.on {
				i--
				continue
			}
		}
		s.due = min(s.due, t.until)
	}
	s.waking = false
}

// jump lets the time pass until something is due that happens within d.
//
//go:noinline
func (s *sched) jump(d time.Duration) bool {
	n := elapsed()
	next := n + d + 1
	for _, t := range s.tasks {
		if t.state == stSleep && t.until < next {
			next = t.until
		}
	}
	for _, t := range s.timers {
		if t.until < next {
			next = t.until
		}
	}
	if next > n+d {
		return false
	}
	slept += next - n
	s.wakeSleepers()
	return true
}
