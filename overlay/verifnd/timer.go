package verifnd

import (
	"sync"
	"time"
)

// Timer stands in for time.Timer and Ticker for time.Ticker: what they do
// happens when time passes, as for sleepers.
type Timer struct {
	C   <-chan time.Time
	mu  sync.Mutex
	c   chan time.Time
	f   func()
	d   time.Duration
	gen int
	on  bool
}

type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// daemon keeps the goroutine out of Blocked.
func daemon() {}

func (t *Timer) wait(gen int) {
	daemon()
	time.Sleep(t.d)
	t.mu.Lock()
	fire := t.on && t.gen == gen
	if fire {
		t.on = false
	}
	t.mu.Unlock()
	if fire {
		t.fire()
	}
}

func (t *Timer) fire() {
	if t.f != nil {
		t.f()
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}

func (t *Timer) set(d time.Duration) bool {
	t.mu.Lock()
	was := t.on
	t.gen++
	t.on, t.d = true, d
	gen := t.gen
	t.mu.Unlock()
	if Symbolic() {
		go t.wait(gen)
	} else {
		if d > 200*time.Millisecond && running {
			d = 200 * time.Millisecond
		}
		time.AfterFunc(d, func() {
			t.mu.Lock()
			fire := t.on && t.gen == gen
			if fire {
				t.on = false
			}
			t.mu.Unlock()
			if fire {
				t.fire()
			}
		})
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return t.set(d)
}

func (t *Timer) Stop() bool {
	t.mu.Lock()
	was := t.on
	t.on = false
	t.mu.Unlock()
	return was
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.set(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.set(d)
	return t
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.f = func() {
		select {
		case c <- Now():
		default:
		}
		t.set(t.d)
	}
	t.set(d)
	return &Ticker{c, t}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) Stop() { t.t.Stop() }

func (t *Ticker) Reset(d time.Duration) { t.t.set(d) }

// Cond stands in for sync.Cond.
type Cond struct {
	L  sync.Locker
	mu sync.Mutex
	w  []chan struct{}
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.w = append(c.w, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.w) > 0 {
		close(c.w[0])
		c.w = c.w[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, ch := range c.w {
		close(ch)
	}
	c.w = nil
	c.mu.Unlock()
}

// Map stands in for sync.Map.
type Map struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	m.m[k] = v
	return true
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	delete(m.m, k)
	return true
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	type kv struct{ k, v interface{} }
	var l []kv
	m.mu.Lock()
	for k, v := range m.m {
		l = append(l, kv{k, v})
	}
	m.mu.Unlock()
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}

// Is stands in for errors.Is.
func Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if i, ok := err.(interface{ Is(error) bool }); ok && i.Is(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}
