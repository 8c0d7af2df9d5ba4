// Package zzsync replaces sync under schedule exploration: every primitive is
// built from channels, so that blocking is visible to the engine's scheduler
// and, in native replay, to testing/synctest.
package zzsync

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	held bool
	q    []chan struct{}
}

func (m *Mutex) Lock() {
	if !m.held {
		m.held = true
		return
	}
	c := make(chan struct{}, 1)
	m.q = append(m.q, c)
	<-c
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.q) > 0 {
		c := m.q[0]
		m.q = m.q[1:]
		c <- struct{}{} // ownership passes to the waiter
		return
	}
	m.held = false
}

type waitRW struct {
	c     chan struct{}
	write bool
}

type RWMutex struct {
	readers int
	writer  bool
	q       []waitRW
}

func (m *RWMutex) grant() {
	for len(m.q) > 0 {
		w := m.q[0]
		if w.write {
			if m.readers > 0 || m.writer {
				return
			}
			m.writer = true
			m.q = m.q[1:]
			w.c <- struct{}{}
			return
		}
		if m.writer {
			return
		}
		m.readers++
		m.q = m.q[1:]
		w.c <- struct{}{}
	}
}

func (m *RWMutex) Lock() {
	if m.readers == 0 && !m.writer && len(m.q) == 0 {
		m.writer = true
		return
	}
	c := make(chan struct{}, 1)
	m.q = append(m.q, waitRW{c, true})
	<-c
}

func (m *RWMutex) TryLock() bool {
	if m.readers == 0 && !m.writer && len(m.q) == 0 {
		m.writer = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.grant()
}

func (m *RWMutex) RLock() {
	if !m.writer && len(m.q) == 0 {
		m.readers++
		return
	}
	c := make(chan struct{}, 1)
	m.q = append(m.q, waitRW{c, false})
	<-c
}

func (m *RWMutex) TryRLock() bool {
	if !m.writer && len(m.q) == 0 {
		m.readers++
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.grant()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	q []chan struct{}
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, c := range w.q {
			c <- struct{}{}
		}
		w.q = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if w.n == 0 {
		return
	}
	c := make(chan struct{}, 1)
	w.q = append(w.q, c)
	<-c
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Cond struct {
	L Locker
	q []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{}, 1)
	c.q = append(c.q, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		ch := c.q[0]
		c.q = c.q[1:]
		ch <- struct{}{}
	}
}

func (c *Cond) Broadcast() {
	for len(c.q) > 0 {
		c.Signal()
	}
}

type Map struct {
	m map[interface{}]interface{}
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.init()
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.init()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { delete(m.m, k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.init()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	type kv struct{ k, v interface{} }
	var l []kv
	for k, v := range m.m {
		l = append(l, kv{k, v})
	}
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}

func (m *Map) Clear() { m.m = nil }
