package sim

import "unsafe"

// The lock types mirror package sync, including writer preference of RWMutex
// and the fact that TryLock fails while a writer is waiting.

type Mutex struct {
	run    uint64
	locked bool
	tok    byte
}

func (m *Mutex) fresh() {
	if m.run != runID {
		m.run, m.locked = runID, false
	}
}

//go:noinline
func (m *Mutex) Lock() {
	m.fresh()
	if killing {
		return
	}
	if cur == nil {
		m.locked = true
		return
	}
	syncPoint()
	if m.locked {
		block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tok))
}

//go:noinline
func (m *Mutex) TryLock() bool {
	m.fresh()
	if killing {
		return true
	}
	if cur != nil {
		syncPoint()
	}
	if m.locked {
		return false
	}
	m.locked = true
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tok))
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	m.fresh()
	if killing {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.tok))
	m.locked = false
	heldLocks--
	if cur != nil {
		w.epoch++
		syncPoint()
	}
}

type RWMutex struct {
	run     uint64
	readers int
	held    bool // a writer holds the lock
	pending bool // a writer has announced itself and waits for readers
	waitR   []*rwWait
	tokR    byte
	tokW    byte
}

type rwWait struct{ granted bool }

func (m *RWMutex) fresh() {
	if m.run != runID {
		*m = RWMutex{run: runID}
	}
}

//go:noinline
func (m *RWMutex) Lock() {
	m.fresh()
	if killing {
		return
	}
	if cur == nil {
		m.held = true
		return
	}
	syncPoint()
	// Writers exclude each other first ...
	if m.held || m.pending {
		block("rwmutex (write lock)", func() bool { return !m.held && !m.pending })
	}
	// ... then announce themselves and wait for active readers.
	if m.readers > 0 {
		m.pending = true
		block("rwmutex (write lock, waiting for readers)", func() bool { return m.readers == 0 })
		m.pending = false
	}
	m.held = true
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tokR))
	raceAcquire(unsafe.Pointer(&m.tokW))
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if killing {
		return true
	}
	if cur != nil {
		syncPoint()
	}
	if m.held || m.pending || m.readers > 0 {
		return false
	}
	m.held = true
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tokR))
	raceAcquire(unsafe.Pointer(&m.tokW))
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	m.fresh()
	if killing {
		return
	}
	if !m.held {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.tokW))
	m.held = false
	heldLocks--
	// Readers that queued up behind this writer go first.
	for i := 0; i < len(m.waitR); i++ {
		m.waitR[i].granted = true
		m.readers++
	}
	m.waitR = nil
	if cur != nil {
		w.epoch++
		syncPoint()
	}
}

//go:noinline
func (m *RWMutex) RLock() {
	m.fresh()
	if killing {
		return
	}
	if cur == nil {
		m.readers++
		return
	}
	syncPoint()
	if m.held || m.pending {
		x := &rwWait{}
		m.waitR = append(m.waitR, x)
		block("rwmutex (read lock)", func() bool { return x.granted })
	} else {
		m.readers++
	}
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tokW))
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if killing {
		return true
	}
	if cur != nil {
		syncPoint()
	}
	if m.held || m.pending {
		return false
	}
	m.readers++
	heldLocks++
	raceAcquire(unsafe.Pointer(&m.tokW))
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	m.fresh()
	if killing {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.tokR))
	m.readers--
	heldLocks--
	if cur != nil {
		w.epoch++
		syncPoint()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct {
	run uint64
	n   int
	tok byte
}

func (g *WaitGroup) fresh() {
	if g.run != runID {
		g.run, g.n = runID, 0
	}
}

//go:noinline
func (g *WaitGroup) Add(d int) {
	g.fresh()
	if killing {
		return
	}
	if cur != nil {
		syncPoint()
	}
	if d < 0 {
		raceRelease(unsafe.Pointer(&g.tok))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if cur != nil {
		w.epoch++
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:noinline
func (g *WaitGroup) Wait() {
	g.fresh()
	if killing || cur == nil {
		return
	}
	syncPoint()
	if g.n > 0 {
		block("waitgroup", func() bool { return g.n == 0 })
	}
	raceAcquire(unsafe.Pointer(&g.tok))
}

// Go mirrors sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	GoLib(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	tok  byte
}

//go:noinline
func (o *Once) Do(f func()) {
	if o.done {
		raceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			raceRelease(unsafe.Pointer(&o.tok))
		}()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues mirror package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	v := new(T)
	return func() T {
		o.Do(func() { *v = f() })
		return *v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := new(Once)
	v1, v2 := new(T1), new(T2)
	return func() (T1, T2) {
		o.Do(func() { *v1, *v2 = f() })
		return *v1, *v2
	}
}

type Cond struct {
	L   Locker
	q   []*condWait
	run uint64
	tok byte
}

type condWait struct{ ok bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	if killing || cur == nil {
		return
	}
	if c.run != runID {
		c.run, c.q = runID, nil
	}
	x := &condWait{}
	c.q = append(c.q, x)
	c.L.Unlock()
	if !x.ok {
		block("cond", func() bool { return x.ok })
	}
	raceAcquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() { c.wake(1) }

//go:noinline
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	if killing || cur == nil {
		return
	}
	if c.run != runID {
		c.run, c.q = runID, nil
	}
	raceRelease(unsafe.Pointer(&c.tok))
	for n > 0 && len(c.q) > 0 {
		c.q[0].ok = true
		c.q = c.q[1:]
		n--
	}
	w.epoch++
	syncPoint()
}

// Pool mirrors sync.Pool; items may disappear at any time, as with the real one.
type Pool struct {
	New   func() any
	run   uint64
	items []any
	tok   byte
}

//go:noinline
func (p *Pool) Get() any {
	if p.run != runID {
		p.run, p.items = runID, nil
	}
	if cur != nil && !killing {
		syncPoint()
	}
	for len(p.items) > 0 {
		x := p.items[len(p.items)-1]
		p.items = p.items[:len(p.items)-1]
		if cur != nil && w.env.Intn(8) == 0 {
			continue
		}
		raceAcquire(unsafe.Pointer(&p.tok))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(x any) {
	if x == nil || killing {
		return
	}
	if p.run != runID {
		p.run, p.items = runID, nil
	}
	raceRelease(unsafe.Pointer(&p.tok))
	p.items = append(p.items, x)
	if cur != nil {
		syncPoint()
	}
}

// Map mirrors sync.Map.
type Map struct {
	keys []any
	vals []any
	tok  byte
}

func (m *Map) pos(k any) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) sp() {
	if cur != nil && !killing {
		syncPoint()
	}
	raceAcquire(unsafe.Pointer(&m.tok))
	raceRelease(unsafe.Pointer(&m.tok))
}

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	m.sp()
	if i := m.pos(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:noinline
func (m *Map) Swap(k, v any) (any, bool) {
	m.sp()
	if i := m.pos(k); i >= 0 {
		o := m.vals[i]
		m.vals[i] = v
		return o, true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return nil, false
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sp()
	if i := m.pos(k); i >= 0 {
		return m.vals[i], true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sp()
	if i := m.pos(k); i >= 0 {
		v := m.vals[i]
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
		m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.sp()
	if i := m.pos(k); i >= 0 && m.vals[i] == old {
		m.vals[i] = new
		return true
	}
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old any) bool {
	m.sp()
	if i := m.pos(k); i >= 0 && m.vals[i] == old {
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
		m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
		return true
	}
	return false
}

func (m *Map) Clear() { m.sp(); m.keys, m.vals = nil, nil }

func (m *Map) Range(f func(k, v any) bool) {
	m.sp()
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		if i := m.pos(k); i >= 0 {
			if !f(k, m.vals[i]) {
				return
			}
		}
	}
}
