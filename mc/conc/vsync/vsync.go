// Package vsync replaces package sync in the library while a controlled
// scheduler explores its executions.  Every blocking or shared operation is a
// choice point; the operations themselves are still performed on the real
// primitives, so the race detector sees exactly the synchronisation the
// library performs.  The scheduler's own state is touched in norace functions
// only and adds no happens-before edges.  Everything runs with GOMAXPROCS=1.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"
)

const (
	maxThreads = 8
	maxPoints  = 1 << 18
	maxReg     = 1 << 14
	maxItems   = 1 << 12
)

// Point is one choice of an execution.
type Point struct {
	N      uint16 // alternatives
	Chosen uint16
	Cost   uint16 // cost of each alternative but the first
	Kind   byte
}

const (
	KindStart = iota + 1
	KindSwitch
	KindForced
	KindPool
)

type thread struct {
	alive bool
	wait  *int32 // enabled when nil or *wait == 0
}

var (
	active  bool
	armed   bool
	cur     = -1
	threads [maxThreads]thread
	nthr    int

	Points   [maxPoints]Point
	NPoints  int
	prefix   [maxPoints]uint16
	nprefix  int
	Deadlock bool
	Overrun  bool
	Visible  int64 // choice points and forced operations seen

	onces  [maxReg]*Once
	nonces int
	pools  [maxReg]*Pool
	npools int
	mus    [maxReg]*int32
	nmus   int
	vals   [maxReg]savedVal
	nvals  int
	words  [maxReg]savedWord
	nwords int
)

type savedVal struct {
	v   *atomic.Value
	old interface{}
}

type savedWord struct {
	p    unsafe.Pointer
	size uint8
	old  uint64
	ptr  unsafe.Pointer
}

//go:norace
func choose(n int, cost int, kind byte) int {
	if n <= 1 {
		return 0
	}
	if NPoints >= maxPoints {
		Overrun = true
		return 0
	}
	c := 0
	if NPoints < nprefix {
		c = int(prefix[NPoints])
		if c >= n {
			Overrun = true
			c = 0
		}
	}
	p := &Points[NPoints]
	p.N, p.Chosen, p.Cost, p.Kind = uint16(n), uint16(c), uint16(cost), kind
	NPoints++
	return c
}

//go:norace
func enabled(i int) bool {
	t := &threads[i]
	return t.alive && (t.wait == nil || *t.wait == 0)
}

// pick selects the next thread; from < 0 when none is running.
//
//go:norace
func pick(from int, kind byte) {
	var en [maxThreads]int
	n := 0
	cost := 0
	if from >= 0 && enabled(from) {
		en[0] = from
		n = 1
		cost = 1
	} else if kind == KindSwitch {
		kind = KindForced
	}
	for i := 0; i < nthr; i++ {
		if i != from && enabled(i) {
			en[n] = i
			n++
		}
	}
	if n == 0 {
		for i := 0; i < nthr; i++ {
			if threads[i].alive {
				Deadlock = true
			}
		}
		cur = -1
		return
	}
	cur = en[choose(n, cost, kind)]
}

//go:norace
func await(me int) {
	for cur != me {
		if Deadlock {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
}

// point is a choice point before a visible operation of the running thread.
//
//go:norace
func point() {
	Visible++
	if !active {
		return
	}
	me := cur
	pick(me, KindSwitch)
	await(me)
}

// block suspends the running thread until *w is zero.
//
//go:norace
func block(w *int32) {
	if !active {
		return
	}
	me := cur
	for *w != 0 {
		threads[me].wait = w
		pick(me, KindSwitch)
		await(me)
	}
	threads[me].wait = nil
}

//go:norace
func isActive() bool { return active }

// Arm starts recording what executions change, so that Reset can undo it.
//
//go:norace
func Arm() { armed = true }

// Run executes the bodies under the schedule given by pre and returns once all
// have ended.
//
//go:norace
func Run(bodies []func(), pre []uint16) {
	nthr = len(bodies)
	nprefix = len(pre)
	for i := range pre {
		prefix[i] = pre[i]
	}
	NPoints, Deadlock, Overrun = 0, false, false
	var wg sync.WaitGroup
	wg.Add(nthr)
	cur = -1
	for i := 0; i < nthr; i++ {
		threads[i].alive = true
		threads[i].wait = nil
		startThread(i, bodies[i], &wg)
	}
	active = true
	pick(-1, KindStart)
	for cur >= 0 {
		runtime.Gosched()
	}
	active = false
	wg.Wait()
}

func startThread(i int, body func(), wg *sync.WaitGroup) {
	go func() {
		defer wg.Done()
		defer finish(i)
		await(i)
		body()
	}()
}

//go:norace
func finish(i int) {
	threads[i].alive = false
	if Deadlock {
		return
	}
	pick(-1, KindForced)
}

// Reset restores every synchronisation object to what it was when armed.
func Reset() {
	for i := 0; i < nonces; i++ {
		o := onces[i]
		o.real = sync.Once{}
		o.run, o.done, o.reg = 0, false, false
		onces[i] = nil
	}
	nonces = 0
	for i := 0; i < npools; i++ {
		p := pools[i]
		for j := 0; j < p.n; j++ {
			p.items[j] = item{}
		}
		p.n, p.reg = 0, false
		pools[i] = nil
	}
	npools = 0
	for i := 0; i < nvals; i++ {
		s := &vals[i]
		*s.v = atomic.Value{}
		if s.old != nil {
			s.v.Store(s.old)
		}
		vals[i] = savedVal{}
	}
	nvals = 0
	for i := nwords - 1; i >= 0; i-- {
		s := &words[i]
		if s.size == 0 {
			atomic.StorePointer((*unsafe.Pointer)(s.p), s.ptr)
		} else if s.size == 4 {
			atomic.StoreUint32((*uint32)(s.p), uint32(s.old))
		} else {
			atomic.StoreUint64((*uint64)(s.p), s.old)
		}
		words[i] = savedWord{}
	}
	nwords = 0
}

// SaveValue and SaveWord are used by the atomic half of the shim.
//
//go:norace
func SaveValue(v *atomic.Value) {
	if !armed {
		return
	}
	for i := 0; i < nvals; i++ {
		if vals[i].v == v {
			return
		}
	}
	vals[nvals].v = v
	vals[nvals].old = v.Load()
	nvals++
}

//go:norace
func SaveWord(p unsafe.Pointer, size uint8, old uint64) {
	if !armed {
		return
	}
	for i := 0; i < nwords; i++ {
		if words[i].p == p {
			return
		}
	}
	words[nwords].p, words[nwords].size, words[nwords].old = p, size, old
	nwords++
}

//go:norace
func SavePointer(p *unsafe.Pointer) {
	if !armed {
		return
	}
	for i := 0; i < nwords; i++ {
		if words[i].p == unsafe.Pointer(p) {
			return
		}
	}
	words[nwords].p, words[nwords].ptr = unsafe.Pointer(p), *p
	nwords++
}

// AtomicPoint is the choice point before an atomic operation.
func AtomicPoint() { point() }

// Once mirrors sync.Once.
type Once struct {
	real sync.Once
	run  int32
	done bool
	reg  bool
}

//go:norace
func (o *Once) enter() {
	if armed && !o.reg {
		if !o.done {
			o.reg = true
			onces[nonces] = o
			nonces++
		}
	}
	if !isActive() || o.done {
		return
	}
	point()
	if o.done {
		return
	}
	block(&o.run)
	if !o.done {
		o.run = 1
	}
}

//go:norace
func (o *Once) leave() {
	o.done = true
	o.run = 0
}

// Do mirrors sync.Once.Do.
func (o *Once) Do(f func()) {
	o.enter()
	defer o.leave()
	o.real.Do(f)
}

type item struct {
	x   interface{}
	tok *uint32
}

// Pool mirrors sync.Pool; which item Get returns is a choice.
type Pool struct {
	New   func() interface{}
	n     int
	items [64]item
	reg   bool
}

//go:norace
func (p *Pool) put(x interface{}, tok *uint32) {
	if armed && !p.reg {
		p.reg = true
		pools[npools] = p
		npools++
	}
	if p.n == len(p.items) {
		return
	}
	p.items[p.n].x = x
	p.items[p.n].tok = tok
	p.n++
}

//go:norace
func (p *Pool) get() (x interface{}, tok *uint32) {
	if p.n == 0 {
		return nil, nil
	}
	k := 0
	if isActive() {
		// 0: the item put last, 1: a new one, 2...: older items (up to 2)
		alts := p.n + 1
		if alts > 4 {
			alts = 4
		}
		k = choose(alts, 1, KindPool)
	}
	if k == 1 {
		return nil, nil
	}
	j := p.n - 1
	if k > 1 {
		j = p.n - k
	}
	it := p.items[j]
	for i := j; i < p.n-1; i++ {
		p.items[i].x = p.items[i+1].x
		p.items[i].tok = p.items[i+1].tok
	}
	p.n--
	p.items[p.n].x, p.items[p.n].tok = nil, nil
	return it.x, it.tok
}

// Get mirrors sync.Pool.Get.
func (p *Pool) Get() interface{} {
	point()
	x, tok := p.get()
	if tok != nil {
		atomic.LoadUint32(tok)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put mirrors sync.Pool.Put.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	point()
	tok := new(uint32)
	atomic.StoreUint32(tok, 1)
	p.put(x, tok)
}

// Mutex mirrors sync.Mutex.
type Mutex struct {
	real sync.Mutex
	busy int32
}

//go:norace
func (m *Mutex) acquire() {
	if isActive() {
		point()
		block(&m.busy)
		m.busy = 1
	}
}

//go:norace
func (m *Mutex) release() { m.busy = 0 }

//go:norace
func (m *Mutex) free() bool { return m.busy == 0 }

// Lock mirrors sync.Mutex.Lock.
func (m *Mutex) Lock() {
	m.acquire()
	m.real.Lock()
}

// TryLock mirrors sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	point()
	if isActive() {
		if !m.free() {
			return false
		}
		m.acquire()
	}
	return m.real.TryLock()
}

// Unlock mirrors sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	m.real.Unlock()
	m.release()
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	writer  int32 // a writer holds the lock
	holders int32 // anyone holds the lock
}

//go:norace
func (m *RWMutex) acq(w bool) {
	if !isActive() {
		return
	}
	point()
	if w {
		block(&m.holders)
		m.writer, m.holders = 1, 1
	} else {
		block(&m.writer)
		m.holders++
	}
}

//go:norace
func (m *RWMutex) rel(w bool) {
	if !isActive() {
		return
	}
	if w {
		m.writer = 0
	}
	m.holders--
}

// Lock mirrors sync.RWMutex.Lock.
func (m *RWMutex) Lock() { m.acq(true); m.real.Lock() }

// Unlock mirrors sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() { m.real.Unlock(); m.rel(true) }

// RLock mirrors sync.RWMutex.RLock.
func (m *RWMutex) RLock() { m.acq(false); m.real.RLock() }

// RUnlock mirrors sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() { m.real.RUnlock(); m.rel(false) }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker mirrors sync.Locker.
type Locker = sync.Locker

// WaitGroup and Cond keep their real forms (the library uses neither).
type (
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Map mirrors sync.Map with a choice point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { point(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { point(); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { point(); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	point()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	point()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Range(f func(k, v interface{}) bool) { point(); m.m.Range(f) }
