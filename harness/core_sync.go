package main

// Simulated synchronisation: locks, once, wait groups, pools, condition
// variables, concurrent maps and channels. Blocking gives the processor to
// another simulated thread. Each of them carries a vector clock, so that
// accesses to ordinary maps that nothing orders are noticed: the Go runtime
// ends a process that makes them at the same moment.

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
)

// ---------------------------------------------------- happens-before

type vsVC []uint32

func (v vsVC) clone() vsVC { return append(vsVC(nil), v...) }
func (v *vsVC) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}
func (v *vsVC) join(w vsVC) {
	for len(*v) < len(w) {
		*v = append(*v, 0)
	}
	for i := range w {
		if w[i] > (*v)[i] {
			(*v)[i] = w[i]
		}
	}
}
func (v vsVC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// vsHB is the clock a synchronisation object carries; it means nothing in a
// later run of the same process.
type vsHB struct {
	run *vsScheduler
	vc  vsVC
}

func (h *vsHB) release() {
	s := vsS
	if s == nil || s.cur == nil {
		return
	}
	if h.run != s {
		h.run, h.vc = s, nil
	}
	h.vc.join(s.cur.vc)
	s.cur.vc.tick(s.cur.id)
}

func (h *vsHB) acquire() {
	s := vsS
	if s == nil || s.cur == nil || h.run != s {
		return
	}
	s.cur.vc.join(h.vc)
}

type vsMapLog struct {
	m     any // keeps the address from being used again
	wt    int
	wc    uint32
	wrote bool
	reads map[int]uint32
	site  int
}

// vsMapAt records an access to an ordinary map.
func vsMapAt(site int, write bool, f func() any) {
	s := vsS
	if s == nil || s.cur == nil || len(s.th) < 2 || s.race != "" {
		return
	}
	var m any
	var p uintptr
	func() {
		defer func() { recover() }()
		m = f()
		p = reflect.ValueOf(m).Pointer()
	}()
	if p == 0 {
		return
	}
	if s.mapLog == nil {
		s.mapLog = map[uintptr]*vsMapLog{}
	}
	t := s.cur
	l := s.mapLog[p]
	if l == nil {
		l = &vsMapLog{m: m, reads: map[int]uint32{}}
		s.mapLog[p] = l
	}
	if l.wrote && l.wt != t.id && l.wc > t.vc.at(l.wt) {
		s.race = fmt.Sprintf("a map is written and accessed by two threads with nothing to order them (sites %d and %d)", l.site, site)
	}
	if write {
		for r, c := range l.reads {
			if r != t.id && c > t.vc.at(r) {
				s.race = fmt.Sprintf("a map is read and written by two threads with nothing to order them (site %d)", site)
			}
		}
		l.wrote, l.wt, l.wc, l.site = true, t.id, t.vc.at(t.id), site
	} else {
		l.reads[t.id] = t.vc.at(t.id)
	}
}

// vsAfter is a yield point inside an expression.
func vsAfter[T any](x T) T {
	vsY(vsSiteAPI)
	return x
}

// ---------------------------------------------------- locks

type vsMutex struct {
	mu sync.Mutex
	hb vsHB
}

func (m *vsMutex) Lock() {
	if vsS != nil {
		vsY(vsSiteAPI)
		for !m.mu.TryLock() {
			vsBlock(func() bool {
				if m.mu.TryLock() {
					m.mu.Unlock()
					return true
				}
				return false
			})
		}
		m.hb.acquire()
		return
	}
	m.mu.Lock()
}
func (m *vsMutex) Unlock() { m.hb.release(); m.mu.Unlock(); vsY(vsSiteAPI) }
func (m *vsMutex) TryLock() bool {
	if m.mu.TryLock() {
		m.hb.acquire()
		return true
	}
	return false
}

type vsRWMutex struct {
	mu     sync.RWMutex
	hb, rd vsHB
}

func (m *vsRWMutex) Lock() {
	if vsS != nil {
		vsY(vsSiteAPI)
		for !m.mu.TryLock() {
			vsBlock(func() bool {
				if m.mu.TryLock() {
					m.mu.Unlock()
					return true
				}
				return false
			})
		}
		m.hb.acquire()
		m.rd.acquire()
		return
	}
	m.mu.Lock()
}
func (m *vsRWMutex) Unlock() { m.hb.release(); m.mu.Unlock(); vsY(vsSiteAPI) }
func (m *vsRWMutex) RLock() {
	if vsS != nil {
		vsY(vsSiteAPI)
		for !m.mu.TryRLock() {
			vsBlock(func() bool {
				if m.mu.TryRLock() {
					m.mu.RUnlock()
					return true
				}
				return false
			})
		}
		m.hb.acquire()
		return
	}
	m.mu.RLock()
}
func (m *vsRWMutex) RUnlock() { m.rd.release(); m.mu.RUnlock(); vsY(vsSiteAPI) }
func (m *vsRWMutex) TryLock() bool {
	if m.mu.TryLock() {
		m.hb.acquire()
		m.rd.acquire()
		return true
	}
	return false
}
func (m *vsRWMutex) TryRLock() bool {
	if m.mu.TryRLock() {
		m.hb.acquire()
		return true
	}
	return false
}
func (m *vsRWMutex) RLocker() sync.Locker { return (*vsRLocker)(m) }

type vsRLocker vsRWMutex

func (r *vsRLocker) Lock()   { (*vsRWMutex)(r).RLock() }
func (r *vsRLocker) Unlock() { (*vsRWMutex)(r).RUnlock() }

type vsOnce struct {
	m    vsMutex
	done bool
}

func (o *vsOnce) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func vsOnceFunc(f func()) func() {
	var o vsOnce
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func vsOnceValue[T any](f func() T) func() T {
	var x T
	g := vsOnceFunc(func() { x = f() })
	return func() T { g(); return x }
}

func vsOnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var x T
	var y U
	g := vsOnceFunc(func() { x, y = f() })
	return func() (T, U) { g(); return x, y }
}

type vsWaitGroup struct {
	mu sync.Mutex
	n  int
	wg sync.WaitGroup
	hb vsHB
}

func (w *vsWaitGroup) Add(d int) {
	if d < 0 {
		w.hb.release()
	}
	w.mu.Lock()
	w.n += d
	w.mu.Unlock()
	w.wg.Add(d)
}
func (w *vsWaitGroup) Done() { w.Add(-1) }
func (w *vsWaitGroup) Go(f func()) {
	w.Add(1)
	vsGo(func() { defer w.Done(); f() })
}
func (w *vsWaitGroup) Wait() {
	if vsS != nil {
		vsBlock(func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.n <= 0 })
	}
	w.wg.Wait()
	w.hb.acquire()
}

type vsCond struct {
	L    sync.Locker
	real *sync.Cond
	seq  uint64 // tickets handed out to waiters
	woke uint64 // tickets below this one may go on
}

func vsNewCond(l sync.Locker) *vsCond { return &vsCond{L: l, real: sync.NewCond(l)} }

func (c *vsCond) Wait() {
	if vsS == nil {
		c.real.Wait()
		return
	}
	t := c.seq
	c.seq++
	c.L.Unlock()
	vsBlock(func() bool { return t < c.woke })
	c.L.Lock()
}
func (c *vsCond) Signal() {
	if c.woke < c.seq {
		c.woke++
	}
	if c.real != nil {
		c.real.Signal()
	}
	vsY(vsSiteAPI)
}
func (c *vsCond) Broadcast() {
	c.woke = c.seq
	if c.real != nil {
		c.real.Broadcast()
	}
	vsY(vsSiteAPI)
}

// vsPool is a deterministic sync.Pool: last in, first out, never emptied.
type vsPool struct {
	New func() any
	mu  sync.Mutex
	l   []any
	hb  vsHB
}

func (p *vsPool) Get() any {
	vsY(vsSiteAPI)
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		p.hb.acquire()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *vsPool) Put(x any) {
	p.hb.release()
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
	vsY(vsSiteAPI)
}

// vsSyncMap is sync.Map with an iteration order drawn from the seed.
type vsSyncMap struct {
	mu sync.Mutex
	m  map[any]any
	ks []any
	hb vsHB
}

func (s *vsSyncMap) do(f func()) {
	vsY(vsSiteAPI)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hb.acquire()
	if s.m == nil {
		s.m = map[any]any{}
	}
	f()
	s.hb.release()
}
func (s *vsSyncMap) put(k, v any) {
	if _, ok := s.m[k]; !ok {
		s.ks = append(s.ks, k)
	}
	s.m[k] = v
}
func (s *vsSyncMap) del(k any) {
	if _, ok := s.m[k]; !ok {
		return
	}
	delete(s.m, k)
	for i := range s.ks {
		if s.ks[i] == k {
			s.ks = append(s.ks[:i:i], s.ks[i+1:]...)
			return
		}
	}
}
func (s *vsSyncMap) Load(k any) (v any, ok bool) {
	s.do(func() { v, ok = s.m[k] })
	return
}
func (s *vsSyncMap) Store(k, v any) { s.do(func() { s.put(k, v) }) }
func (s *vsSyncMap) LoadOrStore(k, v any) (a any, loaded bool) {
	s.do(func() {
		if a, loaded = s.m[k]; !loaded {
			s.put(k, v)
			a = v
		}
	})
	return
}
func (s *vsSyncMap) LoadAndDelete(k any) (v any, ok bool) {
	s.do(func() { v, ok = s.m[k]; s.del(k) })
	return
}
func (s *vsSyncMap) Delete(k any) { s.do(func() { s.del(k) }) }
func (s *vsSyncMap) Swap(k, v any) (p any, ok bool) {
	s.do(func() { p, ok = s.m[k]; s.put(k, v) })
	return
}
func (s *vsSyncMap) CompareAndSwap(k, o, n any) (ok bool) {
	s.do(func() {
		if v, has := s.m[k]; has && v == o {
			s.put(k, n)
			ok = true
		}
	})
	return
}
func (s *vsSyncMap) CompareAndDelete(k, o any) (ok bool) {
	s.do(func() {
		if v, has := s.m[k]; has && v == o {
			s.del(k)
			ok = true
		}
	})
	return
}
func (s *vsSyncMap) Clear() { s.do(func() { s.m, s.ks = nil, nil }) }
func (s *vsSyncMap) Range(f func(k, v any) bool) {
	var ks []any
	s.do(func() { ks = append(ks, s.ks...) })
	r := vsOrderRng()
	for i := len(ks) - 1; i > 0; i-- {
		j := r.n(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		if v, ok := s.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// ---------------------------------------------------- map iteration

var vsOrderSeed, vsOrderN uint64

func vsOrderRng() *rng {
	vsOrderN++
	return newRng(vsMix(vsOrderSeed, vsOrderN))
}

type vsIt[K comparable, V any] struct {
	m  map[K]V
	ks []K
}

func vsIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *vsIt[K, V]) {
	it = &vsIt[K, V]{m: m}
	var names []string
	for x := range m {
		it.ks = append(it.ks, x)
		names = append(names, fmt.Sprintf("%v", x))
	}
	sort.Sort(&vsByName[K]{it.ks, names})
	r := vsOrderRng()
	for i := len(it.ks) - 1; i > 0; i-- {
		j := r.n(i + 1)
		it.ks[i], it.ks[j] = it.ks[j], it.ks[i]
	}
	return
}

type vsByName[K any] struct {
	ks []K
	ns []string
}

func (b *vsByName[K]) Len() int           { return len(b.ks) }
func (b *vsByName[K]) Less(i, j int) bool { return b.ns[i] < b.ns[j] }
func (b *vsByName[K]) Swap(i, j int) {
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
	b.ns[i], b.ns[j] = b.ns[j], b.ns[i]
}

func (it *vsIt[K, V]) Next(k *K, v *V) bool {
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

// ---------------------------------------------------- channels

type vsChan[T any] struct {
	mu     sync.Mutex
	c      *sync.Cond // for use outside of a simulation
	n      int
	q      []T
	sent   uint64 // messages ever queued
	got    uint64 // messages ever taken
	recvq  int    // receivers waiting
	closed bool
	hb     vsHB
}

func vsMakeChan[T any](n int) *vsChan[T] {
	c := &vsChan[T]{n: n}
	c.c = sync.NewCond(&c.mu)
	return c
}

// wait blocks until cond, which is evaluated under the channel's own lock.
func (c *vsChan[T]) wait(cond func() bool) {
	if vsS == nil {
		for !cond() {
			c.c.Wait()
		}
		return
	}
	for !cond() {
		c.mu.Unlock()
		vsBlock(func() bool { c.mu.Lock(); defer c.mu.Unlock(); return cond() })
		c.mu.Lock()
	}
}

func (c *vsChan[T]) Send(x T) {
	vsY(vsSiteAPI)
	if c == nil {
		if vsS != nil {
			vsBlock(func() bool { return false })
		}
		select {}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wait(func() bool { return c.closed || len(c.q) < c.n || c.n == 0 && len(c.q) < c.recvq })
	if c.closed {
		panic("send on closed channel")
	}
	c.hb.release()
	c.q = append(c.q, x)
	c.sent++
	c.c.Broadcast()
}

func (c *vsChan[T]) Recv() T {
	x, _ := c.Recv2()
	return x
}

func (c *vsChan[T]) Recv2() (x T, ok bool) {
	vsY(vsSiteAPI)
	if c == nil {
		if vsS != nil {
			vsBlock(func() bool { return false })
		}
		select {}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.recvq++
	c.c.Broadcast()
	c.wait(func() bool { return c.closed || len(c.q) > 0 })
	c.recvq--
	c.hb.acquire()
	if len(c.q) == 0 {
		return
	}
	x, ok = c.q[0], true
	c.q = c.q[1:]
	c.got++
	c.c.Broadcast()
	return
}

func (c *vsChan[T]) Close() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		panic("close of closed channel")
	}
	c.hb.release()
	c.closed = true
	c.c.Broadcast()
}

func (c *vsChan[T]) Len() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.q) }
func (c *vsChan[T]) Cap() int { return c.n }
