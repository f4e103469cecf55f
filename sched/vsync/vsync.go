// Package vsync replaces sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	vrt.P("lock")
	vrt.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vrt.P("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if !vrt.Active() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	vrt.P("lock")
	vrt.Block("rwmutex", func() bool { return !m.w && m.readers == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	vrt.P("trylock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		if !vrt.Active() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	vrt.P("rlock")
	vrt.Block("rwmutex", func() bool { return !m.w })
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	vrt.P("tryrlock")
	if m.w {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if !vrt.Active() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done    bool
	running bool
}

func (o *Once) Do(f func()) {
	vrt.P("once")
	if o.done {
		return
	}
	if o.running {
		vrt.Block("once", func() bool { return !o.running })
		if o.done || !vrt.Active() {
			return
		}
	}
	o.running = true
	defer func() { o.running = false; o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vrt.P("wg.add")
	w.n += d
	if w.n < 0 {
		if !vrt.Active() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vrt.P("wg.wait")
	vrt.Block("waitgroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go("wg", func() { defer w.Done(); f() })
}

type Cond struct {
	L  Locker
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.ws = append(c.ws, &woken)
	c.L.Unlock()
	vrt.Block("cond", func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vrt.P("signal")
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}
func (c *Cond) Broadcast() {
	vrt.P("broadcast")
	for _, w := range c.ws {
		*w = true
	}
	c.ws = nil
}

// Pool keeps everything it is given, last in first out.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vrt.P("pool.get")
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vrt.P("pool.put")
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map is an atomic map; iteration is in insertion order.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { vrt.P("map"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { vrt.P("map"); m.set(k, v) }
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vrt.P("map")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vrt.P("map")
	x, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return x, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	vrt.P("map")
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vrt.P("map")
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vrt.P("map")
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	vrt.P("map")
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { vrt.P("map"); m.m, m.keys = nil, nil }
