package zzm

import (
	"sync"

	v "github.com/yields/ant/internal/zzv"
)

//verif:opaque sync.Once
type repOnce struct{ Done bool }

//verif:model (*sync.Once).Do
func onceDo(o *sync.Once, f func()) {
	if v.Load[repOnce](o).Done {
		return
	}
	v.Store(o, repOnce{true})
	v.Fire("lock", o)
	f()
	v.Fire("unlock", o)
}

// OnceDone tells whether the function ran.
func OnceDone(o *sync.Once) bool { return v.Load[repOnce](o).Done }

// A sync.Map is a map whose operations are atomic.
//
//verif:opaque sync.Map
type repSyncMap struct{ M map[any]any }

// SyncMapGet is the value stored under the key.
func SyncMapGet(m *sync.Map, k any) (any, bool) {
	x, ok := v.Load[repSyncMap](m).M[k]
	return x, ok
}

//verif:model (*sync.Map).Load
func syncMapLoad(m *sync.Map, k any) (any, bool) {
	x, ok := v.Load[repSyncMap](m).M[k]
	return x, ok
}

//verif:model (*sync.Map).Store
func syncMapStore(m *sync.Map, k, x any) {
	if v.Load[repSyncMap](m).M == nil {
		v.Store(m, repSyncMap{map[any]any{}})
	}
	v.Load[repSyncMap](m).M[k] = x
}

//verif:model (*sync.Map).LoadOrStore
func syncMapLoadOrStore(m *sync.Map, k, x any) (any, bool) {
	if y, ok := v.Load[repSyncMap](m).M[k]; ok {
		return y, true
	}
	syncMapStore(m, k, x)
	return x, false
}

//verif:model (*sync.Map).Delete
func syncMapDelete(m *sync.Map, k any) { delete(v.Load[repSyncMap](m).M, k) }

// Locks fire events; contracts decide what they mean.

//verif:opaque sync.Mutex
type repMutex struct{ x int }

//verif:opaque sync.RWMutex
type repRWMutex struct{ x int }

//verif:model (*sync.Mutex).Lock
func mutexLock(m *sync.Mutex) { v.Fire("lock", m) }

//verif:model (*sync.Mutex).Unlock
func mutexUnlock(m *sync.Mutex) { v.Fire("unlock", m) }

//verif:model (*sync.RWMutex).Lock
func rwLock(m *sync.RWMutex) { v.Fire("lock", m) }

//verif:model (*sync.RWMutex).Unlock
func rwUnlock(m *sync.RWMutex) { v.Fire("unlock", m) }

//verif:model (*sync.RWMutex).RLock
func rwRLock(m *sync.RWMutex) { v.Fire("rlock", m) }

//verif:model (*sync.RWMutex).RUnlock
func rwRUnlock(m *sync.RWMutex) { v.Fire("runlock", m) }

//verif:model (sync.Locker).Lock
func lockerLock(l sync.Locker) { v.Fire("lock", l) }

//verif:model (sync.Locker).Unlock
func lockerUnlock(l sync.Locker) { v.Fire("unlock", l) }

// A condition fires wait, gives up its lock and takes it again.

//verif:model sync.NewCond
func newCond(l sync.Locker) *sync.Cond {
	c := new(sync.Cond)
	c.L = l
	return c
}

//verif:model (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	v.Fire("wait", c)
	c.L.Unlock()
	c.L.Lock()
}

//verif:model (*sync.Cond).Signal
func condSignal(c *sync.Cond) { v.Fire("signal", c) }

//verif:model (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) { v.Fire("broadcast", c) }

// A wait group is a counter that never becomes negative; wg is fired before it
// is changed or waited for.
//
//verif:opaque sync.WaitGroup
type repWaitGroup struct{ N int }

// WaitGroupCount is the counter.
func WaitGroupCount(g *sync.WaitGroup) int { return v.Load[repWaitGroup](g).N }

// SetWaitGroup sets the counter.
func SetWaitGroup(g *sync.WaitGroup, n int) { v.Store(g, repWaitGroup{n}) }

//verif:model (*sync.WaitGroup).Add
func waitGroupAdd(g *sync.WaitGroup, n int) {
	v.Fire("wg", g)
	m := v.Load[repWaitGroup](g).N + n
	v.Assert("the counter of a wait group is not negative", m >= 0)
	v.Store(g, repWaitGroup{m})
}

//verif:model (*sync.WaitGroup).Done
func waitGroupDone(g *sync.WaitGroup) { waitGroupAdd(g, -1) }

//verif:model (*sync.WaitGroup).Wait
func waitGroupWait(g *sync.WaitGroup) {
	v.Fire("wgwait", g)
	v.Assume(v.Load[repWaitGroup](g).N == 0)
	v.Fire("wgwaited", g)
}
