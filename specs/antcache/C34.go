package antcache

import (
	"os"
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C34
//verif:covers every store with an interval, every order of ticks and the end, and any sweep failing
func verif_C34_sweeper(d *Diskstore) {
	v.Requires(v.And(d != nil, v.And(d.ticker != nil, d.stop != nil)))
	v.Requires(d.ticker.C != nil)
	zzm.SetWaitGroup(&d.wg, v.Any[int]())
	count := zzm.WaitGroupCount(&d.wg)
	v.Assume(count > 0)
	ticker, stop := d.ticker, d.stop
	ticks, sweeps, stops := 0, 0, 0
	stopped, waiting, listed := false, false, false
	v.Stub("chan.wait struct{}", func(ch <-chan struct{}, blocking bool) {
		waiting = v.Or(waiting, blocking)
		listed = v.Or(listed, v.And(blocking, v.Addr(ch) == v.Addr(stop)))
	})
	v.Stub("chan.wait time.Time", func(ch <-chan time.Time, blocking bool) {
		v.Assert("C34: the store's own ticks are waited for", ch == ticker.C)
		waiting = v.Or(waiting, blocking)
	})
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		v.Assert("C34: only the end is waited for besides", v.Addr(ch) == v.Addr(stop))
		waiting, listed = false, false
		stopped = true
	})
	v.Stub("chan.recv time.Time", func(ch <-chan time.Time) {
		v.Assert("C34: a tick is only waited for together with the end", v.Imp(waiting, listed))
		v.Assert("C34: and not after it", !stopped)
		waiting, listed = false, false
		ticks++
	})
	v.Stub("chan.close", func(ch chan struct{}) { v.Assert("C34: the sweeper closes no channel", false) })
	v.Stub("(*ant/antcache.Diskstore).sweep", func(on *Diskstore) (int, error) {
		v.Assert("C34: each tick is one sweep of the store", v.And(on == d, v.And(ticks == sweeps+1, !stopped)))
		sweeps++
		return v.Any[int](), v.Any[error]()
	})
	v.Stub("func:ant/antcache.DebugFunc", func(f DebugFunc, format string, args ...any) {})
	v.Stub("(*time.Ticker).Stop", func(t *time.Ticker) {
		v.Assert("C34: the store's ticker is stopped", v.And(t == ticker, stopped))
		stops++
	})
	v.On("wg", &d.wg, func() { v.Assert("C34: the sweeper reports its end when it ends", stopped) })
	v.OnGo(func() { v.Assert("C34: sweeps do not overlap", false) }, func() {}, func() {}, func() {})
	v.Loop("sweeper", func() {
		v.Inv("going on", v.And(!stopped, stops == 0))
		v.Inv("nothing is waited for", v.And(!waiting, !listed))
		v.Inv("one sweep for each tick", ticks == sweeps)
		v.Inv("counted", zzm.WaitGroupCount(&d.wg) == count)
		v.Inv("the same ticker", v.And(d.ticker == ticker, v.Addr(d.stop) == v.Addr(stop)))
	})
	d.sweeper()
	v.Ensures("C34: it ends only when it is told to", stopped)
	v.Ensures("C34: every tick was one sweep", ticks == sweeps)
	v.Ensures("C34: the ticker is stopped", stops > 0)
	v.Ensures("C34: the end of the sweeper is reported once", zzm.WaitGroupCount(&d.wg) == count-1)
}

//verif:property C34
//verif:covers every open store, and closing the directory failing
func verif_C34_close(d *Diskstore) {
	v.Requires(v.And(d != nil, v.And(d.dir != nil, d.stop != nil)))
	zzm.SetWaitGroup(&d.wg, v.Any[int]())
	v.Assume(zzm.WaitGroupCount(&d.wg) >= 0)
	stop, dir := d.stop, d.dir
	told, closed, waited := 0, 0, false
	var failure error
	v.Stub("chan.close", func(ch chan struct{}) {
		v.Assert("C34: the sweeper is told to end once", v.And(v.Addr(ch) == v.Addr(stop), told == 0))
		told++
	})
	v.On("wgwait", &d.wg, func() {
		v.Assert("C34: it is told before it is waited for", told == 1)
		zzm.SetWaitGroup(&d.wg, v.Any[int]())
	})
	v.On("wgwaited", &d.wg, func() { waited = true })
	v.Stub("(*os.File).Close", func(f *os.File) error {
		v.Assert("C34: the directory is closed once, when both have ended", v.And(f == dir, v.And(waited, closed == 0)))
		closed++
		failure = v.Any[error]()
		return failure
	})
	v.Stub("(*time.Ticker).Stop", func(t *time.Ticker) { v.Assert("C34: there is a ticker to stop", t != nil) })
	v.Stub("func:ant/antcache.DebugFunc", func(f DebugFunc, format string, args ...any) {})
	err := d.Close()
	v.Cover("closed")
	v.Ensures("C34: the sweeper was told, and the directory is closed", v.And(told == 1, closed == 1))
	v.Ensures("C34: a failure to close is returned", (err != nil) == (failure != nil))
}
