package zzm

import (
	"errors"
	"time"

	v "github.com/yields/ant/internal/zzv"
)

// A time is its seconds since the zero time and nanoseconds.
//
//verif:opaque time.Time
type repTime struct{ sec, nsec int }

func mkTime(sec, nsec int) time.Time { return v.FromRep[time.Time](repTime{sec, nsec}) }

// Now is the clock, which stands still during a contract.
func Now() time.Time {
	t := v.UF[time.Time]("clock")
	validTime(t)
	return t
}

func validTime(t time.Time) {
	r := v.Rep[repTime](t)
	v.Assume(0 <= r.nsec && r.nsec < 1000000000 && -1<<40 < r.sec && r.sec < 1<<40)
}

//verif:model time.Now
func timeNow() time.Time { return Now() }

//verif:model time.Since
func timeSince(t time.Time) time.Duration { return Diff(Now(), t) }

//verif:model time.Until
func timeUntil(t time.Time) time.Duration { return Diff(t, Now()) }

// Nanos is the mathematical number of nanoseconds from u to t.
func Nanos(t, u time.Time) int {
	a, b := v.Rep[repTime](t), v.Rep[repTime](u)
	return (a.sec-b.sec)*1000000000 + (a.nsec - b.nsec)
}

// Diff is t-u as a saturated duration.
func Diff(t, u time.Time) time.Duration {
	d := Nanos(t, u)
	return time.Duration(v.Ite(d > 1<<63-1, 1<<63-1, v.Ite(d < -1<<63, -1<<63, d)))
}

//verif:model (time.Time).Sub
func timeSub(t, u time.Time) time.Duration { return Diff(t, u) }

//verif:model (time.Time).IsZero
func timeIsZero(t time.Time) bool {
	r := v.Rep[repTime](t)
	return r.sec == 0 && r.nsec == 0
}

//verif:model (time.Time).Before
func timeBefore(t, u time.Time) bool { return Nanos(t, u) < 0 }

//verif:model (time.Time).After
func timeAfter(t, u time.Time) bool { return Nanos(t, u) > 0 }

//verif:model (time.Time).Equal
func timeEqual(t, u time.Time) bool { return Nanos(t, u) == 0 }

//verif:model (time.Time).Add
func timeAdd(t time.Time, d time.Duration) time.Time {
	r := v.UF[repTime]("time.add", t, int(d))
	w := v.FromRep[time.Time](r)
	validTime(w)
	v.Assume(Nanos(w, t) == int(d))
	return w
}

// ParsedTime is the meaning of time.Parse.
func ParsedTime(layout, s string) (time.Time, bool) {
	t := v.UF[time.Time]("time.Parse", layout, s)
	validTime(t)
	ok := v.UF[bool]("time.Parse.ok", layout, s)
	v.Assume(v.Imp(v.And(s == "", layout != ""), !ok))
	return t, ok
}

//verif:model time.Parse
func timeParse(layout, s string) (time.Time, error) {
	t, ok := ParsedTime(layout, s)
	if !ok {
		return time.Time{}, errors.New("parse")
	}
	return t, nil
}

// TimerDur is the duration after which the channel delivers.
func TimerDur(c <-chan time.Time) time.Duration { return v.UF[time.Duration]("timer.dur", c) }

//verif:model time.NewTimer
func timeNewTimer(d time.Duration) *time.Timer {
	t := new(time.Timer)
	c := make(chan time.Time, 1)
	t.C = c
	v.Assume(TimerDur(c) == d)
	return t
}

//verif:model time.After
func timeAfterD(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	v.Assume(TimerDur(c) == d)
	return c
}

//verif:model (*time.Timer).Stop
func timerStop(t *time.Timer) bool { return v.Any[bool]() }
