package antcache

import (
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C23
//verif:covers a directive's presence is its key's
func verif_C23_has(d directives, name string) {
	_, want := d[name]
	v.Ensures("has tells whether the directive is present", d.has(name) == want)
}

//verif:property C23
//verif:covers duration arithmetic
func verif_C23_duration(d directives, name string) {
	val, has := d[name]
	td, ok := d.duration(name)
	v.Ensures("a duration exists exactly for a present number", ok == (has && zzm.IsNum(val, 10)))
	n := zzm.NumOf(val, 10)
	if ok {
		v.Ensures("small values are exact seconds", v.Imp(-1<<31 <= n && n < 1<<31, td == time.Duration(n)*time.Second))
		v.Ensures("never negative for a non-negative value", v.Imp(n >= 0, td >= 0))
	}
}

//verif:property C23
//verif:covers durations are monotone
func verif_C23_monotone(d, e directives, name string) {
	a, aok := d.duration(name)
	b, bok := e.duration(name)
	if aok && bok {
		v.Ensures("a larger value never gives a smaller duration", v.Imp(zzm.NumOf(d[name], 10) <= zzm.NumOf(e[name], 10), a <= b))
	}
}
