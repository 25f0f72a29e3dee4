package antcache

import (
	"math/big"
	"net/http"
	"strings"
	"testing"
	"time"
)

// the oracle: RFC-like directive parsing written independently.
func c23oracleReplay(v string) map[string]string {
	m := map[string]string{}
	for _, it := range strings.Split(v, ",") {
		it = strings.ToLower(strings.TrimSpace(it))
		if it == "" {
			continue
		}
		k, val, _ := strings.Cut(it, "=")
		m[k] = val
	}
	return m
}

func c23durReplay(v string) (*big.Int, bool) {
	n, ok := new(big.Int).SetString(v, 10)
	if !ok || strings.Contains(v, "_") {
		return nil, false
	}
	return n, true
}

func TestVerifC23(t *testing.T) {
	seeds, _ := vseedsReplay()
	toks := []string{"no-cache", "No-Store", "max-age", "MAX-AGE", "s-maxage", "a", "", " ", "private", "stale-if-error", "max-stale", "min-fresh", "only-if-cached"}
	vals := []string{"", "=", "=0", "=1", "=5", "=-1", "=+3", "=x", "=1x", "=\"5\"", "= 5", "=2147483647", "=2147483648", "=4294967296", "=9223372036", "=9223372037", "=9223372036854775807", "=9223372036854775808", "=18446744073709551616", "=99999999999999999999999", "=-99999999999999999999999", "=0x10", "=1_000", "=a=b", "=007"}
	seps := []string{",", ", ", " ,", ",,", ", ,", "\t,"}
	var inputs []string
	inputs = append(inputs, seeds...)
	for _, tk := range toks {
		for _, v := range vals {
			inputs = append(inputs, tk+v)
		}
	}
	for i := 0; i < 20000; i++ {
		var b strings.Builder
		for j, n := 0, vrndReplay.Intn(6); j < n; j++ {
			if j > 0 {
				b.WriteString(vpickReplay(seps...))
			}
			b.WriteString(vpickReplay(toks...) + vpickReplay(vals...))
		}
		if vrndReplay.Intn(4) == 0 {
			b.WriteString(vpickReplay(seps...))
		}
		inputs = append(inputs, b.String())
	}
	type dv struct {
		n *big.Int
		d time.Duration
	}
	var durs []dv
	for _, in := range inputs {
		h := http.Header{"Cache-Control": {in}}
		d := directivesFrom(h)
		want := c23oracleReplay(in)
		if len(d) != len(want) {
			t.Fatalf("directives of %q = %q, want %q", in, d, want)
		}
		if (d == nil) != (len(want) == 0) {
			t.Fatalf("directives of %q = %#v", in, d)
		}
		for k, v := range want {
			if got, ok := d[k]; !ok || got != v {
				t.Fatalf("directives of %q = %q, want %q", in, d, want)
			}
			if !d.has(k) {
				t.Fatalf("%q: has(%q) is false", in, k)
			}
			n, num := c23durReplay(v)
			td, ok := d.duration(k)
			if ok != num {
				t.Fatalf("%q: duration(%q) ok=%v, want %v", in, k, ok, num)
			}
			if !ok {
				continue
			}
			if n.IsInt64() && n.Int64() < 1<<31 && n.Int64() >= -1<<31 && td != time.Duration(n.Int64())*time.Second {
				t.Fatalf("%q: duration(%q) = %v", in, k, td)
			}
			if n.Sign() >= 0 && td < 0 {
				t.Fatalf("%q: duration(%q) = %v is negative", in, k, td)
			}
			if len(durs) < 2000 {
				durs = append(durs, dv{n, td})
			}
		}
		for _, k := range []string{"zz", "", "max-age", "no-store"} {
			if _, ok := want[k]; d.has(k) != ok {
				t.Fatalf("%q: has(%q) = %v", in, k, d.has(k))
			}
			if _, ok := want[k]; !ok {
				if _, ok := d.duration(k); ok {
					t.Fatalf("%q: duration(%q) exists", in, k)
				}
			}
		}
	}
	for _, a := range durs {
		for _, b := range durs {
			if a.n.Cmp(b.n) <= 0 && a.d > b.d {
				t.Fatalf("%v seconds is %v but %v seconds is %v", a.n, a.d, b.n, b.d)
			}
		}
	}
	if d := directivesFrom(http.Header{}); len(d) != 0 {
		t.Fatal("directives without a header")
	}
}
