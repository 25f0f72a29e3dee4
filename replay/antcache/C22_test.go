package antcache

import (
	"net/http"
	"net/textproto"
	"strings"
	"testing"
	"time"
)

func TestVerifC22(t *testing.T) {
	seeds, _ := vseedsReplay()
	n := 80000
	for i := 0; i < n+len(seeds)*20; i++ {
		r := genReqReplay()
		resp := genRespReplay(r)
		if i >= n {
			s := seeds[(i-n)/20]
			if vrndReplay.Intn(2) == 0 {
				r.Header = http.Header{"Cache-Control": {s}}
			} else {
				resp.Header.Set("Cache-Control", s)
			}
		}
		if vrndReplay.Intn(2) == 0 {
			resp.Header.Set("Date", time.Now().UTC().Add(-time.Duration(vrndReplay.Intn(100000))*time.Second).Format(time.RFC1123))
		}
		want := stale
		vary := true
		for _, h := range strings.Split(r.Header.Get("Vary"), ",") {
			h = textproto.CanonicalMIMEHeaderKey(strings.TrimSpace(h))
			if h != "" && r.Header.Get(h) != resp.Header.Get(h) {
				vary = false
			}
		}
		rd, sd := oDirsReplay(r.Header), oDirsReplay(resp.Header)
		_, nc1 := rd["no-cache"]
		_, nc2 := sd["no-cache"]
		_, only := rd["only-if-cached"]
		d, dated := oDateReplay(resp.Header, "Date")
		close := false
		age := time.Since(d).Seconds()
		switch {
		case !vary:
			want = transparent
		case nc1 || nc2:
		case only:
			want = fresh
		case dated:
			life := 0.0
			if e, ok := oDateReplay(resp.Header, "Expires"); ok {
				life = float64(e.Unix() - d.Unix())
			}
			if s, ok := oSecsReplay(sd, "max-age"); ok {
				life = float64(s)
			}
			if s, ok := oSecsReplay(rd, "max-age"); ok {
				life = float64(s)
			}
			a := age
			if s, ok := oSecsReplay(rd, "min-fresh"); ok {
				a += float64(s)
			}
			if _, has := rd["max-stale"]; has {
				if s, ok := oSecsReplay(rd, "max-stale"); ok {
					a -= float64(s)
				} else {
					life = a + 100
				}
			}
			if life > a {
				want = fresh
			}
			close = life-a < 1.5 && a-life < 1.5
		}
		if got := (rfc7234{}).fresh(resp); got != want && !close {
			t.Fatalf("rfc7234.fresh(%s -> %s) = %v, want %v", hdrTextReplay(r.Header), hdrTextReplay(resp.Header), got, want)
		}
		ages := []time.Duration{0, -time.Hour, time.Second, time.Hour, 24 * time.Hour, 48 * time.Hour, 1000 * time.Hour, 1<<63 - 1}
		ag := ages[vrndReplay.Intn(len(ages))]
		lim := ag
		if ag <= 0 {
			lim = 24 * time.Hour
		}
		want = transparent
		if dated && age < lim.Seconds() && !nc1 {
			want = fresh
		}
		if df := age - lim.Seconds(); df < 1.5 && df > -1.5 {
			continue
		}
		if got := (aggressive{ag}).fresh(resp); got != want {
			t.Fatalf("aggressive{%v}.fresh(%s -> %s) = %v, want %v", ag, hdrTextReplay(r.Header), hdrTextReplay(resp.Header), got, want)
		}
	}
}
