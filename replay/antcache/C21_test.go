package antcache

import (
	"net/http"
	"testing"
	"time"
)

func TestVerifC21(t *testing.T) {
	seeds, _ := vseedsReplay()
	n := 60000
	for i := 0; i < n+len(seeds)*20; i++ {
		r := genReqReplay()
		resp := genRespReplay(r)
		if i >= n {
			s := seeds[(i-n)/20]
			r.Method = "GET"
			resp.StatusCode = 200
			if vrndReplay.Intn(2) == 0 {
				r.Header = http.Header{"Cache-Control": {s}}
			} else {
				resp.Header.Set("Cache-Control", s)
			}
		}
		if vrndReplay.Intn(2) == 0 {
			r.Method = "GET"
		}
		if vrndReplay.Intn(2) == 0 {
			resp.Header.Set("Date", time.Now().UTC().Format(time.RFC1123))
		}
		d, dated := oDateReplay(resp.Header, "Date")
		base := (r.Method == "GET" || r.Method == "HEAD") && oStatusesReplay[resp.StatusCode] && dated
		rd, sd := oDirsReplay(r.Header), oDirsReplay(resp.Header)
		_, a := rd["no-store"]
		_, b := sd["no-store"]
		want := base && !a && !b
		if want {
			if s, ok := oSecsReplay(sd, "max-age"); ok {
				want = s > 0
			} else if e, ok := oDateReplay(resp.Header, "Expires"); ok {
				want = e.After(d)
			} else {
				want = false
			}
		}
		if got := (rfc7234{}).store(resp); got != want {
			t.Fatalf("rfc7234.store(%s %s -> %d %s) = %v, want %v", r.Method, hdrTextReplay(r.Header), resp.StatusCode, hdrTextReplay(resp.Header), got, want)
		}
		if got := (aggressive{time.Hour}).store(resp); got != base {
			t.Fatalf("aggressive.store(%s -> %d %s) = %v, want %v", r.Method, resp.StatusCode, hdrTextReplay(resp.Header), got, base)
		}
	}
}
