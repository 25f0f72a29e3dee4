package robots

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/temoto/robotstxt"
)

// rSite answers robots.txt requests.
type rSiteReplay struct {
	answer map[string]rAnswerReplay // by scheme://host
	sent   map[string]int
	open   int
	t      *testing.T
}

type rAnswerReplay struct {
	status int
	body   string
	err    error
	bad    error // while reading
}

type rBodyReplay struct {
	s      *rSiteReplay
	r      io.Reader
	bad    error
	closed bool
}

func (b *rBodyReplay) Read(p []byte) (int, error) {
	if b.closed {
		b.s.t.Errorf("robots.txt read after close")
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.bad != nil {
		err = b.bad
	}
	return n, err
}

func (b *rBodyReplay) Close() error {
	if !b.closed {
		b.closed = true
		b.s.open--
	}
	return nil
}

func (s *rSiteReplay) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	k := r.URL.Scheme + "://" + r.URL.Host
	s.sent[k]++
	if r.Method != "GET" || r.URL.Path != "/robots.txt" || r.URL.RawQuery != "" {
		s.t.Errorf("request %s %s", r.Method, r.URL)
	}
	a, ok := s.answer[k]
	if !ok {
		s.t.Errorf("request to %s", k)
		return nil, errors.New("no such host")
	}
	if a.err != nil {
		return nil, a.err
	}
	s.open++
	return &http.Response{StatusCode: a.status, Status: http.StatusText(a.status), ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r,
		Body: &rBodyReplay{s: s, r: strings.NewReader(a.body), bad: a.bad}, ContentLength: -1}, nil
}

var rFilesReplay = []string{
	"", "User-agent: *\nDisallow: /\n", "User-agent: *\nDisallow: /a\nAllow: /a/b\n",
	"User-agent: ant\nDisallow: /a\nCrawl-delay: 3\n\nUser-agent: *\nDisallow: /b\nCrawl-delay: 7\n",
	"User-agent: bee\nDisallow: /\nCrawl-delay: 0.5\n", "User-agent: *\nCrawl-delay: 2\nDisallow: /*.pdf$\n",
	"User-agent: *\nCrawl-delay: 0\nAllow: /\n", "User-agent: *\nDisallow: /q?x=1\nDisallow: /%61\n", "Disallow: /\n", "\x00\x01 nothing",
	"User-agent: *\nDisallow: /a\nCrawl-delay: 90\n",
	"User-agent: *\nDisallow: /a\nCrawl-delay: -1\n",
}

func TestVerifC14(t *testing.T) {
	ss, _ := vseedsReplay()
	end := time.Now().Add(25 * time.Second)
	for i := 0; i < 6000 && time.Now().Before(end) && !t.Failed(); i++ {
		synctest.Test(t, func(t *testing.T) { rHistoryReplay(t, ss) })
	}
}

func rHistoryReplay(t *testing.T, ss []string) {
	s := &rSiteReplay{answer: map[string]rAnswerReplay{}, sent: map[string]int{}, t: t}
	client := &http.Client{Transport: s}
	c := NewCache(client, 50)
	hosts := []string{"a.com", "b.com", "a.com:8080", "sub.a.com", "[::1]:80"}
	boom := errors.New("boom")
	for _, h := range hosts {
		for _, sch := range []string{"http://", "https://"} {
			a := rAnswerReplay{status: vpickReplay(200, 200, 200, 200, 204, 299, 400, 401, 404, 499, 500, 503, 599), body: vpickReplay(rFilesReplay...)}
			if vrndReplay.Intn(6) == 0 {
				a.err = boom
			} else if vrndReplay.Intn(10) == 0 {
				a.bad = boom
			}
			if vrndReplay.Intn(12) == 0 {
				a.status = vpickReplay(100, 199, 300, 304, 399)
			}
			s.answer[sch+h] = a
		}
	}
	known := map[string]rAnswerReplay{}
	log := ""
	for n := 0; n < 8 && !t.Failed(); n++ {
		host := vpickReplay(hosts...)
		sch := vpickReplay("http://", "https://")
		k := sch + host
		u := &url.URL{Scheme: strings.TrimSuffix(sch, "://"), Host: host, Path: vpickReplay("", "/", "/a", "/a/b", "/b", "a", "a/b", "/x.pdf", "/q", "/a b", "//a", "/%61", "?"), RawQuery: vpickReplay("", "x=1")}
		if len(ss) > 0 && vrndReplay.Intn(4) == 0 {
			u.Path = vpickReplay(ss...)
		}
		if vrndReplay.Intn(4) == 0 { // the site changes its mind
			a := s.answer[k]
			a.err, a.bad, a.status, a.body = nil, nil, vpickReplay(200, 404), vpickReplay(rFilesReplay...)
			s.answer[k] = a
		}
		ua := vpickReplay("", "ant", "bee", "ANT/1.0", "*", "other")
		agent := ua
		if agent == "" {
			agent = "*"
		}
		ctx, cancel := context.WithCancel(context.Background())
		cut := vpickReplay(0, 0, 0, 1, 5)
		if cut > 0 {
			tm := time.AfterFunc(time.Duration(cut)*time.Second+time.Millisecond, cancel)
			defer tm.Stop()
		}
		dead := vrndReplay.Intn(12) == 0
		if dead {
			cancel()
		}
		before := 0
		for _, x := range s.sent {
			before += x
		}
		a, was := known[host]
		if !was {
			a = s.answer[k]
		}
		var data *robotstxt.RobotsData
		var perr error
		if a.err == nil && a.status < 400 {
			data, perr = robotstxt.FromStatusAndString(a.status, a.body)
		}
		fails := !was && (dead || a.err != nil || perr != nil || a.bad != nil && a.status < 400)
		op := vpickReplay("allowed", "wait")
		log += fmt.Sprintf("%s %s%q agent %q remembered %v: %+v\n", op, k, u.Path, ua, was, a)
		start := time.Now()
		if op == "allowed" {
			path := u.Path
			if path != "" && path[0] != '/' {
				path = "/" + path
			}
			ok, err := c.Allowed(ctx, Request{UserAgent: ua, URL: u})
			if fails != (err != nil) {
				t.Fatalf("error %v, expected %v\n%s", err, fails, log)
			}
			if err != nil && ok {
				t.Fatalf("allowed with error %v\n%s", err, log)
			}
			if err == nil && ok != (data == nil || data.TestAgent(path, agent)) {
				t.Fatalf("allowed %v\n%s", ok, log)
			}
		} else {
			err := c.Wait(ctx, Request{UserAgent: ua, URL: u})
			took := time.Since(start)
			var delay time.Duration
			if data != nil {
				if g := data.FindGroup(agent); g != nil && g.CrawlDelay > 0 {
					delay = g.CrawlDelay
				}
			}
			lim := time.Duration(cut)*time.Second + time.Millisecond
			switch {
			case fails:
				if err == nil {
					t.Fatalf("no error\n%s", log)
				}
			case delay > 0 && dead, delay > 0 && cut > 0 && lim < delay:
				if err == nil || !errors.Is(err, ctx.Err()) {
					t.Fatalf("context ended, error %v\n%s", err, log)
				}
				if took > lim {
					t.Fatalf("took %v after the context ended\n%s", took, log)
				}
			default:
				if err != nil || took != delay {
					t.Fatalf("error %v after %v, delay %v\n%s", err, took, delay, log)
				}
			}
		}
		after := 0
		for _, x := range s.sent {
			after += x
		}
		if was && after != before {
			t.Fatalf("remembered host asked again\n%s", log)
		}
		if after > before+1 {
			t.Fatalf("asked more than once\n%s", log)
		}
		if !was && !fails {
			known[host] = a
		}
		if s.open != 0 {
			t.Fatalf("%d robots.txt responses not closed\n%s", s.open, log)
		}
		cancel()
	}
}
