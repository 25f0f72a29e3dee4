package antcdp

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

type objReplay = map[string]any

// event is sent by the fake Chrome after some time.
type eventReplay struct {
	after  time.Duration
	method string
	params objReplay
}

// chrome is a fake Chrome.
type chromeReplay struct {
	srv     *httptest.Server
	fail    map[string]bool          // methods that fail
	hang    map[string]bool          // methods that are not answered
	drop    map[string]bool          // methods at which the connection is dropped
	reply   map[string]objReplay     // results
	events  []eventReplay            // once Navigate was called, from then on
	early   bool                     // events are sent before Navigate is answered
	newfail bool                     // no targets
	newhang bool                     // targets are never created
	badws   bool                     // targets that cannot be dialled
	release chan struct{}            // ends what hangs
	onNav   func(target, url string) // called on Navigate

	mu      sync.Mutex
	created int
	open    map[string]int // connections per target
	dials   int
	shared  bool // a target had two connections
	partial bool // a page is read too early
	calls   []string
	navs    []string
}

func newChromeReplay(t testing.TB) *chromeReplay {
	c := &chromeReplay{fail: map[string]bool{}, hang: map[string]bool{}, drop: map[string]bool{}, reply: map[string]objReplay{}, open: map[string]int{}, release: make(chan struct{})}
	c.srv = httptest.NewServer(c)
	t.Cleanup(func() {
		close(c.release)
		c.srv.CloseClientConnections()
	})
	c.reply["Page.navigate"] = objReplay{"frameId": "main", "loaderId": "l1"}
	c.reply["DOM.getDocument"] = objReplay{"root": objReplay{"nodeId": 7, "backendNodeId": 8, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": ""}}
	c.reply["DOM.getOuterHTML"] = objReplay{"outerHTML": "<html></html>"}
	c.reply["Storage.getCookies"] = objReplay{"cookies": []objReplay{}}
	return c
}

func (c *chromeReplay) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if strings.HasPrefix(r.URL.Path, "/ws/") {
		c.session(w, r, r.URL.Path[4:])
		return
	}
	if r.URL.Path == "/json/version" {
		w.Write([]byte("{}"))
		return
	}
	if r.URL.Path != "/json/new" {
		http.NotFound(w, r)
		return
	}
	if c.newhang {
		<-c.release
		return
	}
	if c.newfail {
		http.Error(w, "no", 404)
		return
	}
	c.mu.Lock()
	c.created++
	id := fmt.Sprint("t", c.created)
	c.mu.Unlock()
	ws := "ws" + strings.TrimPrefix(c.srv.URL, "http") + "/ws/" + id
	if c.badws {
		ws = "ws" + strings.TrimPrefix(c.srv.URL, "http") + "/none/" + id
	}
	json.NewEncoder(w).Encode(objReplay{"id": id, "type": "page", "webSocketDebuggerUrl": ws})
}

func (c *chromeReplay) session(w http.ResponseWriter, r *http.Request, id string) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	c.mu.Lock()
	c.open[id]++
	c.dials++
	c.shared = c.shared || c.open[id] > 1
	c.mu.Unlock()
	gone := make(chan struct{})
	defer func() {
		close(gone)
		c.mu.Lock()
		c.open[id]--
		c.mu.Unlock()
	}()
	conn, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer conn.Close()
	var wmu sync.Mutex
	var rendered atomic.Bool // the page is there
	send := func(x any) {
		wmu.Lock()
		defer wmu.Unlock()
		conn.WriteJSON(x)
	}
	for {
		var m struct {
			ID     int             `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		if err := conn.ReadJSON(&m); err != nil {
			return
		}
		c.mu.Lock()
		c.calls = append(c.calls, m.Method)
		c.mu.Unlock()
		if c.drop[m.Method] {
			return
		}
		if c.hang[m.Method] {
			continue
		}
		if c.fail[m.Method] {
			send(objReplay{"id": m.ID, "error": objReplay{"code": -32000, "message": "failed on purpose"}})
			continue
		}
		res := c.reply[m.Method]
		if res == nil {
			res = objReplay{}
		}
		if m.Method == "DOM.getOuterHTML" && c.partial && !rendered.Load() {
			res = objReplay{"outerHTML": "<partial>"}
		}
		play := func() {
			for _, e := range c.events {
				if e.after > 0 {
					select {
					case <-time.After(e.after):
					case <-gone:
						return
					}
				}
				if e.method == "drop" {
					conn.Close()
					return
				}
				if e.method == "Page.domContentEventFired" {
					rendered.Store(true)
				}
				send(objReplay{"method": e.method, "params": e.params})
			}
		}
		if m.Method == "Page.navigate" {
			var p struct{ URL string }
			json.Unmarshal(m.Params, &p)
			c.mu.Lock()
			c.navs = append(c.navs, p.URL)
			c.mu.Unlock()
			if c.onNav != nil {
				c.onNav(id, p.URL)
			}
			if c.early {
				play()
			}
		}
		send(objReplay{"id": m.ID, "result": res})
		if m.Method == "Page.navigate" && !c.early {
			go play()
		}
	}
}

// quiet waits until no connection is open.
func (c *chromeReplay) quiet() bool {
	for i := 0; i < 300; i++ {
		c.mu.Lock()
		n := 0
		for _, k := range c.open {
			n += k
		}
		c.mu.Unlock()
		if n == 0 {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// response is an event for a response.
func responseReplay(frame, typ string, status int, hdr objReplay, proto string) eventReplay {
	res := objReplay{"url": "http://a.com/", "status": status, "statusText": "chrome says", "headers": hdr, "mimeType": "text/html", "charset": "", "connectionReused": false, "connectionId": 1, "encodedDataLength": 1, "securityState": "secure"}
	if proto != "" {
		res["protocol"] = proto
	}
	p := objReplay{"requestId": fmt.Sprint("r", vrndReplay.Intn(1000)), "loaderId": "l1", "timestamp": 1, "type": typ, "hasExtraInfo": false, "response": res}
	if frame != "" {
		p["frameId"] = frame
	}
	return eventReplay{method: "Network.responseReceived", params: p}
}

func reqEventReplay(id string) eventReplay {
	return eventReplay{method: "Network.requestWillBeSent", params: objReplay{"requestId": id, "loaderId": "l1", "documentURL": "http://a.com", "request": objReplay{"url": "http://a.com/x", "method": "GET", "headers": objReplay{}, "initialPriority": "High", "referrerPolicy": "origin"}, "timestamp": 1, "wallTime": 1, "initiator": objReplay{"type": "other"}, "redirectHasExtraInfo": false, "type": "Script", "frameId": "main"}}
}

func domReadyReplay() eventReplay {
	return eventReplay{method: "Page.domContentEventFired", params: objReplay{"timestamp": 1}}
}

// pooled is what the client's pool holds.
func pooledReplay(c *Client) (ids []string) {
	if c.transport == nil {
		return nil
	}
	for {
		select {
		case t := <-c.transport.pool.targets:
			ids = append(ids, t.ID)
			continue
		default:
		}
		return
	}
}

// methods are all calls that a request makes.
var methodsReplay = []string{"Page.enable", "Network.enable", "Network.setExtraHTTPHeaders", "Storage.setCookies", "Page.navigate", "DOM.getDocument", "DOM.getOuterHTML", "Storage.getCookies"}

func vgetReplay(t testing.TB, url string) *http.Request {
	r, err := http.NewRequest("GET", url, nil)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

type outcomeReplay struct {
	resp *http.Response
	err  error
}

// do performs a request, within a time.
func doReplay(c *Client, r *http.Request, max time.Duration) (*http.Response, error, bool) {
	ch := make(chan outcomeReplay, 1)
	go func() {
		resp, err := c.Do(r)
		ch <- outcomeReplay{resp, err}
	}()
	select {
	case o := <-ch:
		return o.resp, o.err, true
	case <-time.After(max):
		return nil, nil, false
	}
}
