package antcache

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net/http"
	"testing"
)

func TestVerifC26(t *testing.T) {
	for i := 0; i < 6000; i++ {
		data := make([]byte, []int{0, 1, 2, 5, 100, 513, 5000}[vrndReplay.Intn(7)])
		vrndReplay.Read(data)
		b := newBodyReplay(string(data))
		b.short = []int{0, 1, 3, 64}[vrndReplay.Intn(4)]
		b.eofWithData = vrndReplay.Intn(2) == 0
		if vrndReplay.Intn(4) == 0 {
			b.err = []error{errors.New("read"), io.ErrUnexpectedEOF}[vrndReplay.Intn(2)]
		}
		if vrndReplay.Intn(4) == 0 {
			b.cerr = errors.New("close")
		}
		st := &fstoreReplay{}
		if vrndReplay.Intn(4) == 0 {
			st.serr = errors.New("store")
		}
		clen := int64(len(data))
		chunked := vrndReplay.Intn(3) == 0
		if chunked {
			clen = -1
		} else if vrndReplay.Intn(5) == 0 {
			clen += 3 // truncated
		}
		r, _ := http.NewRequest("GET", "http://a.com/x", nil)
		var body io.ReadCloser = b
		nobody := vrndReplay.Intn(15) == 0
		if nobody {
			body, data, b.cerr, clen, chunked = http.NoBody, nil, nil, 0, false
		}
		resp := mkRespReplay(r, 200, body, clen, "Date", stampReplay(0), "Cache-Control", "max-age=60", "X-A", "1", "X-A", "2")
		if chunked {
			resp.TransferEncoding = []string{"chunked"}
		}
		cl := &fclientReplay{f: func(int, *http.Request) (*http.Response, error) { return resp, nil }}
		c, _ := New(cl, WithStorage(st))
		got, err := c.Do(r)
		if err != nil {
			t.Fatal(err)
		}
		var read []byte
		var rerr error
		reads := vrndReplay.Intn(6)
		if vrndReplay.Intn(2) == 0 {
			reads = 100000
		}
		for j := 0; j < reads && rerr == nil; j++ {
			p := make([]byte, []int{0, 1, 7, 512, 10000}[vrndReplay.Intn(5)])
			var n int
			n, rerr = got.Body.Read(p)
			read = append(read, p[:n]...)
		}
		if !bytes.HasPrefix(data, read) {
			t.Fatal("other bytes than the origin's")
		}
		if rerr == io.EOF && len(read) != len(data) {
			t.Fatalf("end after %d of %d bytes", len(read), len(data))
		}
		if rerr != nil && rerr != io.EOF && rerr != b.err {
			t.Fatalf("read error %v", rerr)
		}
		if b.err != nil && !nobody && rerr == io.EOF {
			t.Fatal("the read error was swallowed")
		}
		if len(st.stores) != 0 || b.closed != 0 {
			t.Fatal("recorded or closed before close")
		}
		complete := rerr == io.EOF || nobody || clen == int64(len(read))
		closes := 1 + vrndReplay.Intn(3)
		if nobody && false {
			closes = 1
		}
		for j := 0; j < closes; j++ {
			err := got.Body.Close()
			bad := b.cerr != nil || j == 0 && st.serr != nil && complete
			if nobody {
				bad = j == 0 && st.serr != nil
			}
			mismatch := complete && clen >= 0 && clen != int64(len(read)) // dump refuses
			if mismatch {
				continue
			}
			if bad != (err != nil) {
				t.Fatalf("close %d: %v (close error %v, store error %v, complete %v)", j, err, b.cerr, st.serr, complete)
			}
			if b.cerr != nil && !nobody && !bytes.Contains([]byte(err.Error()), []byte("close")) {
				t.Fatalf("the close error is lost: %v", err)
			}
			if j == 0 && st.serr != nil && complete && !bytes.Contains([]byte(err.Error()), []byte("store")) {
				t.Fatalf("the store error is lost: %v", err)
			}
		}
		if !nobody && b.closed != closes {
			t.Fatalf("closed %d times, origin %d", closes, b.closed)
		}
		mismatch := clen >= 0 && clen != int64(len(read))
		if mismatch && complete {
			if len(st.stores) > 1 {
				t.Fatal("recorded twice")
			}
			continue
		}
		want := 0
		if complete {
			want = 1
		}
		if len(st.stores) != want {
			t.Fatalf("recorded %d times, complete %v (read %d of %d, length %d, eof %v)", len(st.stores), complete, len(read), len(data), clen, rerr)
		}
		if want == 1 && st.serr == nil {
			sr, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(st.m[keyof(r)])), r)
			if err != nil {
				t.Fatal(err)
			}
			rb, err := io.ReadAll(sr.Body)
			if err != nil || !bytes.Equal(rb, read) {
				t.Fatalf("recorded %d bytes %v, read %d", len(rb), err, len(read))
			}
			if sr.StatusCode != 200 || len(sr.Header["X-A"]) != 2 {
				t.Fatalf("recorded %v", sr.Header)
			}
		}
	}
}
