package antcache

import (
	"context"
	"errors"
	"io"
	"net/http"

	"github.com/hashicorp/go-multierror"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// recorded makes a response whose body is recorded under the key.
func recordedSpec(c *Cache, key uint64, resp *http.Response) { c.store(key, resp) }

// viaReads inspects the reader's buffer in loop invariants.
func bufferedSpec(rc io.ReadCloser) *cachereader {
	cr, _ := rc.(*cachereader)
	return cr
}

// reports tells whether err is or holds e.
func reportsSpec(err, e error) bool {
	if m, ok := err.(*multierror.Error); ok && m != nil {
		return v.Or(err == e, v.ExistsIn(0, len(m.Errors), func(i int) bool { return m.Errors[i] == e }))
	}
	return errors.Is(err, e)
}

//verif:property C26
//verif:covers any number of reads followed by any number of closes
func verif_C26_history(c *Cache, key uint64, resp *http.Response, reads, closes int, p []byte, dumpOK, storeOK bool, closeErr error) {
	v.Requires(v.And(v.And(c != nil, resp != nil), v.And(c.storage != nil, resp.Request != nil)))
	v.Requires(v.And(resp.Body != nil, v.And(resp.Request.URL != nil, resp.Request.Header != nil)))
	v.Requires(v.And(reads >= 0, closes >= 0))
	if m, ok := closeErr.(*multierror.Error); ok {
		v.Requires(m != nil) // a typed nil is no error to multierror
	}
	body := resp.Body
	v.Requires(!v.Is[*cachereader](body))
	header, status, clen := resp.Header, resp.StatusCode, resp.ContentLength
	ctx := resp.Request.Context()

	got := v.EmptySeq[byte]() // the bytes the origin's body yielded
	eof := false              // the origin's body reported its end
	var n int
	var rerr error
	v.Stub("(io.ReadCloser).Read", func(rc io.ReadCloser, q []byte) (int, error) {
		v.Assert("the origin's body is read", rc == body)
		v.Assert("into the caller's buffer", v.Same(q, p))
		n, rerr = v.Any[int](), v.Any[error]()
		v.Assume(v.And(0 <= n, n <= len(q)))
		v.HavocRow(q)
		got = got.Concat(v.SeqOf(q[:n]))
		eof = v.Or(eof, rerr == io.EOF)
		return n, rerr
	})
	nclose, ndump, nstore := 0, 0, 0
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("the origin's body is closed", rc == body)
		nclose++
		return closeErr
	})
	dump := v.Any[[]byte]()
	v.Stub("net/http/httputil.DumpResponse", func(r *http.Response, b bool) ([]byte, error) {
		d, ok := zzm.Content(r.Body)
		v.Assert("the recorded body is exactly what was read", v.And(b, v.And(ok, d.Eq(got))))
		v.Assert("the recorded response is complete", v.And(v.Same(r.Header, header), v.And(r.StatusCode == status, r.ContentLength == clen)))
		ndump++
		if !dumpOK {
			return nil, io.ErrShortWrite
		}
		return dump, nil
	})
	v.Stub("(ant/antcache.Storage).Store", func(s Storage, cx context.Context, k uint64, value []byte) error {
		v.Assert("recorded under the key", v.And(k == key, v.And(s == c.storage, cx == ctx)))
		v.Assert("the dump is what is recorded", v.Same(value, dump))
		nstore++
		if !storeOK {
			return io.ErrClosedPipe
		}
		return nil
	})
	recordedSpec(c, key, resp)
	v.Ensures("recording does not touch the response otherwise", v.And(v.Same(resp.Header, header), v.And(resp.StatusCode == status, resp.ContentLength == clen)))
	rb := resp.Body
	v.Loop("verif_C26_history", func(k v.Iter) {
		cr := bufferedSpec(rb)
		d, _ := zzm.Content(&cr.buf)
		v.Inv("the buffer holds what was read", d.Eq(got))
		v.Inv("the end is remembered", cr.eof == eof)
		v.Inv("closed once at most", zzm.OnceDone(&cr.once) == (nclose > 0))
		v.Inv("the reader stays", v.And(v.And(cr.rc == body, cr.resp == resp), v.And(cr.key == key, cr.ctx == ctx)))
		v.Inv("the response stays", v.And(v.Same(resp.Header, header), v.And(resp.StatusCode == status, resp.ContentLength == clen)))
		v.Inv("nothing closed while reading", v.And(nclose == 0, nstore == 0))
		v.Inv("closes are counted", nclose == int(k))
		v.Inv("read without closing", v.Imp(nclose == 0, v.And(ndump == 0, nstore == 0)))
		complete := v.Or(v.Or(eof, body == io.ReadCloser(http.NoBody)), int(clen) == got.Len())
		v.Inv("recorded at most once, only if complete", v.Imp(nclose > 0, v.And(ndump == v.Ite(complete, 1, 0), nstore == v.Ite(v.And(complete, dumpOK), 1, 0))))
	})
	for i := 0; i < reads; i++ {
		m, err := rb.Read(p)
		v.Ensures("a read returns what the origin's body returned", v.And(m == n, err == rerr))
	}
	v.Ensures("nothing is recorded while reading", nstore == 0)
	v.Ensures("reading does not close", nclose == 0)
	complete := v.Or(v.Or(eof, body == io.ReadCloser(http.NoBody)), int(clen) == got.Len())
	for i := 0; i < closes; i++ {
		before := nclose
		err := rb.Close()
		v.Ensures("closing always closes the origin's body", nclose == before+1)
		v.Ensures("its error is reported", v.Imp(closeErr != nil, v.And(err != nil, reportsSpec(err, closeErr))))
		failed := v.And(complete, v.Or(!dumpOK, !storeOK))
		v.Ensures("an error of recording is reported", v.Imp(v.And(before == 0, failed), err != nil))
		v.Ensures("no other error", v.Imp(v.And(closeErr == nil, v.Or(before > 0, !failed)), err == nil))
	}
	v.Ensures("recorded once if it was complete and closed", v.Imp(v.And(complete, v.And(closes > 0, dumpOK)), nstore == 1))
	v.Ensures("never more than once", nstore <= 1)
	v.Ensures("not recorded otherwise", v.Imp(v.Or(!complete, closes == 0), nstore == 0))
}
