package zzm

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	v "github.com/yields/ant/internal/zzv"
)

// A buffer or reader is the bytes not yet read.

//verif:opaque bytes.Buffer
type repBuffer struct{ Data v.Seq[byte] }

//verif:opaque bytes.Reader
type repBReader struct{ Data v.Seq[byte] }

//verif:opaque strings.Reader
type repSReader struct{ Data string }

//verif:opaque bufio.Reader
type repBufio struct{ Src io.Reader }

//verif:model bytes.NewBuffer
func bytesNewBuffer(b []byte) *bytes.Buffer {
	p := new(bytes.Buffer)
	v.Store(p, repBuffer{v.SeqOf(b)})
	return p
}

//verif:model (*bytes.Buffer).Write
func bufferWrite(b *bytes.Buffer, p []byte) (int, error) {
	v.Store(b, repBuffer{v.Load[repBuffer](b).Data.Concat(v.SeqOf(p))})
	return len(p), nil
}

//verif:model (*bytes.Buffer).WriteString
func bufferWriteString(b *bytes.Buffer, p string) (int, error) {
	v.Store(b, repBuffer{v.Load[repBuffer](b).Data.Concat(v.SeqOf([]byte(p)))})
	return len(p), nil
}

//verif:model (*bytes.Buffer).Bytes
func bufferBytes(b *bytes.Buffer) []byte { return bytesOf(v.Load[repBuffer](b).Data) }

func bytesOf(d v.Seq[byte]) []byte {
	r := v.AnyFresh[[]byte]()
	v.Assume(v.SeqOf(r).Eq(d))
	return r
}

//verif:model (*bytes.Buffer).Len
func bufferLen(b *bytes.Buffer) int { return v.Load[repBuffer](b).Data.Len() }

//verif:model (*bytes.Buffer).String
func bufferString(b *bytes.Buffer) string { return string(bufferBytes(b)) }

//verif:model bytes.NewReader
func bytesNewReader(b []byte) *bytes.Reader {
	p := new(bytes.Reader)
	v.Store(p, repBReader{v.SeqOf(b)})
	return p
}

//verif:model strings.NewReader
func stringsNewReader(s string) *strings.Reader {
	p := new(strings.Reader)
	v.Store(p, repSReader{s})
	return p
}

//verif:model bufio.NewReader
func bufioNewReader(r io.Reader) *bufio.Reader {
	p := new(bufio.Reader)
	v.Store(p, repBufio{r})
	return p
}

// NopCl is the result of io.NopCloser.
type NopCl struct{ R io.Reader }

func (n *NopCl) Read(p []byte) (int, error) { return n.R.Read(p) }
func (n *NopCl) Close() error               { return nil }

//verif:model io.NopCloser
func ioNopCloser(r io.Reader) io.ReadCloser { return &NopCl{r} }

// Content is what reading r to its end yields, if r is a reader over memory.
func Content(r any) (d v.Seq[byte], ok bool) {
	if n, is := r.(*NopCl); is {
		return Content1(n.R)
	}
	return Content1(r)
}

// Content1 is Content without looking below a NopCloser.
func Content1(r any) (d v.Seq[byte], ok bool) {
	switch r := r.(type) {
	case *bytes.Reader:
		return v.Load[repBReader](r).Data, true
	case *bytes.Buffer:
		return v.Load[repBuffer](r).Data, true
	case *strings.Reader:
		return v.SeqOf([]byte(v.Load[repSReader](r).Data)), true
	case *bufio.Reader:
		switch r := v.Load[repBufio](r).Src.(type) {
		case *bytes.Reader:
			return v.Load[repBReader](r).Data, true
		case *bytes.Buffer:
			return v.Load[repBuffer](r).Data, true
		}
	}
	return v.EmptySeq[byte](), false
}

// Drain reads r until its end or an error; contracts replace it.
func Drain(r io.Reader) (n int64, err error) {
	return v.Any[int64](), v.Any[error]()
}

//verif:model io.Copy
func ioCopy(dst io.Writer, src io.Reader) (int64, error) { return Drain(src) }
