package jlibhttp

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/superisaac/jlib/internal/vc"
)

// Trusted models of library functions, written in Go.

//vc:model strings.SplitN
func mSplitN(s, sep string, n int) []string {
	if n != 2 || sep == "" {
		return vc.Any[[]string]()
	}
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	return []string{s[:i], s[i+len(sep):]}
}

//vc:model strings.Cut
func mCut(s, sep string) (string, string, bool) {
	i := strings.Index(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

//vc:model strings.Trim
func mTrim(s, cutset string) string { return vc.UF[string]("strings.Trim", s, cutset) }

//vc:model (*net/http.Request).Context
func mReqContext(r *http.Request) context.Context {
	c := vc.Any[context.Context]()
	vc.Assume(c != nil)
	return c
}

//vc:model net/http.CanonicalHeaderKey
func mCanon(k string) string { return vc.UF[string]("http.canon", k) }

//vc:model (net/http.Header).Add
func mHeaderAdd(h http.Header, k, v string) {
	c := vc.UF[string]("http.canon", k)
	old := h[c]
	n := make([]string, len(old)+1)
	copy(n, old)
	n[len(old)] = v
	h[c] = n
	vc.Event("header.Add", h, k, v)
}

//vc:model (net/http.Header).Set
func mHeaderSet(h http.Header, k, v string) {
	h[vc.UF[string]("http.canon", k)] = []string{v}
}

//vc:model (net/http.Header).Get
func mHeaderGet(h http.Header, k string) string {
	vs := h[vc.UF[string]("http.canon", k)]
	if len(vs) == 0 {
		return ""
	}
	return vs[0]
}

//vc:model (*sync.Once).Do
func mOnceDo(o *sync.Once, f func()) {
	if onceDone(*o) {
		return
	}
	n := vc.Any[sync.Once]()
	vc.Assume(onceDone(n))
	*o = n
	f()
}

func onceDone(o sync.Once) bool { return !vc.Same(o, sync.Once{}) && vc.UF[bool]("once.done", o) }

// ---- reading and writing bytes

// bufText is what a buffer holds
func bufText(b bytes.Buffer) string {
	if vc.Same(b, bytes.Buffer{}) {
		return ""
	}
	return vc.UF[string]("buffer.text", b)
}

const evRead = "read" // a stream was read to its end: reader, text, error

//vc:model (*bytes.Buffer).ReadFrom
func mReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	old, text := bufText(*b), vc.ReaderText(r)
	err := anError()
	n := vc.Any[bytes.Buffer]()
	vc.Assume(!vc.Same(n, bytes.Buffer{}))
	vc.Assume(vc.Imp(err == nil, bufText(n) == old+text))
	*b = n
	vc.Event(evRead, r, err)
	return vc.Any[int64](), err
}

func anError() error {
	if vc.Any[bool]() {
		return nil
	}
	return vc.LibError()
}

//vc:model (*bytes.Buffer).Bytes
func mBufBytes(b *bytes.Buffer) []byte { return []byte(bufText(*b)) }

//vc:model (*bytes.Buffer).String
func mBufString(b *bytes.Buffer) string { return bufText(*b) }

//vc:model io.ReadAll
func mReadAll(r io.Reader) ([]byte, error) {
	err := anError()
	vc.Event(evRead, r, err)
	if err != nil {
		return []byte(vc.Any[string]()), err
	}
	return []byte(vc.ReaderText(r)), nil
}

//vc:model io/ioutil.ReadAll
func mIoutilReadAll(r io.Reader) ([]byte, error) { return mReadAll(r) }

// ---- a response writer has one header map

//vc:model iface:http.ResponseWriter.Header
func mRWHeader(w http.ResponseWriter) http.Header {
	h := vc.UF[http.Header]("writer.header", w)
	vc.Assume(h != nil)
	return h
}
