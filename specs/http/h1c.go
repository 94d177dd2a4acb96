package jlibhttp

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"sync"

	"github.com/superisaac/jlib"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- the HTTP/1 client

const evNew = "newrequest" // context, method, url, body text, the request
const evDo = "do"          // client, request, response, error

//vc:model net/http.NewRequestWithContext
func mNewRequest(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	if err := anError(); err != nil {
		return nil, err
	}
	r := &http.Request{Method: method, Header: http.Header{}}
	vc.Event(evNew, ctx, method, u, vc.ReaderText(body), r)
	return r, nil
}

//vc:model (*net/http.Client).Do
func mDo(c *http.Client, r *http.Request) (*http.Response, error) {
	if err := anError(); err != nil {
		vc.Event(evDo, c, r, (*http.Response)(nil), err)
		return nil, err
	}
	resp := vc.New[http.Response]()
	*resp = vc.Any[http.Response]()
	vc.Assume(resp.Body != nil)
	vc.Event(evDo, c, r, resp, error(nil))
	return resp, nil
}

//vc:model context.WithCancel
func mWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := vc.Any[context.Context]()
	vc.Assume(c != nil && vc.Same(vc.UF[context.Context]("ctx.parent", c), parent))
	return c, func() {}
}

func wfClient(c *H1Client) bool {
	return c != nil && c.serverUrl != nil && vc.Imp(onceDone(c.connectOnce), c.httpClient != nil) &&
		vc.Imp(!onceDone(c.connectOnce), vc.Same(c.connectOnce, sync.Once{}))
}

//vc:attr (*jlibhttp.H1Client).request event noframe
//vc:attr (*jlibhttp.H1Client).Call event noframe
//vc:attr (*jlibhttp.H1Client).UnwrapCall noframe extpanic
//vc:attr (*jlibhttp.H1Client).Send noframe
//vc:attr jlib.DecodeInterface eventin=(*jlibhttp.H1Client).UnwrapCall,(*jlibhttp.StreamingClient).UnwrapCall

//vc:requires (*jlibhttp.H1Client).connect
func reqConnect(c *H1Client) bool { return wfClient(c) }

//vc:modifies (*jlibhttp.H1Client).connect
func modConnect(c *H1Client) {
	vc.Mod(&c.connectOnce)
	vc.Mod(&c.httpClient)
}

//vc:ensures (*jlibhttp.H1Client).connect name=has-an-http-client props=C20
func ensConnect(c *H1Client) bool { return onceDone(c.connectOnce) && wfClient(c) }

//vc:requires (*jlibhttp.H1Client).request
func reqRequest(c *H1Client, ctx context.Context, m *jlib.RequestMessage) bool {
	return wfClient(c) && m != nil && jlib.VcWfMessage(m)
}

func headerAt(q *http.Request, name string) []string {
	return q.Header[vc.UF[string]("http.canon", name)]
}

// ownHeaders: what the client itself puts into the header of a request
func ownHeaders(q *http.Request, trace string) bool {
	ct, tr := headerAt(q, "Content-Type"), headerAt(q, "X-Trace-Id")
	return len(ct) >= 1 && ct[0] == "application/json" && vc.Imp(trace != "", len(tr) >= 1 && tr[0] == trace)
}

// posted: the encoded message was posted once, as it is without its trace id
func posted(c *H1Client, m jlib.Message, trace string) bool {
	if vc.Count(evEncode) != 1 || !vc.Same(vc.Arg[jlib.Message](evEncode, 0, 0), m) ||
		vc.At[string](evEncode, 0, func() string { return m.TraceId() }) != "" {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) != nil || vc.Count(evNew) == 0 {
		return vc.Count(evDo) == 0
	}
	q := vc.Arg[*http.Request](evNew, 0, 4)
	return vc.Count(evNew) == 1 && vc.Arg[string](evNew, 0, 1) == "POST" && vc.Count(evURL) == 1 && vc.Arg[*url.URL](evURL, 0, 0) == c.serverUrl &&
		vc.Arg[string](evNew, 0, 2) == vc.Arg[string](evURL, 0, 1) && vc.Arg[string](evNew, 0, 3) == vc.Bytes(vc.Ret[[]byte](evEncode, 0, 0)) &&
		vc.Count(evDo) == 1 && vc.Arg[*http.Request](evDo, 0, 1) == q && vc.Arg[*http.Client](evDo, 0, 0) == c.httpClient &&
		vc.At[bool](evDo, 0, func() bool { return ownHeaders(q, trace) }) &&
		(len(c.extraHeader) == 0 || vc.Loops(evAdd) == 1 && vc.LoopPos(evAdd) < vc.Pos(evDo, 0))
}

const evURL = "url.text"

//vc:ensures (*jlibhttp.H1Client).request name=posted-once local props=C20
func ensRequestPosted(c *H1Client, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	return posted(c, m, vc.Old(func() string { return m.TraceId() }))
}

//vc:ensures (*jlibhttp.H1Client).request name=answer-or-error props=C20
func ensRequest(c *H1Client, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	if err != nil {
		return res == nil
	}
	return res != nil && jlib.VcWfMessage(res) && res.IsResultOrError() && res.TraceId() == vc.Old(func() string { return m.TraceId() })
}

//vc:ensures (*jlibhttp.H1Client).request name=the-answer-of-the-server local props=C20
func ensRequestAnswer(c *H1Client, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	if vc.Count(evDo) == 0 || vc.Arg[error](evDo, 0, 3) != nil {
		return err != nil && vc.Count(evParse) == 0
	}
	resp := vc.Arg[*http.Response](evDo, 0, 2)
	body := vc.At[io.ReadCloser](evDo, 0, func() io.ReadCloser { return resp.Body })
	if vc.Count(evRead) != 1 || !vc.Same[io.Reader](vc.Arg[io.Reader](evRead, 0, 0), body) {
		return false
	}
	if vc.Arg[error](evRead, 0, 1) != nil {
		return err != nil && vc.Count(evParse) == 0
	}
	if vc.At[int](evDo, 0, func() int { return resp.StatusCode }) != 200 {
		var w *WrappedResponse
		return err != nil && vc.Count(evParse) == 0 && errors.As(err, &w) && w.Response == resp && vc.Bytes(w.Body) == vc.ReaderText(body)
	}
	if vc.Count(evParse) != 1 || vc.Bytes(vc.Arg[[]byte](evParse, 0, 0)) != vc.ReaderText(body) {
		return false
	}
	if vc.Ret[error](evParse, 0, 1) != nil {
		return err != nil
	}
	p := vc.Ret[jlib.Message](evParse, 0, 0)
	return vc.Iff(err == nil, p.IsResultOrError()) && vc.Imp(err == nil, vc.Same(res, p))
}

//vc:invariant (*jlibhttp.H1Client).request
func invRequest(k int, c *H1Client, ctx context.Context, m *jlib.RequestMessage) bool {
	return ownHeaders(vc.Arg[*http.Request](evNew, 0, 4), vc.Old(func() string { return m.TraceId() }))
}

// extra: every name of the extra header is gone through, and each of its values is added once
func extra(c *H1Client, back bool, k int) bool {
	if vc.MapLoop() && !back {
		return vc.Count(evAdd) == 0 && vc.ForallKey(c.extraHeader, func(k string, v []string) bool { return vc.Seen(k) })
	}
	q := vc.Old(func() *http.Request { return vc.Arg[*http.Request](evNew, 0, 4) })
	hn := vc.Key[string]()
	hvs := c.extraHeader[hn]
	if vc.MapLoop() {
		return vc.Loops(evAdd) == 1 || len(hvs) == 0
	}
	if !back {
		return vc.Count(evAdd) == 0 && k == len(hvs)
	}
	return vc.Count(evAdd) == 1 && vc.Ref(vc.Arg[http.Header](evAdd, 0, 0)) == vc.Ref(q.Header) &&
		vc.Arg[string](evAdd, 0, 1) == hn && vc.Arg[string](evAdd, 0, 2) == vc.Old(func() string { return hvs[k] })
}

//vc:iter (*jlibhttp.H1Client).request name=each-extra-header-is-sent inlined props=C20
func iterRequest(c *H1Client, ctx context.Context, m *jlib.RequestMessage, back bool, k int) bool {
	return extra(c, back, k)
}

// ---- a call

const evReq = "(*jlibhttp.H1Client).request"
const evCall = "(*jlibhttp.H1Client).Call"
const evDecode = "jlib.DecodeInterface"

//vc:requires (*jlibhttp.H1Client).Call
func reqCall(c *H1Client, ctx context.Context, m *jlib.RequestMessage) bool {
	return reqRequest(c, ctx, m)
}

//vc:ensures (*jlibhttp.H1Client).Call name=answer-or-error props=C20
func ensCall(c *H1Client, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	return ensRequest(c, ctx, m, res, err)
}

//vc:ensures (*jlibhttp.H1Client).Call name=requested-once local props=C20
func ensCallOnce(c *H1Client, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	if vc.Count(evReq) != 1 || vc.Arg[*H1Client](evReq, 0, 0) != c || vc.Arg[*jlib.RequestMessage](evReq, 0, 2) != m {
		return false
	}
	e := vc.Ret[error](evReq, 0, 1)
	if e == nil {
		return err == nil && vc.Same(res, vc.Ret[jlib.Message](evReq, 0, 0))
	}
	var w, w0 *WrappedResponse
	var s, s0 *SimpleResponse
	isW, isS := errors.As(e, &w0), errors.As(e, &s0)
	return err != nil && vc.Imp(isW, errors.As(err, &w) && w == w0) && vc.Imp(isS, errors.As(err, &s) && s == s0)
}

//vc:requires (*jlibhttp.H1Client).UnwrapCall
func reqUnwrap(c *H1Client, ctx context.Context, m *jlib.RequestMessage, out interface{}) bool {
	return reqRequest(c, ctx, m)
}

//vc:ensures (*jlibhttp.H1Client).UnwrapCall name=decoded-or-the-error local props=C20
func ensUnwrap(c *H1Client, ctx context.Context, m *jlib.RequestMessage, out interface{}, err error) bool {
	if vc.Count(evCall) != 1 || vc.Arg[*H1Client](evCall, 0, 0) != c || vc.Arg[*jlib.RequestMessage](evCall, 0, 2) != m {
		return false
	}
	if e := vc.Ret[error](evCall, 0, 1); e != nil {
		return vc.Count(evDecode) == 0 && err != nil
	}
	res := vc.Ret[jlib.Message](evCall, 0, 0)
	if e, ok := res.(*jlib.ErrorMessage); ok {
		return vc.Count(evDecode) == 0 && vc.Same(err, error(e.Error))
	}
	return vc.Count(evDecode) == 1 && vc.Same(vc.Arg[interface{}](evDecode, 0, 0), vc.At[interface{}](evDecode, 0, func() interface{} { return res.MustResult() })) &&
		vc.Same(vc.Arg[interface{}](evDecode, 0, 1), out) && vc.Iff(err == nil, vc.Ret[error](evDecode, 0, 0) == nil)
}

//vc:onpanic (*jlibhttp.H1Client).UnwrapCall name=only-the-decoder-panics local props=C20
func panicUnwrap(c *H1Client, ctx context.Context, m *jlib.RequestMessage, out interface{}, pv interface{}) bool {
	return vc.Count(evDecode) == 1
}

// ---- sending without waiting for an answer

//vc:requires (*jlibhttp.H1Client).Send
func reqSend(c *H1Client, ctx context.Context, m jlib.Message) bool {
	return wfClient(c) && m != nil && jlib.VcWfMessage(m)
}

//vc:ensures (*jlibhttp.H1Client).Send name=posted-once local props=C20
func ensSendPosted(c *H1Client, ctx context.Context, m jlib.Message, err error) bool {
	return posted(c, m, vc.Old(func() string { return m.TraceId() }))
}

//vc:ensures (*jlibhttp.H1Client).Send name=refusals-are-errors local props=C20
func ensSend(c *H1Client, ctx context.Context, m jlib.Message, err error) bool {
	if vc.Count(evDo) == 0 || vc.Arg[error](evDo, 0, 3) != nil {
		return err != nil
	}
	resp := vc.Arg[*http.Response](evDo, 0, 2)
	return vc.Iff(err == nil, vc.At[int](evDo, 0, func() int { return resp.StatusCode }) == 200)
}

//vc:invariant (*jlibhttp.H1Client).Send
func invSend(k int, c *H1Client, ctx context.Context, m jlib.Message) bool {
	return ownHeaders(vc.Arg[*http.Request](evNew, 0, 4), vc.Old(func() string { return m.TraceId() }))
}

//vc:iter (*jlibhttp.H1Client).Send name=each-extra-header-is-sent inlined props=C20
func iterSend(c *H1Client, ctx context.Context, m jlib.Message, back bool, k int) bool {
	return extra(c, back, k)
}

// ---- construction

//vc:attr jlibhttp.NewH1Client maypanic

//vc:requires jlibhttp.NewH1Client
func reqNewH1(u *url.URL, opts []ClientOptions) bool { return u != nil }

//vc:ensures jlibhttp.NewH1Client name=a-client-of-that-server props=C20 fresh=0
func ensNewH1(u *url.URL, opts []ClientOptions, c *H1Client) bool {
	return wfClient(c) && c.serverUrl == u && len(c.extraHeader) == 0
}
