package jlibhttp

import (
	"errors"
	"io"
	"net/http"

	"github.com/superisaac/jlib"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- the HTTP/1 endpoint

const evParse = "jlib.ParseBytes"
const evEncode = "jlib.MessageBytes"
const evWrite = "iface:http.ResponseWriter.Write"

//vc:attr jlib.ParseBytes event
//vc:attr jlib.MessageBytes event inline@C01,C02,C03,C04
//vc:attr (*jlibhttp.H1Handler).ServeHTTP noframe extpanic

//vc:requires jlib.MessageBytes
func reqMessageBytes(m jlib.Message) bool { return jlib.VcWfMessage(m) }

//vc:ensures jlib.MessageBytes name=bytes-or-an-error props=C19,C20,C22
func ensMessageBytes(m jlib.Message, b []byte, err error) bool {
	return vc.Imp(err != nil, b == nil) && vc.Imp(err == nil, b != nil)
}

//vc:requires (*jlibhttp.H1Handler).ServeHTTP
func reqH1(h *H1Handler, w http.ResponseWriter, r *http.Request) bool {
	return h != nil && wfActor(h.Actor) && w != nil && r != nil && r.Body != nil
}

// status: the status is written once, before anything of the body
func status(w http.ResponseWriter, code int) bool {
	return vc.Count(evStatus) == 1 && vc.Same(vc.Arg[http.ResponseWriter](evStatus, 0, 0), w) && vc.Arg[int](evStatus, 0, 1) == code &&
		vc.Count(evWrite) <= 1 && vc.Imp(vc.Count(evWrite) == 1, vc.Pos(evStatus, 0) < vc.Pos(evWrite, 0) && vc.Same(vc.Arg[http.ResponseWriter](evWrite, 0, 0), w))
}

func body(text string) bool {
	if vc.Count(evWrite) == 0 {
		return text == ""
	}
	return vc.Bytes(vc.Arg[[]byte](evWrite, 0, 1)) == text
}

func oneValue(w http.ResponseWriter, name, v string) bool {
	k := vc.UF[string]("http.canon", name)
	return vc.At[bool](evStatus, 0, func() bool { return len(w.Header()[k]) == 1 && w.Header()[k][0] == v })
}

func sameValues(w http.ResponseWriter, name string) bool {
	k := vc.UF[string]("http.canon", name)
	n := vc.Old(func() int { return len(w.Header()[k]) })
	return vc.At[bool](evStatus, 0, func() bool { return len(w.Header()[k]) == n })
}

// fedOnce: the message decoded from the body was given to the actor
func fedOnce(h *H1Handler, r *http.Request) bool {
	if vc.Count(evFeed) != 1 || vc.Arg[*Actor](evFeed, 0, 0) != h.Actor {
		return false
	}
	q := vc.Arg[*RPCRequest](evFeed, 0, 1)
	return q != nil && vc.Same(q.msg, vc.Ret[jlib.Message](evParse, 0, 0)) && q.r == r && q.transportType == TransportHTTP
}

func wasRead(r *http.Request) bool {
	return vc.Count(evRead) == 1 && vc.Same[io.Reader](vc.Arg[io.Reader](evRead, 0, 0), r.Body)
}

func wasParsed(r *http.Request) bool {
	return vc.Count(evParse) == 1 && vc.Bytes(vc.Arg[[]byte](evParse, 0, 0)) == vc.ReaderText(r.Body)
}

// unfed: there is no message to feed
func unfed(r *http.Request) bool {
	return r.Method != "POST" || vc.Arg[error](evRead, 0, 1) != nil || vc.Ret[error](evParse, 0, 1) != nil
}

//vc:ensures (*jlibhttp.H1Handler).ServeHTTP name=bad-requests-reach-no-handler local props=C19
func ensH1Bad(h *H1Handler, w http.ResponseWriter, r *http.Request) bool {
	if r.Method != "POST" {
		return vc.Count(evFeed) == 0 && status(w, 405)
	}
	if !wasRead(r) {
		return false
	}
	if vc.Arg[error](evRead, 0, 1) != nil {
		return vc.Count(evFeed) == 0 && status(w, 400)
	}
	if !wasParsed(r) {
		return false
	}
	if vc.Ret[error](evParse, 0, 1) != nil {
		return vc.Count(evFeed) == 0 && status(w, 400)
	}
	return fedOnce(h, r)
}

//vc:ensures (*jlibhttp.H1Handler).ServeHTTP name=responses-are-sent local props=C19
func ensH1Response(h *H1Handler, w http.ResponseWriter, r *http.Request) bool {
	if unfed(r) || vc.Ret[error](evFeed, 0, 1) != nil {
		return true
	}
	res := vc.Ret[jlib.Message](evFeed, 0, 0)
	if res == nil {
		return status(w, 200) && body("")
	}
	trace := vc.At[string](evFeed, 0, func() string { return res.TraceId() })
	if !status(w, 200) || !oneValue(w, "Content-Type", "application/json") ||
		!vc.Imp(trace != "", oneValue(w, "X-Trace-Id", trace)) || !vc.Imp(trace == "", sameValues(w, "X-Trace-Id")) {
		return false
	}
	// what is encoded is the response, without its trace id
	if vc.Count(evEncode) == 0 || !vc.Same(vc.Arg[jlib.Message](evEncode, 0, 0), res) ||
		vc.At[string](evEncode, 0, func() string { return res.TraceId() }) != "" {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) == nil {
		return vc.Count(evWrite) == 1 && body(vc.Bytes(vc.Ret[[]byte](evEncode, 0, 0)))
	}
	// or, where it has no encoding, an internal error
	m := vc.Ret[jlib.Message](evParse, 0, 0)
	e, ok := vc.Arg[jlib.Message](evEncode, 1, 0).(*jlib.ErrorMessage)
	return vc.Count(evEncode) == 2 && ok && e.Error != nil && e.Error.Code == jlib.ErrInternalError.Code && vc.Same(e.Id, m.MustId()) &&
		vc.Count(evWrite) == 1 && body(vc.Bytes(vc.Ret[[]byte](evEncode, 1, 0)))
}

//vc:ensures (*jlibhttp.H1Handler).ServeHTTP name=errors-are-sent local props=C19
func ensH1Error(h *H1Handler, w http.ResponseWriter, r *http.Request) bool {
	if unfed(r) || vc.Ret[error](evFeed, 0, 1) == nil {
		return true
	}
	err := vc.Ret[error](evFeed, 0, 1)
	var s *SimpleResponse
	var u *WrappedResponse
	if errors.As(err, &s) {
		return status(w, s.Code) && body(string(s.Body))
	}
	if errors.As(err, &u) {
		return status(w, u.Response.StatusCode) && body(string(u.Body))
	}
	return status(w, 500) && vc.Count(evEncode) == 0
}

//vc:onpanic (*jlibhttp.H1Handler).ServeHTTP name=no-answer-to-a-panic local props=C19
func panicH1(h *H1Handler, w http.ResponseWriter, r *http.Request, pv interface{}) bool {
	return vc.Count(evFeed) == 1 && vc.Same(vc.PanicOf(evFeed, 0), pv) && vc.Count("iface:http.ResponseWriter.*") == 0
}

// upstream: the response a handler passed on instead of its own
func upstream() (*WrappedResponse, bool) {
	var u *WrappedResponse
	var s *SimpleResponse
	err := vc.Ret[error](evFeed, 0, 1)
	ok := err != nil && !errors.As(err, &s) && errors.As(err, &u)
	return u, ok
}

const evAdd = "header.Add"

//vc:ensures (*jlibhttp.H1Handler).ServeHTTP name=upstream-headers-are-sent local props=C19
func ensH1Upstream(h *H1Handler, w http.ResponseWriter, r *http.Request) bool {
	if unfed(r) {
		return true
	}
	_, ok := upstream()
	return vc.Imp(!ok, vc.Loops(evAdd) == 0) && vc.Imp(ok, vc.Loops(evAdd) == 1 && vc.Pos(evStatus, 0) > vc.LoopPos(evAdd))
}

// every name of the upstream's header is gone through, and each of its values is added once
//
//vc:iter (*jlibhttp.H1Handler).ServeHTTP name=each-upstream-header-is-sent inlined props=C19
func iterH1Upstream(h *H1Handler, w http.ResponseWriter, r *http.Request, back bool, k int) bool {
	ok := vc.Old(func() bool { _, ok := upstream(); return ok })
	u := vc.Old(func() *WrappedResponse { u, _ := upstream(); return u })
	if !ok {
		return false
	}
	if vc.MapLoop() && !back {
		return vc.Count(evAdd) == 0 && vc.ForallKey(u.Response.Header, func(k string, v []string) bool { return vc.Seen(k) })
	}
	if vc.Ref(u.Response.Header) == vc.Ref(w.Header()) {
		return true // not the writer's own
	}
	hn := vc.Key[string]()
	hvs := u.Response.Header[hn]
	if vc.MapLoop() {
		return vc.Loops(evAdd) == 1 || len(hvs) == 0
	}
	if !back {
		return vc.Count(evAdd) == 0 && k == len(hvs)
	}
	return vc.Count(evAdd) == 1 && vc.Ref(vc.Arg[http.Header](evAdd, 0, 0)) == vc.Ref(w.Header()) &&
		vc.Arg[string](evAdd, 0, 1) == hn && vc.Arg[string](evAdd, 0, 2) == vc.Old(func() string { return hvs[k] })
}
