package jlibhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"testing"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
)

// vwriter records what a server would send
type vwriter struct {
	h      http.Header
	sent   http.Header
	codes  []int
	bodies []string
	early  bool
}

func (w *vwriter) Header() http.Header { return w.h }
func (w *vwriter) WriteHeader(c int) {
	w.codes = append(w.codes, c)
	if w.sent == nil {
		w.sent = w.h.Clone()
	}
}
func (w *vwriter) Write(b []byte) (int, error) {
	if len(w.codes) == 0 {
		w.early = true
	}
	w.bodies = append(w.bodies, string(b))
	return len(b), nil
}

type vbody struct {
	r    io.Reader
	fail bool
}

func (b *vbody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		return n, errors.New("connection reset")
	}
	return n, err
}
func (b *vbody) Close() error { return nil }

func vheaders(h http.Header) string {
	var ks []string
	for k, vs := range h {
		if len(vs) > 0 {
			ks = append(ks, k+"="+strings.Join(vs, "|"))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// vbytesOf: the encoding of a message without its trace id
func vbytesOf(m jlib.Message) ([]byte, error) {
	tr := m.TraceId()
	defer m.SetTraceId(tr)
	m.SetTraceId("")
	return jlib.MessageBytes(m)
}

func TestReplayC19Answers(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		calls := 0
		var value interface{}
		var herr error
		var pv interface{}
		wantCode, wantBody, wantHeader := 0, "", ""
		anyBody := false
		a := NewActor()
		a.RecoverFromPanic = r.Intn(2) == 0
		text := vpick(r, `{"jsonrpc":"2.0","id":7,"method":"m","params":[1,"x"]}`, `{"jsonrpc":"2.0","id":"a","method":"m","params":{"k":[1]},"traceid":"t1"}`,
			`{"jsonrpc":"2.0","method":"m","params":[]}`, `{"jsonrpc":"2.0","id":3,"result":1}`, `{"jsonrpc":"2.0","id":3,"method":"unknown"}`,
			`{`, ``, `[]`, `{"jsonrpc":"2.0","id":3,"method":"m","params":[1`, `null`)
		msg, perr := jlib.ParseBytes([]byte(text))
		what := vpick(r, "value", "value", "error", "rpcerror", "simple", "upstream", "unencodable", "panic", "message")
		switch what {
		case "value":
			value = []interface{}{1, "two", map[string]interface{}{"x": nil}}[r.Intn(3)]
		case "error":
			herr = errors.New("secret")
		case "rpcerror":
			herr = &jlib.RPCError{Code: 12, Message: "no", Data: "d"}
		case "simple":
			herr = &SimpleResponse{Code: 200 + r.Intn(300), Body: []byte(vpick(r, "", "text"))}
			if r.Intn(2) == 0 {
				herr = pkgerrors.Wrap(herr, "deeper")
			}
		case "upstream":
			h := http.Header{}
			for i := r.Intn(4); i > 0; i-- {
				h.Add(vpick(r, "X-One", "X-Two", "Set-Cookie", "Content-Type"), vpick(r, "1", "2", "three"))
			}
			herr = &WrappedResponse{Response: &http.Response{StatusCode: 200 + r.Intn(300), Header: h}, Body: []byte(vpick(r, "", "up", "{}"))}
			if r.Intn(2) == 0 {
				herr = pkgerrors.Wrap(herr, "deeper")
			}
		case "unencodable":
			value = map[string]interface{}{"f": func() {}}
		case "panic":
			pv = vpick(r, "boom")
		case "message":
			if msg != nil && msg.IsRequest() {
				m := jlib.NewResultMessage(msg, "own")
				m.SetTraceId(vpick(r, "", "tt"))
				value = m
			}
		}
		a.On("m", func(params []interface{}) (interface{}, error) {
			calls++
			if pv != nil {
				panic(pv)
			}
			return value, herr
		})
		method := vpick(r, "POST", "POST", "POST", "POST", "GET", "PUT", "post", "")
		fail := r.Intn(6) == 0
		req := (&http.Request{Method: method, Header: http.Header{}, Body: &vbody{bytes.NewReader([]byte(text)), fail}}).WithContext(context.Background())
		w := &vwriter{h: http.Header{}}
		if r.Intn(3) == 0 {
			w.h.Set("X-Before", "yes")
		}
		before := w.h.Clone()
		sent := before.Clone()
		wantCalls := 0
		fed := method == "POST" && !fail && perr == nil
		isM := fed && (msg.IsRequest() || msg.IsNotify()) && msg.MustMethod() == "m"
		panics := isM && pv != nil
		switch {
		case method != "POST":
			wantCode, anyBody = 405, true
		case fail || perr != nil:
			wantCode, anyBody = 400, true
		default:
			wantCode = 200
			var res jlib.Message
			if isM {
				wantCalls = 1
			}
			var s *SimpleResponse
			var u *WrappedResponse
			switch {
			case isM && !msg.IsRequest() && herr != nil && !errors.As(herr, &s) && !errors.As(herr, &u):
				wantCode, anyBody = 500, true
			case isM && errors.As(herr, &u):
				wantCode, wantBody = u.Response.StatusCode, string(u.Body)
				for k, vs := range u.Response.Header {
					for _, v := range vs {
						sent.Add(k, v)
					}
				}
			case isM && errors.As(herr, &s) && !msg.IsRequest():
				wantCode, wantBody = s.Code, string(s.Body)
			case !msg.IsRequest():
			case !isM:
				res = jlib.ErrMethodNotFound.ToMessage(msg.(*jlib.RequestMessage))
			case what == "rpcerror":
				res = herr.(*jlib.RPCError).ToMessage(msg.(*jlib.RequestMessage))
			case herr != nil:
				res = jlib.ErrInternalError.ToMessage(msg.(*jlib.RequestMessage))
			case what == "message":
				res = value.(jlib.Message)
			default:
				res = jlib.NewResultMessage(msg, value)
			}
			if res != nil {
				if tr := res.TraceId(); tr != "" {
					sent.Set("X-Trace-Id", tr)
				}
				sent.Set("Content-Type", "application/json")
				b, err := vbytesOf(res)
				if err != nil {
					b, _ = jlib.MessageBytes(jlib.ErrInternalError.ToMessageFromId(msg.MustId(), ""))
				}
				wantBody = string(b)
				if err != nil {
					anyBody = true // the trace id may be in the body of the internal error
				}
			}
		}
		wantHeader = vheaders(sent)
		got := func() (p interface{}) {
			defer func() { p = recover() }()
			(&H1Handler{Actor: a}).ServeHTTP(w, req)
			return nil
		}()
		at := fmt.Sprintf("%s %q (read error %v) with a handler giving %s %v %v: status %v, header %s, body %q, handler called %d times", method, text, fail, what, value, herr, w.codes, vheaders(w.sent), w.bodies, calls)
		if panics {
			if got == nil || len(w.codes) > 0 {
				return at + ": the panic did not propagate"
			}
			return ""
		}
		if got != nil {
			return at + fmt.Sprintf(": panicked with %v", got)
		}
		if calls != wantCalls || len(w.codes) != 1 || w.codes[0] != wantCode || w.early || len(w.bodies) > 1 {
			return at
		}
		if !anyBody && strings.Join(w.bodies, "") != wantBody {
			return at + ", not " + wantBody
		}
		if what == "unencodable" && wantCode == 200 && isM && msg.IsRequest() && !strings.Contains(strings.Join(w.bodies, ""), "-32603") {
			return at + ", not an internal error"
		}
		if wantCode == 200 && fed && vheaders(w.sent) != wantHeader || what == "upstream" && isM && fed && vheaders(w.sent) != wantHeader {
			return at + ", not header " + wantHeader
		}
		return ""
	})
}
