package jlibhttp

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
)

type vserver struct {
	mu     sync.Mutex
	seen   []*http.Request
	bodies []string
	code   int
	body   string
	cut    string // "", "before" or "within" the answer
	header http.Header
}

func (s *vserver) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := ioutil.ReadAll(r.Body)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, r)
	s.bodies = append(s.bodies, string(b))
	if s.cut == "before" {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	}
	if s.cut == "within" {
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)+10))
	}
	w.WriteHeader(s.code)
	w.Write([]byte(s.body))
}

func TestReplayC20Call(t *testing.T) {
	srv := &vserver{}
	ts := httptest.NewServer(srv)
	defer ts.Close()
	u, err := url.Parse(ts.URL + "/path?x=1")
	if err != nil {
		t.Fatal(err)
	}
	extra := http.Header{}
	extra.Add("X-One", "1")
	extra.Add("X-One", "2")
	extra.Add("X-Two", "3")
	clients := []*H1Client{NewH1Client(u), NewH1Client(u)}
	clients[1].SetExtraHeader(extra)
	vrun(t, 20000, func(r *rand.Rand) string {
		ci := r.Intn(len(clients))
		c := clients[ci]
		srv.mu.Lock()
		srv.seen, srv.bodies, srv.code, srv.cut = nil, nil, 200, ""
		kind := vpick(r, "result", "result", "error", "error", "request", "notify", "garbage", "empty", "status", "status", "cut", "broken")
		result := []interface{}{nil, json.Number("1"), "s", true, map[string]interface{}{"a": "b"}, []interface{}{"x"}}[r.Intn(6)]
		code := r.Intn(5) - 2
		switch kind {
		case "result":
			srv.body = `{"jsonrpc":"2.0","id":1,"traceid":"other","result":` + vshow(result) + `}`
		case "error":
			srv.body = fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"error":{"code":%d,"message":"no"}}`, code)
		case "request":
			srv.body = `{"jsonrpc":"2.0","id":1,"method":"m","params":[]}`
		case "notify":
			srv.body = `{"jsonrpc":"2.0","method":"m","params":[]}`
		case "garbage":
			srv.body = vpick(r, "{", "[]", "null", "x", `{"jsonrpc":"2.0"}`)
		case "empty":
			srv.body = ""
		case "status":
			srv.code = []int{201, 202, 299, 400, 404, 408, 500, 503}[r.Intn(8)]
			srv.body = vpick(r, "", "text", `{"jsonrpc":"2.0","id":1,"result":1}`)
		case "cut":
			srv.body, srv.cut = `{"jsonrpc":"2.0","id":1,"result":1}`, "within"
			if r.Intn(2) == 0 {
				srv.code = 500
			}
		case "broken":
			srv.body, srv.cut = `{}`, "before"
		}
		body, status := srv.body, srv.code
		srv.mu.Unlock()
		req := jlib.NewRequestMessage(1, "m", []interface{}{1, "x"})
		trace := vpick(r, "", "t1", "t2")
		want := jlib.MessageString(req)
		req.SetTraceId(trace)
		unwrap := r.Intn(3) == 0
		var res jlib.Message
		var out interface{}
		var err error
		if unwrap {
			err = c.UnwrapCall(context.Background(), req, &out)
		} else {
			res, err = c.Call(context.Background(), req)
		}
		srv.mu.Lock()
		defer srv.mu.Unlock()
		at := fmt.Sprintf("answer %d %q (%s), trace id %q, unwrapping %v: message %v, error %v", status, body, kind, trace, unwrap, res, err)
		if len(srv.seen) != 1 {
			return at + fmt.Sprintf(": %d requests made", len(srv.seen))
		}
		q := srv.seen[0]
		if q.Method != "POST" || q.URL.String() != "/path?x=1" || srv.bodies[0] != want || q.Header.Get("Content-Type") != "application/json" || q.Header.Get("X-Trace-Id") != trace {
			return at + fmt.Sprintf(": sent %s %s %v %q", q.Method, q.URL, q.Header, srv.bodies[0])
		}
		if ci == 1 && (!reflect.DeepEqual(q.Header["X-One"], []string{"1", "2"}) || q.Header.Get("X-Two") != "3") {
			return at + fmt.Sprintf(": sent header %v", q.Header)
		}
		if kind != "result" && kind != "error" {
			if err == nil || !visnil(res) {
				return at
			}
			var w *WrappedResponse
			if kind == "status" && (!errors.As(err, &w) || w.Response.StatusCode != status || string(w.Body) != body) {
				return at + fmt.Sprintf(": wrapped response %v", w)
			}
			return ""
		}
		if unwrap {
			if kind == "error" {
				var e *jlib.RPCError
				if !errors.As(err, &e) || e.Code != code || e.Message != "no" {
					return at
				}
			} else if err != nil || vshow(out) != vshow(result) {
				return at + fmt.Sprintf(": decoded %v", out)
			}
			return ""
		}
		if err != nil || res.TraceId() != trace {
			return at
		}
		if kind == "error" {
			if !res.IsError() || res.MustError().Code != code {
				return at
			}
		} else if !res.IsResult() || vshow(res.MustResult()) != vshow(result) {
			return at
		}
		return ""
	})
}
