package jlibhttp

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
)

// vstream is one streaming session seen from the client's side
type vstream struct {
	send  func(s string)
	recv  func() (string, bool)
	close func()
	over  chan struct{} // closed when the server's ServeHTTP returned
}

type vflushed struct {
	mu      sync.Mutex
	w       *io.PipeWriter
	buf     strings.Builder
	h       http.Header
	codes   []int
	unflush int
}

func (f *vflushed) Header() http.Header { return f.h }
func (f *vflushed) WriteHeader(c int)   { f.codes = append(f.codes, c) }
func (f *vflushed) Write(b []byte) (int, error) {
	f.mu.Lock()
	f.buf.Write(b)
	f.mu.Unlock()
	return len(b), nil
}
func (f *vflushed) Flush() {
	f.mu.Lock()
	s := f.buf.String()
	f.buf.Reset()
	f.mu.Unlock()
	f.w.Write([]byte(s))
}

func vopen(kind string, a *Actor, spawn bool) (*vstream, error) {
	v := &vstream{over: make(chan struct{})}
	if kind == "ws" {
		h := NewWSHandler(context.Background(), a)
		h.SpawnGoroutine = spawn
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(v.over)
			h.ServeHTTP(w, r)
		}))
		ws, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
		if err != nil {
			srv.Close()
			return nil, err
		}
		v.send = func(s string) { ws.WriteMessage(websocket.TextMessage, []byte(s)) }
		v.recv = func() (string, bool) {
			t, b, err := ws.ReadMessage()
			return string(b), err == nil && t == websocket.TextMessage
		}
		v.close = func() { ws.Close(); srv.CloseClientConnections(); srv.Close() }
		return v, nil
	}
	h := NewH2Handler(context.Background(), a)
	h.UseH2C = true
	h.SpawnGoroutine = spawn
	inR, inW := io.Pipe()
	outR, outW := io.Pipe()
	ctx, cancel := context.WithCancel(context.Background())
	w := &vflushed{w: outW, h: http.Header{}}
	req := (&http.Request{Method: "POST", Header: http.Header{}, Body: inR}).WithContext(ctx)
	go func() {
		defer close(v.over)
		defer outW.Close()
		defer cancel()
		h.ServeHTTP(w, req)
	}()
	lines := bufio.NewReader(outR)
	v.send = func(s string) {
		io.WriteString(inW, s)
	}
	v.recv = func() (string, bool) {
		s, err := lines.ReadString('\n')
		return strings.TrimSuffix(s, "\n"), err == nil
	}
	v.close = func() { inW.Close(); outR.Close() }
	return v, nil
}

func TestReplayC22Sessions(t *testing.T) {
	vrun(t, 3000, func(r *rand.Rand) string {
		kind := vpick(r, "ws", "h2")
		spawn := r.Intn(2) == 0
		var mu sync.Mutex
		fed := map[string]int{}
		bad := ""
		var last RPCSession
		note := func(req *RPCRequest, k string) {
			mu.Lock()
			defer mu.Unlock()
			fed[k]++
			last = req.Session()
			if req.Session() == nil || req.r == nil {
				bad = "a message was fed without its session or request"
			}
		}
		a := NewActor()
		a.RecoverFromPanic = true
		key := func(params []interface{}) string { return vshow(params[0]) }
		a.OnRequest("echo", func(req *RPCRequest, params []interface{}) (interface{}, error) {
			note(req, key(params))
			return params[0], nil
		})
		a.OnRequest("push", func(req *RPCRequest, params []interface{}) (interface{}, error) {
			note(req, key(params))
			for i := 0; i < 3; i++ {
				req.Session().Send(jlib.NewNotifyMessage("p", []interface{}{i}))
			}
			return params[0], nil
		})
		a.OnRequest("unencodable", func(req *RPCRequest, params []interface{}) (interface{}, error) {
			note(req, key(params))
			return func() {}, nil
		})
		a.OnRequest("fail", func(req *RPCRequest, params []interface{}) (interface{}, error) {
			note(req, key(params))
			return nil, errors.New("failed")
		})
		a.OnRequest("note", func(req *RPCRequest, params []interface{}) (interface{}, error) {
			note(req, key(params))
			return jlib.NewNotifyMessage("noted", params), nil
		})
		a.OnMissing(func(req *RPCRequest) (interface{}, error) {
			note(req, "missing "+vshow(req.Msg().MustId()))
			return nil, nil
		})
		closes := 0
		a.OnClose(func(req *http.Request, s RPCSession) {
			mu.Lock()
			closes++
			if s == nil {
				bad = "the close callback got no session"
			}
			mu.Unlock()
		})
		v, err := vopen(kind, a, spawn)
		if err != nil {
			return ""
		}
		defer v.close()
		var want []string
		wantFed := map[string]int{}
		var texts []string
		n := 1 + r.Intn(8)
		enc := func(m jlib.Message) string { b, _ := jlib.MessageBytes(m); return string(b) }
		for i := 0; i < n; i++ {
			m := vpick(r, "echo", "echo", "push", "unencodable", "fail", "none", "note")
			p := interface{}(fmt.Sprintf("p%d", i))
			if r.Intn(20) == 0 {
				p = strings.Repeat("x", 20000) + fmt.Sprint(i)
			}
			if r.Intn(4) == 0 && m != "fail" && m != "note" {
				texts = append(texts, enc(jlib.NewNotifyMessage(m, []interface{}{p})))
				if m != "none" {
					wantFed[vshow(p)]++
				}
				if m == "none" {
					texts = texts[:len(texts)-1]
				}
				if m == "push" {
					for j := 0; j < 3; j++ {
						want = append(want, enc(jlib.NewNotifyMessage("p", []interface{}{j})))
					}
				}
				continue
			}
			if r.Intn(8) == 0 {
				texts = append(texts, fmt.Sprintf(`{"jsonrpc":"2.0","id":"r%d","result":1}`, i))
				wantFed["missing "+vshow(fmt.Sprintf("r%d", i))]++
				continue
			}
			q := jlib.NewRequestMessage(fmt.Sprintf("i%d", i), m, []interface{}{p})
			texts = append(texts, enc(q))
			if m != "none" {
				wantFed[vshow(p)]++
			} else {
				wantFed["missing "+vshow(q.Id)]++
			}
			switch m {
			case "echo":
				want = append(want, enc(jlib.NewResultMessage(q, p)))
			case "push":
				for j := 0; j < 3; j++ {
					want = append(want, enc(jlib.NewNotifyMessage("p", []interface{}{j})))
				}
				want = append(want, enc(jlib.NewResultMessage(q, p)))
			case "note":
				want = append(want, enc(jlib.NewNotifyMessage("noted", []interface{}{p})))
			case "fail":
				want = append(want, enc(jlib.ErrInternalError.ToMessage(q)))
			case "none":
				want = append(want, enc(jlib.NewResultMessage(q, nil)))
			}
		}
		go func() {
			for _, s := range texts {
				v.send(s)
			}
		}()
		desc := fmt.Sprintf("%s session (spawning %v) given %s", kind, spawn, vtrunc(strings.Join(texts, " ")))
		var got []string
		in := make(chan string, 100)
		go func() {
			for {
				s, ok := v.recv()
				if !ok {
					close(in)
					return
				}
				in <- s
			}
		}()
		timeout := time.After(3 * time.Second)
	read:
		for len(got) < len(want) {
			select {
			case s, ok := <-in:
				if !ok {
					break read
				}
				got = append(got, s)
			case <-timeout:
				break read
			}
		}
		g, w := append([]string{}, got...), append([]string{}, want...)
		if spawn {
			sort.Strings(g)
			sort.Strings(w)
		}
		if strings.Join(g, "\n") != strings.Join(w, "\n") {
			return fmt.Sprintf("%s: sent back %s, expected %s", desc, vtrunc(strings.Join(g, " ")), vtrunc(strings.Join(w, " ")))
		}
		for dl := time.Now().Add(2 * time.Second); ; time.Sleep(time.Millisecond) {
			mu.Lock()
			s, e := vshow(fed), vshow(wantFed)
			mu.Unlock()
			if s == e {
				break
			}
			if time.Now().After(dl) {
				return fmt.Sprintf("%s: fed %s, expected %s", desc, vtrunc(s), vtrunc(e))
			}
		}
		how := vpick(r, "close", "malformed", "failing")
		if how == "close" {
			v.close()
		} else if how == "failing" {
			wantFed[vshow("end")]++
			go v.send(enc(jlib.NewNotifyMessage("fail", []interface{}{"end"})))
		} else {
			go v.send(vpick(r, "[]x", `{"jsonrpc":"2.0"}`, `{"jsonrpc":"2.0","id":{},"method":"echo","params":["bad"]}`, "\"x\"") + " ")
		}
		select {
		case <-v.over:
		case <-time.After(3 * time.Second):
			return fmt.Sprintf("%s: the session did not end (%s)", desc, how)
		}
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			return desc + ": " + bad
		}
		if vshow(fed) != vshow(wantFed) {
			return fmt.Sprintf("%s: fed %s, expected %s (%s)", desc, vtrunc(vshow(fed)), vtrunc(vshow(wantFed)), how)
		}
		if closes != 1 {
			return fmt.Sprintf("%s: the close callback was called %d times (%s)", desc, closes, how)
		}
		// a message whose handling starts late still reaches the actor
		if s, ok := last.(*WSSession); ok {
			mu.Unlock()
			pv := func() (p interface{}) {
				defer func() { p = recover() }()
				s.msgBytesReceived([]byte(`{"jsonrpc":"2.0","method":"echo","params":["late"]}`))
				return nil
			}()
			mu.Lock()
			if pv != nil {
				return fmt.Sprintf("%s: a message whose handling began as the session ended panics: %v", desc, pv)
			}
		}
		return ""
	})
}

func TestReplayC22NoSession(t *testing.T) {
	vrun(t, 20, func(r *rand.Rand) string {
		a := NewActor()
		closes := 0
		a.OnClose(func(r *http.Request, s RPCSession) { closes++ })
		w := &vwriter22{h: http.Header{}}
		method, kind := vpick(r, "GET", "POST"), vpick(r, "ws", "h2")
		var h http.Handler = NewWSHandler(context.Background(), a)
		if kind == "h2" {
			h2 := NewH2Handler(context.Background(), a)
			h2.UseH2C = true
			h = h2
		}
		h.ServeHTTP(w, httptest.NewRequest(method, "/", strings.NewReader("{}")))
		if closes != 0 {
			return fmt.Sprintf("a plain %s on the %s handler: the close callback was called %d times without a session", method, kind, closes)
		}
		return ""
	})
}

// vwriter22 can neither be hijacked nor flushed
type vwriter22 struct{ h http.Header }

func (w *vwriter22) Header() http.Header         { return w.h }
func (w *vwriter22) WriteHeader(c int)           {}
func (w *vwriter22) Write(b []byte) (int, error) { return len(b), nil }

func vtrunc(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
