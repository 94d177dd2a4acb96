package jlibhttp

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

type vnamed struct {
	name string
	log  *[]string
	w    http.ResponseWriter
	r    *http.Request
}

func (h *vnamed) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n := h.name
	if w != h.w || r != h.r {
		n += "(other arguments)"
	}
	*h.log = append(*h.log, n)
}

func TestReplayC23Gateway(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		var log []string
		req := httptest.NewRequest(vpick(r, "GET", "POST", "PRI"), "http://h/x", nil)
		req.ProtoMajor, req.ProtoMinor = r.Intn(4), r.Intn(3)
		up := vpick(r, "", "websocket", "h2c", "websockets", "h2", "other")
		key := vpick(r, "Upgrade", "upgrade", "UPGRADE")
		if up != "" || r.Intn(2) == 0 {
			req.Header.Set(key, up)
		}
		if r.Intn(4) == 0 {
			req.Header.Add("Upgrade", "h2c")
			up = req.Header.Get("Upgrade")
		}
		w := httptest.NewRecorder()
		g := NewGatewayHandler(context.Background(), nil, r.Intn(2) == 0)
		g.h1Handler = &vnamed{"h1", &log, w, req}
		g.h2Handler = &vnamed{"h2", &log, w, req}
		g.wsHandler = &vnamed{"ws", &log, w, req}
		want := "h1"
		if req.ProtoMajor >= 2 || up == "h2c" {
			want = "h2"
		} else if up == "websocket" {
			want = "ws"
		}
		g.ServeHTTP(w, req)
		if len(log) != 1 || log[0] != want {
			return fmt.Sprintf("HTTP/%d.%d %s with Upgrade %q is sent to %q, not %s", req.ProtoMajor, req.ProtoMinor, req.Method, up, log, want)
		}
		return ""
	})
}

func TestReplayC23Handlers(t *testing.T) {
	vrun(t, 2000, func(r *rand.Rand) string {
		actor := NewActor()
		if r.Intn(3) == 0 {
			actor = nil
		}
		insecure := r.Intn(2) == 0
		g := NewGatewayHandler(context.Background(), actor, insecure)
		if g.Actor == nil || actor != nil && g.Actor != actor {
			return "the gateway has another actor"
		}
		if h, ok := g.h1Handler.(*H1Handler); !ok || h.Actor != g.Actor {
			return fmt.Sprintf("HTTP/1 handler %#v", g.h1Handler)
		}
		if h, ok := g.wsHandler.(*WSHandler); !ok || h.Actor != g.Actor {
			return fmt.Sprintf("websocket handler %#v", g.wsHandler)
		}
		h, ok := g.h2Handler.(*H2Handler)
		if ok == insecure || ok && (h.Actor != g.Actor || h.UseH2C) {
			return fmt.Sprintf("HTTP/2 handler %#v, insecure %v", g.h2Handler, insecure)
		}
		// below HTTP/2 the HTTP/2 handler answers through HTTP/1, again and again
		a := NewActor()
		n := 0
		a.On("f", func(params []interface{}) (interface{}, error) { n++; return n, nil })
		h2 := NewH2Handler(context.Background(), a)
		for i := 1; i < 4; i++ {
			w := httptest.NewRecorder()
			h2.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewBufferString(`{"jsonrpc":"2.0","id":1,"method":"f","params":[]}`)))
			if w.Code != 200 || n != i || !strings.Contains(w.Body.String(), fmt.Sprintf(`"result":%d`, n)) {
				return fmt.Sprintf("call %d of the HTTP/2 handler below HTTP/2: %d %s, handler called %d times", i, w.Code, w.Body, n)
			}
		}
		return ""
	})
}

func TestReplayC23Client(t *testing.T) {
	vrun(t, 20000, func(r *rand.Rand) string {
		sch := vpick(r, "http", "https", "ws", "wss", "h2", "h2c", "ftp", "h3", "", "HTTP", "Ws", "H2C")
		s := sch + "://h:1/p"
		if r.Intn(8) == 0 {
			s = vpick(r, "://", "%zz", "http://h:x/", "", ":h2", "ws://%", "h2://[")
			sch = ""
		}
		c, err := NewClient(s)
		want := ""
		switch strings.ToLower(sch) {
		case "http", "https":
			want = "*jlibhttp.H1Client"
		case "ws", "wss":
			want = "*jlibhttp.WSClient"
		case "h2", "h2c":
			want = "*jlibhttp.H2Client"
		}
		got := ""
		if c != nil {
			got = fmt.Sprintf("%T", c)
		}
		if got != want || (err == nil) != (want != "") {
			return fmt.Sprintf("URL %q gives client %s, error %v", s, got, err)
		}
		if h2, ok := c.(*H2Client); ok {
			if (h2.ServerURL().Scheme == "http") != (strings.ToLower(sch) == "h2c") || (h2.ServerURL().Scheme == "https") != (strings.ToLower(sch) == "h2") || h2.UseH2C != (strings.ToLower(sch) == "h2c") {
				return fmt.Sprintf("URL %q gives an HTTP/2 client on %s, h2c %v", s, h2.ServerURL(), h2.UseH2C)
			}
		} else if c != nil && c.ServerURL().Scheme != strings.ToLower(sch) {
			return fmt.Sprintf("URL %q gives a client on %s", s, c.ServerURL())
		}
		return ""
	})
}
