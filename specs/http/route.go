package jlibhttp

import (
	"context"
	"net/http"
	"net/url"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- models

//vc:model (*net/http.Request).ProtoAtLeast
func mProtoAtLeast(r *http.Request, major, minor int) bool {
	return r.ProtoMajor > major || r.ProtoMajor == major && r.ProtoMinor >= minor
}

// ---- the gateway

const evHandler = "iface:http.Handler.ServeHTTP"

//vc:requires (*jlibhttp.GatewayHandler).ServeHTTP
func reqGateway(g *GatewayHandler, w http.ResponseWriter, r *http.Request) bool {
	return g != nil && r != nil && g.h1Handler != nil && g.wsHandler != nil && g.h2Handler != nil
}

func wantHandler(g *GatewayHandler, r *http.Request) http.Handler {
	up := r.Header.Get("Upgrade")
	if r.ProtoAtLeast(2, 0) {
		return g.h2Handler
	}
	if up == "h2c" {
		return g.h2Handler
	}
	if up == "websocket" {
		return g.wsHandler
	}
	return g.h1Handler
}

//vc:ensures (*jlibhttp.GatewayHandler).ServeHTTP name=exactly-the-right-handler props=C23
func ensGateway(g *GatewayHandler, w http.ResponseWriter, r *http.Request) bool {
	return vc.Count(evHandler) == 1 &&
		vc.Same(vc.Arg[http.Handler](evHandler, 0, 0), wantHandler(g, r)) &&
		vc.Same(vc.Arg[http.ResponseWriter](evHandler, 0, 1), w) &&
		vc.Arg[*http.Request](evHandler, 0, 2) == r
}

//vc:requires jlibhttp.NewGatewayHandler
func reqNewGateway(ctx context.Context, actor *Actor, insecure bool) bool { return true }

//vc:ensures jlibhttp.NewGatewayHandler name=handlers-of-the-same-actor props=C23
func ensNewGateway(ctx context.Context, actor *Actor, insecure bool, g *GatewayHandler) bool {
	if g == nil || g.Actor == nil || actor != nil && g.Actor != actor {
		return false
	}
	h1, ok1 := g.h1Handler.(*H1Handler)
	ws, ok2 := g.wsHandler.(*WSHandler)
	if !ok1 || !ok2 || h1 == nil || ws == nil || h1.Actor != g.Actor || ws.Actor != g.Actor {
		return false
	}
	if insecure {
		// the HTTP/2 handler sits inside the h2c wrapper
		in, ok := vc.Arg[http.Handler](evH2C, 0, 0).(*H2Handler)
		return vc.Count(evH2C) == 1 && vc.Same(g.h2Handler, vc.Ret[http.Handler](evH2C, 0, 0)) &&
			ok && in != nil && in.Actor == g.Actor && in.UseH2C
	}
	h2, ok := g.h2Handler.(*H2Handler)
	return ok && h2 != nil && h2.Actor == g.Actor && !h2.UseH2C
}

const evH2C = "call:golang.org/x/net/http2/h2c.NewHandler"

// ---- the HTTP/2 handler below HTTP/2

//vc:attr (*jlibhttp.H1Handler).ServeHTTP event

const evH1 = "(*jlibhttp.H1Handler).ServeHTTP"

// ---- clients by URL scheme

//vc:model net/url.Parse
func mURLParse(s string) (*url.URL, error) {
	if !vc.UF[bool]("url.ok", s) {
		return nil, vc.LibError()
	}
	u := vc.New[url.URL]()
	u.Scheme = vc.UF[string]("url.scheme", s)
	return u, nil
}

// a URL with one of the schemes known here prints to a text that parses to the same scheme
//
//vc:model (*net/url.URL).String
func mURLString(u *url.URL) string {
	s := vc.Any[string]()
	vc.Assume(vc.Pure(func() bool {
		return vc.Imp(knownScheme(u.Scheme), vc.UF[bool]("url.ok", s) && vc.UF[string]("url.scheme", s) == u.Scheme)
	}))
	vc.Event("url.text", u, s)
	return s
}

func knownScheme(s string) bool {
	return s == "http" || s == "https" || s == "ws" || s == "wss" || s == "h2" || s == "h2c"
}

//vc:ensures jlibhttp.NewClient name=client-by-scheme props=C23
func ensNewClient(serverUrl string, opts []ClientOptions, c Client, err error) bool {
	ok := vc.UF[bool]("url.ok", serverUrl)
	sch := vc.UF[string]("url.scheme", serverUrl)
	if !ok || !knownScheme(sch) {
		return err != nil && c == nil
	}
	if err != nil {
		return false
	}
	if sch == "http" || sch == "https" {
		h1, is := c.(*H1Client)
		return is && h1 != nil && h1.serverUrl.Scheme == sch
	}
	if sch == "ws" || sch == "wss" {
		ws, is := c.(*WSClient)
		return is && ws != nil && ws.serverUrl.Scheme == sch
	}
	h2, is := c.(*H2Client)
	return is && h2 != nil && h2.UseH2C == (sch == "h2c") &&
		vc.Imp(sch == "h2", h2.serverUrl.Scheme == "https") && vc.Imp(sch == "h2c", h2.serverUrl.Scheme == "http")
}

// ---- HTTP/2 handler

// the fallback handler is made once, for the handler's actor
func fallbackInv(h *H2Handler) bool {
	return onceDone(h.fallbackOnce) == (h.fallbackHandler != nil) &&
		vc.Imp(h.fallbackHandler != nil, h.fallbackHandler.Actor == h.Actor) && h.Actor != nil
}

//vc:requires (*jlibhttp.H2Handler).ServeHTTP
func reqH2(h *H2Handler, w http.ResponseWriter, r *http.Request) bool {
	return h != nil && fallbackInv(h) && wfActor(h.Actor) && r != nil && w != nil && r.Body != nil && h.serverCtx != nil
}

//vc:ensures (*jlibhttp.H2Handler).ServeHTTP name=below-http2-through-http1 props=C23
func ensH2Below(h *H2Handler, w http.ResponseWriter, r *http.Request) bool {
	below := vc.Old(func() bool { return !h.UseH2C && !r.ProtoAtLeast(2, 0) })
	if !below {
		return vc.Count(evH1) == 0
	}
	return vc.Count(evH1) == 1 && vc.Arg[*H1Handler](evH1, 0, 0).Actor == h.Actor &&
		vc.Same(vc.Arg[http.ResponseWriter](evH1, 0, 1), w) && vc.Arg[*http.Request](evH1, 0, 2) == r &&
		vc.Count("(*jlibhttp.H2Session).wait|iface:http.ResponseWriter.*") == 0
}

//vc:ensures (*jlibhttp.H2Handler).ServeHTTP name=fallback-kept props=C23
func ensH2Inv(h *H2Handler, w http.ResponseWriter, r *http.Request) bool { return fallbackInv(h) }

//vc:ensures jlibhttp.NewH2Handler name=fallback-made-lazily props=C23
func ensNewH2(ctx context.Context, actor *Actor, h *H2Handler) bool {
	return h != nil && fallbackInv(h) && vc.Imp(actor != nil, h.Actor == actor) && !h.UseH2C
}

//vc:attr jlibhttp.NewH2Handler inline
//vc:attr (*jlibhttp.H2Session).wait event
//vc:attr (*jlibhttp.Actor).HandleClose event
//vc:attr (*jlibhttp.H2Handler).ServeHTTP noframe
