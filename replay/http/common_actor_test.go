package jlibhttp

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	jlibschema "github.com/superisaac/jlib/schema"
)

// a random tree of actors with what was registered in it, and a reading of
// what it should do with a message

type vhandler struct {
	name    string
	wants   string // the type its schema asks of the only param, "" without schema
	schema  jlibschema.Schema
	value   interface{}
	err     error
	panics  bool
	pv      interface{}
	calls   []*RPCRequest
	params  []interface{}
	ncalled int
}

func (h *vhandler) run(req *RPCRequest, params []interface{}) (interface{}, error) {
	h.ncalled++
	h.calls = append(h.calls, req)
	h.params = params
	if h.panics {
		panic(h.pv)
	}
	return h.value, h.err
}

type vnode struct {
	a        *Actor
	own      map[string]*vhandler
	missing  *vhandler
	closed   int
	hasClose bool
	children []*vnode
}

func (n *vnode) all() []*vhandler {
	var hs []*vhandler
	for _, h := range n.own {
		hs = append(hs, h)
	}
	if n.missing != nil {
		hs = append(hs, n.missing)
	}
	for _, c := range n.children {
		hs = append(hs, c.all()...)
	}
	return hs
}

func (n *vnode) nodes() []*vnode {
	ns := []*vnode{n}
	for _, c := range n.children {
		ns = append(ns, c.nodes()...)
	}
	return ns
}

func (n *vnode) has(m string) bool {
	if n.own[m] != nil {
		return true
	}
	for _, c := range n.children {
		if c.has(m) {
			return true
		}
	}
	return false
}

// server finds the actor and handler a method belongs to, if any
func (n *vnode) server(m string) (*vnode, *vhandler) {
	if h := n.own[m]; h != nil {
		return n, h
	}
	for _, c := range n.children {
		if c.has(m) {
			return c.server(m)
		}
	}
	return n, nil
}

var vmethods = []string{"a", "b", "c", "d"}

type verror struct{ s string }

func (e verror) Error() string { return e.s }

func voutcome(r *rand.Rand, h *vhandler) {
	wrapped := func(e error) error {
		switch r.Intn(3) {
		case 0:
			return pkgerrors.Wrap(e, "while at it")
		case 1:
			return fmt.Errorf("deeper: %w", pkgerrors.WithStack(e))
		}
		return e
	}
	var err error
	switch r.Intn(12) {
	case 0:
		h.value = nil
	case 1:
		h.value = r.Intn(100)
	case 2:
		h.value = []interface{}{"x", h.name}
	case 3:
		h.value = jlib.NewResultMessage(jlib.NewRequestMessage(r.Intn(9), "z", nil), "raw")
	case 4:
		h.value = jlib.NewErrorMessage(jlib.NewRequestMessage("q", "z", nil), jlib.ErrBadResource)
	case 5, 6:
		err = wrapped(&jlib.RPCError{Code: r.Intn(2000) - 1000, Message: vpick(r, "no", "never", ""), Data: []interface{}{nil, "d", 3}[r.Intn(3)]})
	case 7, 8:
		err = wrapped(&WrappedResponse{Response: &http.Response{StatusCode: 400 + r.Intn(100)}, Body: []byte("up")})
	case 9:
		err = wrapped(errors.New("secret"))
	case 10:
		err = verror{"odd secret"}
	case 11:
		err = &SimpleResponse{Code: 418}
	}
	if r.Intn(4) == 0 {
		h.panics = true
		if err != nil && r.Intn(4) > 0 {
			h.pv = err
		} else {
			h.pv = []interface{}{"boom", 17, verror{"an error"}}[r.Intn(3)]
		}
		return
	}
	if err != nil && r.Intn(3) == 0 {
		h.value = "ignored"
	}
	h.err = err
}

func vtree(r *rand.Rand, depth int, count *int, schemas bool) *vnode {
	n := &vnode{a: NewActor(), own: map[string]*vhandler{}}
	n.a.RecoverFromPanic = r.Intn(4) > 0
	n.a.ValidateSchema = r.Intn(4) > 0
	mk := func() *vhandler {
		*count++
		h := &vhandler{name: fmt.Sprintf("h%d", *count)}
		voutcome(r, h)
		return h
	}
	for _, m := range vmethods {
		if r.Intn(3) > 0 {
			continue
		}
		h := mk()
		var setters []HandlerSetter
		if schemas && r.Intn(2) == 0 {
			h.wants = vpick(r, "number", "string", "bool")
			s, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(`{"type": "method", "params": ["` + h.wants + `"]}`))
			if err != nil {
				panic(err)
			}
			h.schema = s
			setters = append(setters, WithSchema(s))
		}
		if err := n.a.OnRequest(m, h.run, setters...); err != nil {
			panic(err)
		}
		n.own[m] = h
	}
	if r.Intn(2) == 0 {
		h := mk()
		n.missing = h
		if err := n.a.OnMissing(func(req *RPCRequest) (interface{}, error) { return h.run(req, nil) }); err != nil {
			panic(err)
		}
	}
	if depth > 0 {
		for i := r.Intn(4); i > 0; i-- {
			c := vtree(r, depth-1, count, schemas)
			n.children = append(n.children, c)
			n.a.AddChild(c.a)
		}
	}
	return n
}

// vmessage: a message, and the type of its only param
func vmessage(r *rand.Rand) (jlib.Message, string) {
	kind := vpick(r, "number", "string", "bool")
	var p interface{}
	switch kind {
	case "number":
		p = float64(r.Intn(5))
	case "string":
		p = "s"
	default:
		p = r.Intn(2) == 0
	}
	m := vpick(r, vmethods...)
	var msg jlib.Message
	switch r.Intn(8) {
	case 0, 1, 2, 3:
		var id interface{} = r.Intn(1000)
		if r.Intn(2) == 0 {
			id = fmt.Sprintf("id%d", r.Intn(1000))
		}
		msg = jlib.NewRequestMessage(id, m, []interface{}{p})
	case 4, 5:
		msg = jlib.NewNotifyMessage(m, []interface{}{p})
	case 6:
		msg = jlib.NewResultMessage(jlib.NewRequestMessage(7, m, nil), p)
	case 7:
		msg = jlib.NewErrorMessage(jlib.NewRequestMessage(7, m, nil), jlib.ErrEmptyMethod)
	}
	msg.SetTraceId(vpick(r, "", "t1", "t2"))
	return msg, kind
}

type vfed struct {
	res      jlib.Message
	err      error
	panicked bool
	pv       interface{}
}

func vfeed(a *Actor, req *RPCRequest) (f vfed) {
	done := false
	defer func() {
		if !done {
			f.panicked, f.pv = true, recover()
		}
	}()
	f.res, f.err = a.Feed(req)
	done = true
	return
}

func vreq(msg jlib.Message) *RPCRequest {
	return NewRPCRequest(context.Background(), msg, TransportHTTP, nil)
}

func visnil(m jlib.Message) bool { return m == nil }

// vexpect says which handler is to be called (nil: none), by which actor, and
// whether the message is refused for its schema
func (n *vnode) vexpect(msg jlib.Message, kind string) (at *vnode, h *vhandler, refused bool) {
	if !msg.IsRequestOrNotify() {
		return n, n.missing, false
	}
	at, h = n.server(msg.MustMethod())
	if h == nil {
		return n, n.missing, false
	}
	if h.wants != "" && at.a.ValidateSchema && h.wants != kind {
		return at, nil, true
	}
	return at, h, false
}
