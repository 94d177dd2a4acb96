package jlibhttp

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/superisaac/jlib"
)

func TestReplayC13Feed(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		count := 0
		n := vtree(r, 2, &count, true)
		msg, kind := vmessage(r)
		_, want, refused := n.vexpect(msg, kind)
		req := vreq(msg)
		f := vfeed(n.a, req)
		for _, h := range n.all() {
			k := 0
			if h == want {
				k = 1
			}
			if h.ncalled != k {
				return fmt.Sprintf("handler %s called %d times, not %d, for %s", h.name, h.ncalled, k, vshow(msg.Interface()))
			}
			if k == 1 && h.calls[0] != req {
				return "the handler was given another request"
			}
			if k == 1 && h != n.missing && msg.IsRequestOrNotify() && vshow(h.params) != vshow(msg.MustParams()) && h.params != nil {
				return fmt.Sprintf("the handler was given params %s, not %s", vshow(h.params), vshow(msg.MustParams()))
			}
		}
		if want != nil {
			return ""
		}
		if f.panicked {
			return fmt.Sprintf("panic %v though no handler was to be called", f.pv)
		}
		var err *jlib.RPCError
		switch {
		case refused && msg.IsRequest():
			err = jlib.ErrInvalidSchema
		case refused:
			if f.err == nil || !visnil(f.res) {
				return fmt.Sprintf("notify refused for its schema gives %v, %v", f.res, f.err)
			}
			return ""
		case msg.IsRequest():
			err = jlib.ErrMethodNotFound
		default:
			if f.err != nil || !visnil(f.res) {
				return fmt.Sprintf("message without handler gives %v, %v", f.res, f.err)
			}
			return ""
		}
		e, ok := f.res.(*jlib.ErrorMessage)
		if f.err != nil || !ok || e.Error.Code != err.Code || vshow(e.Id) != vshow(msg.MustId()) || e.TraceId() != msg.TraceId() {
			return fmt.Sprintf("%s answered with %v, %v, not error %d with its id and trace id", vshow(msg.Interface()), f.res, f.err, err.Code)
		}
		return ""
	})
}
