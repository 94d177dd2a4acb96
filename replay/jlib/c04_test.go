package jlib

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"
)

func TestReplayC04Derived(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		req := NewRequestMessage(vid(r), vmethod(r), vparams(r))
		req.SetTraceId(vtrace(r))
		before := vsnap(req)
		res := vresult(r)
		rm := NewResultMessage(req, res)
		if !rm.IsResult() || rm.Id != req.Id || rm.TraceId() != req.TraceId() || !reflect.DeepEqual(rm.Result, res) {
			return "NewResultMessage of " + before + ": " + vsnap(rm)
		}
		e := &RPCError{r.Intn(100) - 50, vstr(r), vjson(r, 1)}
		ecopy := *e
		isErr := func(m *ErrorMessage, data interface{}) bool {
			return m.IsError() && m.Id == req.Id && m.TraceId() == req.TraceId() && m.Error != nil &&
				m.Error.Code == ecopy.Code && m.Error.Message == ecopy.Message && reflect.DeepEqual(m.Error.Data, data)
		}
		for i, m := range []*ErrorMessage{
			NewErrorMessage(req, e), NewErrorMessageFromId(req.Id, req.TraceId(), e), e.ToMessage(req),
			e.ToMessageFromId(req.Id, req.TraceId()), RPCErrorMessage(req, e.Code, e.Message, e.Data),
			RPCErrorMessageFromId(req.Id, req.TraceId(), e.Code, e.Message, e.Data),
		} {
			if !isErr(m, ecopy.Data) {
				return fmt.Sprintf("error conversion %d of %s for %#v: %s", i, before, ecopy, vsnap(m))
			}
		}
		w := e.WithData(res)
		if !reflect.DeepEqual(*e, ecopy) || w == e || w.Code != ecopy.Code || w.Message != ecopy.Message || !reflect.DeepEqual(w.Data, res) {
			return fmt.Sprintf("WithData of %#v: %#v, original now %#v", ecopy, w, e)
		}
		if vsnap(req) != before {
			return "request changed: " + before + " -> " + vsnap(req)
		}
		m := vmessage(r)
		snap := vsnap(m)
		oldId := interface{}(nil)
		if !m.IsNotify() {
			oldId = m.MustId()
		}
		nid := vid(r)
		var q Message
		p := vpanics(func() { q = m.ReplaceId(nid) })
		if m.IsNotify() {
			if p == nil {
				return "ReplaceId of a notify does not panic"
			}
			return ""
		}
		if p != nil {
			return fmt.Sprintf("ReplaceId(%#v) of %s panics: %v", nid, snap, p)
		}
		if vsnap(m) != snap {
			return "ReplaceId changed the original: " + snap + " -> " + vsnap(m)
		}
		if q.MustId() != nid {
			return "ReplaceId: wrong id " + vsnap(q)
		}
		if back := q.ReplaceId(oldId); vsnap(back) != snap {
			return fmt.Sprintf("ReplaceId(%#v) of %s changes more than the id: %s", nid, snap, vsnap(q))
		}
		// the copy is independent of the original
		q.SetTraceId("changed")
		if vsnap(m) != snap {
			return "changing the copy changed the original " + snap
		}
		if rq, ok := m.(*RequestMessage); ok {
			c := rq.Clone(nid)
			if b := c.Clone(oldId); vsnap(b) != snap {
				return fmt.Sprintf("Clone(%#v) of %s changes more than the id: %s", nid, snap, vsnap(c))
			}
		}
		return ""
	})
}
