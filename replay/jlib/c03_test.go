package jlib

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"
)

func isMsgType(p interface{}) bool {
	e, ok := p.(*RPCError)
	return ok && e != nil && e.Code == ErrMessageType.Code
}

func TestReplayC03Accessors(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		id, method, par, res := vid(r), vmethod(r), vparams(r), vresult(r)
		body := &RPCError{r.Intn(9), vstr(r), vjson(r, 1)}
		kind := r.Intn(4)
		var m Message
		switch kind {
		case 0:
			m = NewRequestMessage(id, method, par)
		case 1:
			m = NewNotifyMessage(method, par)
		case 2:
			m = NewResultMessage(NewRequestMessage(id, method, par), res)
		case 3:
			m = NewErrorMessage(NewRequestMessage(id, method, par), body)
		}
		desc := fmt.Sprintf("kind %d id %#v method %q params %#v", kind, id, method, par)
		want := []bool{kind == 0, kind == 1, kind == 2, kind == 3, kind <= 1, kind >= 2}
		got := []bool{m.IsRequest(), m.IsNotify(), m.IsResult(), m.IsError(), m.IsRequestOrNotify(), m.IsResultOrError()}
		if !reflect.DeepEqual(want, got) {
			return desc + fmt.Sprintf(": predicates %v, want %v", got, want)
		}
		wantP := []interface{}{par}
		if par == nil {
			wantP = []interface{}{}
		} else if l, ok := par.([]interface{}); ok {
			wantP = l
		}
		type acc struct {
			name string
			has  bool
			f    func() bool
		}
		for _, a := range []acc{
			{"MustId", kind != 1, func() bool { return m.MustId() == id }},
			{"MustMethod", kind <= 1, func() bool { return m.MustMethod() == method }},
			{"MustParams", kind <= 1, func() bool { p := m.MustParams(); return p != nil && reflect.DeepEqual(p, wantP) }},
			{"MustResult", kind == 2, func() bool { return reflect.DeepEqual(m.MustResult(), res) }},
			{"MustError", kind == 3, func() bool { return m.MustError() == body }},
		} {
			ok := false
			p := vpanics(func() { ok = a.f() })
			if a.has && (p != nil || !ok) || !a.has && !isMsgType(p) {
				return desc + ": " + a.name + fmt.Sprintf(" panic %v value right %v", p, ok)
			}
		}
		// decoding an encoding keeps the kind
		if b, err := MessageBytes(m); err == nil && !(kind <= 1 && len(wantP) == 1 && wantP[0] == nil) {
			if d, err := ParseBytes(b); err == nil && reflect.TypeOf(d) != reflect.TypeOf(m) {
				return desc + fmt.Sprintf(": decodes to %T", d)
			}
		}
		if p := vpanics(func() { NewRequestMessage(nil, method, par) }); p == nil {
			return "NewRequestMessage without an id does not panic"
		}
		if p := vpanics(func() { NewRequestMessage(id, "", par) }); p == nil {
			return "NewRequestMessage with an empty method does not panic"
		}
		if p := vpanics(func() { NewNotifyMessage("", par) }); p == nil {
			return "NewNotifyMessage with an empty method does not panic"
		}
		if q := NewNotifyMessage(method, nil); q.Params == nil || len(q.Params) != 0 {
			return "nil params are not an empty list"
		}
		if q := NewRequestMessage(id, method, []interface{}(nil)); q.Params == nil || len(q.Params) != 0 {
			return "nil params list is not an empty list"
		}
		return ""
	})
}
