package jlib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
)

func TestReplayC02RoundTrip(t *testing.T) {
	vrun(t, 400000, func(r *rand.Rand) string {
		var m Message
		trace := vtrace(r)
		switch r.Intn(4) {
		case 0, 1:
			ps := vparams(r)
			if ps == nil && r.Intn(2) == 0 {
				ps = []interface{}{}
			}
			if r.Intn(2) == 0 {
				m = NewRequestMessage(vid(r), vmethod(r), ps)
			} else {
				m = NewNotifyMessage(vmethod(r), ps)
			}
		case 2:
			res := vresult(r)
			m = NewResultMessage(NewRequestMessage(vid(r), "q", nil), res)
		default:
			m = NewErrorMessage(NewRequestMessage(vid(r), "q", nil), &RPCError{r.Intn(200) - 100, vstr(r), vjson(r, 2)})
		}
		m.SetTraceId(trace)
		snap := vsnap(m)
		data, err := MessageBytes(m)
		if err != nil {
			return "cannot encode " + snap + ": " + err.Error()
		}
		var top map[string]json.RawMessage
		if err := json.Unmarshal(data, &top); err != nil {
			return "not an object: " + string(data)
		}
		if string(top["jsonrpc"]) != `"2.0"` {
			return "jsonrpc member in " + string(data)
		}
		if _, has := top["traceid"]; has != (trace != "") {
			return fmt.Sprintf("traceid member in %s, trace id %q", data, trace)
		}
		back, err := ParseBytes(data)
		if err != nil {
			return fmt.Sprintf("%s encodes to %s, which is refused: %v", snap, data, err)
		}
		if b := vsnap(back); b != snap {
			return fmt.Sprintf("%s encodes to %s, which decodes to %s", snap, data, b)
		}
		list := func(m Message) (interface{}, bool) {
			switch q := m.(type) {
			case *RequestMessage:
				return q.Params, q.paramsAreList
			case *NotifyMessage:
				return q.Params, q.paramsAreList
			}
			return nil, false
		}
		p1, l1 := list(m)
		p2, l2 := list(back)
		if l1 != l2 || !reflect.DeepEqual(p1, p2) {
			return fmt.Sprintf("%s encodes to %s; params list form %v became %v", snap, data, l1, l2)
		}
		return ""
	})
}
