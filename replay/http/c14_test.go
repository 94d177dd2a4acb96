package jlibhttp

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/superisaac/jlib"
)

func TestReplayC14Outcomes(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		count := 0
		n := vtree(r, 1, &count, false)
		msg, kind := vmessage(r)
		at, h, _ := n.vexpect(msg, kind)
		if h == nil {
			return ""
		}
		f := vfeed(n.a, vreq(msg))
		what := fmt.Sprintf("request %v, value %v, error %v, panics %v with %#v, recovery %v", msg.IsRequest(), h.value, h.err, h.panics, h.pv, at.a.RecoverFromPanic)
		v, err := h.value, h.err
		if h.panics {
			e, ok := h.pv.(error)
			if !ok || !at.a.RecoverFromPanic {
				if !f.panicked || f.pv != h.pv {
					return what + fmt.Sprintf(": the panic did not propagate: %v %v %v", f.res, f.err, f.pv)
				}
				return ""
			}
			v, err = nil, e
		}
		if f.panicked {
			return what + fmt.Sprintf(": panicked with %v", f.pv)
		}
		got := what + fmt.Sprintf(" gives %v (%s), %v", f.res, f.res, f.err)
		if !msg.IsRequest() {
			if !visnil(f.res) || f.err != err {
				return got
			}
			return ""
		}
		if err != nil {
			var re *jlib.RPCError
			var we *WrappedResponse
			if errors.As(err, &re) {
			} else if errors.As(err, &we) {
				var w *WrappedResponse
				if !visnil(f.res) || !errors.As(f.err, &w) || w != we {
					return got
				}
				return ""
			} else {
				re = jlib.ErrInternalError
			}
			e, ok := f.res.(*jlib.ErrorMessage)
			if f.err != nil || !ok || e.Error.Code != re.Code || e.Error.Message != re.Message || vshow(e.Error.Data) != vshow(re.Data) || vshow(e.Id) != vshow(msg.MustId()) || e.TraceId() != msg.TraceId() {
				return got
			}
			return ""
		}
		if m, ok := v.(jlib.Message); ok {
			if f.err != nil || f.res != m {
				return got
			}
			return ""
		}
		m, ok := f.res.(*jlib.ResultMessage)
		if f.err != nil || !ok || vshow(m.Result) != vshow(v) || vshow(m.Id) != vshow(msg.MustId()) || m.TraceId() != msg.TraceId() {
			return got
		}
		return ""
	})
}
