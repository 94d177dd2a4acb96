package jlib

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"
)

func TestReplayC01Decode(t *testing.T) {
	vrun(t, 400000, func(r *rand.Rand) string {
		parts := []string{}
		has := map[string]bool{}
		refused := false
		add := func(name, text string) { parts = append(parts, fmt.Sprintf("%q:%s", name, text)) }
		var id interface{}
		if r.Intn(3) > 0 {
			switch r.Intn(7) {
			case 0:
				add("id", "null")
			case 1:
				add("id", vpick(r, "1.5", "true", "[1]", "{}", "99999999999999999999").(string))
				refused, has["id"] = true, true
			default:
				id = vid(r)
				has["id"] = true
				add("id", vshow(id))
			}
		}
		method, trace := "", ""
		if r.Intn(3) > 0 {
			switch r.Intn(6) {
			case 0:
				add("method", vpick(r, "1", "[]", "{}", "false").(string))
				refused = true
			case 1:
				add("method", "null")
			default:
				method = vstr(r)
				add("method", vshow(method))
			}
		}
		if r.Intn(3) == 0 {
			if r.Intn(5) == 0 {
				add("traceid", vpick(r, "1", "[]", "{}").(string))
				refused = true
			} else {
				trace = vtrace(r)
				add("traceid", vshow(trace))
			}
		}
		val := func(name string, p int) interface{} {
			if r.Intn(p) > 0 {
				return nil
			}
			v := vjson(r, 2)
			add(name, vshow(v))
			has[name] = v != nil
			return v
		}
		res := val("result", 2)
		par := val("params", 2)
		var body RPCError
		badBody := false
		if r.Intn(3) == 0 {
			switch r.Intn(4) {
			case 0:
				add("error", vpick(r, "1", "[]", "\"x\"", "true").(string))
				has["error"], badBody = true, true
			case 1:
				add("error", "null")
			default:
				body = RPCError{r.Intn(100), vstr(r), vjson(r, 2)}
				has["error"] = true
				bp := []string{}
				if r.Intn(4) > 0 {
					bp = append(bp, fmt.Sprintf(`"code":%d`, body.Code))
				} else {
					body.Code = 0
				}
				if r.Intn(4) > 0 {
					bp = append(bp, `"message":`+vshow(body.Message))
				} else {
					body.Message = ""
				}
				if r.Intn(4) > 0 {
					bp = append(bp, `"data":`+vshow(body.Data))
				} else {
					body.Data = nil
				}
				if r.Intn(8) == 0 {
					bp = append(bp, vpick(r, `"code":"x"`, `"message":1`, `"code":1.5`).(string))
					badBody = true
				}
				add("error", "{"+vjoin(bp)+"}")
			}
		}
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		doc := "{" + vjoin(parts) + "}"
		if r.Intn(40) == 0 {
			doc = vpick(r, "", "{", "[]", "1", `"x"`, "null", "true", "{}x", `{"id":`).(string)
			refused = doc != "{}x"
			has = map[string]bool{}
			method = ""
		}
		kind := "refused"
		if !refused {
			switch {
			case has["error"]:
				if !has["result"] && !badBody {
					kind = "error"
				}
			case has["result"]:
				kind = "result"
			case method != "":
				if has["params"] {
					kind = "notify"
					if has["id"] {
						kind = "request"
					}
				}
			case has["id"]:
				kind = "result"
			}
		}
		m, err := ParseBytes([]byte(doc))
		bad := func(f string, a ...interface{}) string { return "document " + doc + ": " + fmt.Sprintf(f, a...) }
		if kind == "refused" {
			if err == nil || m != nil {
				return bad("should be refused, got %#v %v", m, err)
			}
			return ""
		}
		if err != nil || m == nil {
			return bad("should decode as %s, got error %v", kind, err)
		}
		if m.TraceId() != trace {
			return bad("trace id %q", m.TraceId())
		}
		params := func(got []interface{}, isList bool) string {
			want, wl := []interface{}{par}, false
			if l, ok := par.([]interface{}); ok {
				want, wl = l, true
			}
			if isList != wl || len(got) != len(want) {
				return bad("params %#v list=%v", got, isList)
			}
			for i := range want {
				if !reflect.DeepEqual(got[i], want[i]) {
					return bad("params %#v, want %#v", got, want)
				}
			}
			return ""
		}
		switch t := m.(type) {
		case *ErrorMessage:
			if kind != "error" || !t.IsError() || t.Id != id || t.Error == nil || !reflect.DeepEqual(*t.Error, body) {
				return bad("want %s, got error message %s", kind, vsnap(m))
			}
		case *ResultMessage:
			if kind != "result" || !t.IsResult() || t.Id != id || !reflect.DeepEqual(t.Result, res) {
				return bad("want %s, got result message %s", kind, vsnap(m))
			}
		case *RequestMessage:
			if kind != "request" || !t.IsRequest() || t.Id != id || t.Method != method {
				return bad("want %s, got request message %s", kind, vsnap(m))
			}
			return params(t.Params, t.paramsAreList)
		case *NotifyMessage:
			if kind != "notify" || !t.IsNotify() || t.Method != method {
				return bad("want %s, got notify message %s", kind, vsnap(m))
			}
			return params(t.Params, t.paramsAreList)
		}
		return ""
	})
}
