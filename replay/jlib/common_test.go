package jlib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vrun drives one search: f is called until it reports a failing input, the
// budget is spent or n rounds are done.
func vrun(t *testing.T, n int, f func(r *rand.Rand) string) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S"))
	if err != nil {
		secs = 20
	}
	end := time.Now().Add(time.Duration(secs) * time.Second / 3)
	for i := 0; i < n && time.Now().Before(end); i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		msg := func() (msg string) {
			defer func() {
				if p := recover(); p != nil {
					msg = fmt.Sprintf("unexpected panic: %v", p)
				}
			}()
			return f(r)
		}()
		if msg != "" {
			fmt.Printf("FAILING-INPUT %s (round %d): %s\n", t.Name(), i, msg)
			t.FailNow()
		}
	}
}

func vpanics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func vpick(r *rand.Rand, xs ...interface{}) interface{} { return xs[r.Intn(len(xs))] }

func vstr(r *rand.Rand) string {
	pool := []string{"a", "Z", "0", "9", "-", "_", ":", "+", ".", "/", "\\", "&", "#", " ", "\n", "\t", "é", "名", "rpc.", "x", "<", ">", "\"", "{", "[", "@", "\x00", "="}
	n := r.Intn(5)
	s := ""
	for i := 0; i < n; i++ {
		s += pool[r.Intn(len(pool))]
	}
	return s
}

func vnum(r *rand.Rand) json.Number {
	return json.Number(vpick(r, "0", "-0", "1", "-7", "12345678901234567890123", "1.50", "1e3", "-2.25E-7", "9007199254740993", "0.1", strconv.Itoa(r.Intn(2000)-1000)).(string))
}

// vjson: a JSON value as the exact-number decoder delivers it
func vjson(r *rand.Rand, depth int) interface{} {
	k := r.Intn(8)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2, 3:
		return vnum(r)
	case 4, 5:
		return vstr(r)
	case 6:
		arr := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			arr = append(arr, vjson(r, depth-1))
		}
		return arr
	}
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m["k"+vstr(r)] = vjson(r, depth-1)
	}
	return m
}

func vshow(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// vcanon: compare values up to their JSON form
func vcanon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%#v", v)
	}
	return string(b)
}

func vid(r *rand.Rand) interface{} {
	if r.Intn(2) == 0 {
		return vpick(r, 0, 1, -5, 1<<40, r.Intn(1000))
	}
	return vpick(r, "", "1", "abc", vstr(r))
}

func vmethod(r *rand.Rand) string {
	return vpick(r, "m", "abc::def", "rpc.schema", "x.y", "é", "a b").(string)
}

func vtrace(r *rand.Rand) string {
	return vpick(r, "", "", "t1", "trace-"+vstr(r)).(string)
}

func vparams(r *rand.Rand) interface{} {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{"a": vjson(r, 1)}
	case 2:
		// a single value that is not a list
		for {
			v := vjson(r, 2)
			if _, ok := v.([]interface{}); !ok {
				return v
			}
		}
	}
	arr := []interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		arr = append(arr, vjson(r, 2))
	}
	return arr
}

func vresult(r *rand.Rand) interface{} { return vjson(r, 2) }

func vmessage(r *rand.Rand) Message {
	var m Message
	switch r.Intn(4) {
	case 0:
		m = NewRequestMessage(vid(r), vmethod(r), vparams(r))
	case 1:
		m = NewNotifyMessage(vmethod(r), vparams(r))
	case 2:
		m = NewResultMessage(NewRequestMessage(vid(r), "q", nil), vresult(r))
		if r.Intn(4) == 0 {
			m, _ = ParseBytes([]byte(`{"result":` + vshow(r.Intn(50)) + `}`))
		}
	default:
		if r.Intn(4) == 0 {
			m = NewErrorMessageFromId(nil, "", &RPCError{1, vstr(r), vjson(r, 1)})
			break
		}
		m = NewErrorMessage(NewRequestMessage(vid(r), "q", nil), &RPCError{r.Intn(200) - 100, vstr(r), vjson(r, 2)})
	}
	m.SetTraceId(vtrace(r))
	return m
}

// vsnap: everything observable about a message
func vsnap(m Message) string {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return "nil"
	}
	b, err := json.Marshal(m.Interface())
	s := fmt.Sprintf("%T %v%v%v%v trace=%q %s %v", m, m.IsRequest(), m.IsNotify(), m.IsResult(), m.IsError(), m.TraceId(), b, err)
	switch t := m.(type) {
	case *RequestMessage:
		s += fmt.Sprintf(" id=%#v method=%q params=%#v", t.Id, t.Method, t.Params)
	case *NotifyMessage:
		s += fmt.Sprintf(" method=%q params=%#v", t.Method, t.Params)
	case *ResultMessage:
		s += fmt.Sprintf(" id=%#v result=%#v", t.Id, t.Result)
	case *ErrorMessage:
		s += fmt.Sprintf(" id=%#v error=%#v", t.Id, *t.Error)
	}
	return s
}

func vjoin(parts []string) string { return strings.Join(parts, ",") }
