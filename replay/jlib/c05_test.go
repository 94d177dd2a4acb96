package jlib

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

// the value a string stands for, or refused
func vguess(s string, files map[string]string) (interface{}, bool) {
	if s == "" {
		return "", true
	}
	if s == "true" || s == "false" {
		return s == "true", true
	}
	if s == "null" {
		return nil, true
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n, true
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f, true
	}
	text := s
	switch s[0] {
	case '@':
		c, ok := files[s[1:]]
		if !ok {
			return nil, false
		}
		text = c
	case '[', '{', '"':
	default:
		return s, true
	}
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var v interface{}
	if dec.Decode(&v) != nil {
		return nil, false
	}
	return v, true
}

func TestReplayC05Guess(t *testing.T) {
	dir, err := ioutil.TempDir("", "c05")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	files := map[string]string{}
	for i, c := range []string{"1", `{"a":12345678901234567890}`, "[1,2.50]", "nope", "", `"x"`, "null"} {
		n := filepath.Join(dir, fmt.Sprint("f", i))
		ioutil.WriteFile(n, []byte(c), 0600)
		files[n] = c
	}
	names := []string{filepath.Join(dir, "missing"), ""}
	for n := range files {
		names = append(names, n)
	}
	gen := func(r *rand.Rand) string {
		switch r.Intn(10) {
		case 0:
			return vpick(r, "", "true", "false", "null", "True", "FALSE", "t", "f", "T", "F", "TRUE", "Null", "nil", " true", "true ").(string)
		case 1:
			return vpick(r, "0", "-1", "007", "+5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_000", "0x10", "0b1", "0o7", " 1", "1 ").(string)
		case 2:
			return vpick(r, "1.5", "1e3", ".5", "5.", "inf", "NaN", "-Inf", "1e400", "0x1p-2", "1.", "-", "+", "1e", "infinity").(string)
		case 3:
			return "@" + names[r.Intn(len(names))]
		case 4, 5, 6:
			s := vshow(vjson(r, 3))
			if r.Intn(4) == 0 {
				s += vpick(r, " ", "x", "]", "}", ",").(string)
			}
			if r.Intn(6) == 0 && len(s) > 0 {
				s = s[:len(s)-1]
			}
			return s
		case 7:
			return vpick(r, "[", "{", `"`, "[1", `{"a":`, `{"a":1}`, `["x"]`, `"abc"`, `"abc`, "[]", "{}", `""`, "[null]", "@").(string)
		}
		return vstr(r)
	}
	vrun(t, 400000, func(r *rand.Rand) string {
		var in []string
		for i := r.Intn(5); i >= 0; i-- {
			in = append(in, gen(r))
		}
		var want []interface{}
		bad := false
		for _, s := range in {
			v, ok := vguess(s, files)
			got, err := GuessJson(s)
			if (err == nil) != ok {
				return fmt.Sprintf("GuessJson(%q): %#v, error %v", s, got, err)
			}
			if ok && !reflect.DeepEqual(got, v) && fmt.Sprintf("%T%v", got, got) != fmt.Sprintf("%T%v", v, v) {
				return fmt.Sprintf("GuessJson(%q) = %#v, want %#v", s, got, v)
			}
			if !ok {
				bad = true
			}
			if !bad {
				want = append(want, v)
			}
		}
		got, err := GuessJsonArray(in)
		if (err != nil) != bad {
			return fmt.Sprintf("GuessJsonArray(%q): %#v, error %v", in, got, err)
		}
		if !bad && (len(got) != len(in) || fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", want)) {
			return fmt.Sprintf("GuessJsonArray(%q) = %#v, want %#v", in, got, want)
		}
		return ""
	})
}
