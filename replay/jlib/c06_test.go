package jlib

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

func vdecimal(s string) bool {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func TestReplayC06Bigint(t *testing.T) {
	alphabet := []string{"0", "1", "9", "12345678901234567890", "-", "+", "\"", ".", "e5", "_", "x", " ", "\n", "null", "true", "\\", "a", "é"}
	vrun(t, 400000, func(r *rand.Rand) string {
		// marshalling
		n := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(200)+1)))
		if r.Intn(2) == 0 {
			n.Neg(n)
		}
		var b Bigint
		(*big.Int)(&b).Set(n)
		data, err := json.Marshal(b)
		if err != nil || string(data) != `"`+n.String()+`"` {
			return fmt.Sprintf("%s marshals to %s, %v", n, data, err)
		}
		data, err = b.MarshalJSON()
		if err != nil || string(data) != `"`+n.String()+`"` {
			return fmt.Sprintf("%s marshals to %s, %v", n, data, err)
		}
		var c Bigint
		(*big.Int)(&c).SetInt64(77)
		if err := c.UnmarshalJSON(data); err != nil || c.Value().Cmp(n) != 0 || c.String() != n.String() {
			return fmt.Sprintf("%s unmarshals to %s, %v", data, c.String(), err)
		}
		// unmarshalling
		s := ""
		for i := r.Intn(5); i > 0; i-- {
			s += alphabet[r.Intn(len(alphabet))]
		}
		switch r.Intn(4) {
		case 0:
			s = `"` + s + `"`
		case 1:
			s = n.String()
		}
		in := s
		if len(in) >= 2 && strings.HasPrefix(in, `"`) && strings.HasSuffix(in, `"`) {
			in = in[1 : len(in)-1]
		}
		var d Bigint
		raw := []byte(s)
		err = d.UnmarshalJSON(raw)
		if string(raw) != s {
			return fmt.Sprintf("UnmarshalJSON(%q) changed its input to %q", s, raw)
		}
		if (err == nil) != vdecimal(in) {
			return fmt.Sprintf("UnmarshalJSON(%q): value %s, error %v", s, d.String(), err)
		}
		if err == nil {
			w, _ := new(big.Int).SetString(in, 10)
			if d.Value().Cmp(w) != 0 {
				return fmt.Sprintf("UnmarshalJSON(%q) = %s", s, d.String())
			}
		}
		return ""
	})
}
