package jlibhttp

import (
	"fmt"
	"math/rand"
	"net/textproto"
	"reflect"
	"strings"
	"testing"
)

func TestReplayC24Parse(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		var fl HeaderFlags
		names := []string{"a", "A", "x-b", "X-B", " a ", "", "c d", "authorization"}
		for i := r.Intn(6); i > 0; i-- {
			s := names[r.Intn(len(names))]
			if r.Intn(12) > 0 {
				s += "=" + vtext(r, " ", "=", "v", "w", ",", "\t", ":")
			}
			fl.Set(s)
		}
		want := map[string][]string{}
		bad := false
		for _, s := range fl {
			i := strings.IndexByte(s, '=')
			if i < 0 {
				bad = true
				break
			}
			k := textproto.CanonicalMIMEHeaderKey(strings.Trim(s[:i], " "))
			want[k] = append(want[k], strings.Trim(s[i+1:], " "))
		}
		keep := append(HeaderFlags{}, fl...)
		h, err := fl.Parse()
		if (err != nil) != bad {
			return fmt.Sprintf("flags %q: error %v", []string(fl), err)
		}
		if err == nil && !(len(want) == len(h) && reflect.DeepEqual(want, map[string][]string(h))) {
			return fmt.Sprintf("flags %q parse to %q", []string(fl), h)
		}
		if len(keep) != len(fl) || len(fl) > 0 && !reflect.DeepEqual(keep, fl) {
			return fmt.Sprintf("flags %q changed to %q", keep, fl)
		}
		return ""
	})
}

func TestReplayC24Values(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		some := func() string { return vpick(r, "", " ", "x", "y", "z", "zz") }
		var c *AuthConfig
		want := true
		if r.Intn(20) > 0 {
			c = &AuthConfig{}
			for i := r.Intn(4); i > 0; i-- {
				b := BearerAuthConfig{Token: some(), Username: some()}
				want = want && b.Token != ""
				c.Bearer = append(c.Bearer, b)
			}
			for i := r.Intn(4); i > 0; i-- {
				b := BasicAuthConfig{Username: some(), Password: some()}
				want = want && b.Username != "" && b.Password != ""
				c.Basic = append(c.Basic, b)
			}
			if r.Intn(2) == 0 {
				c.Jwt = &JwtAuthConfig{Secret: some()}
				want = want && c.Jwt.Secret != ""
			}
		}
		if got := c.ValidateValues() == nil; got != want {
			return fmt.Sprintf("auth config %s valid: %v", vshow(c), got)
		}
		tc := &TLSConfig{Certfile: some(), Keyfile: some()}
		if got := tc.ValidateValues() == nil; got != (tc.Certfile != "" && tc.Keyfile != "") {
			return fmt.Sprintf("tls config %s valid: %v", vshow(tc), got)
		}
		return ""
	})
}
