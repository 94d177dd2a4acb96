package jlibhttp

import (
	"fmt"
	"math/rand"
	"testing"
	"time"
)

// histories of tokens under one handler: the same token again and again, with others between
func TestReplayC18History(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		seen := &vseen{}
		secret := vpick(r, "s1", "s2")
		h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: secret}}, seen)
		type tk struct {
			tok  string
			want []videntity
		}
		var toks []tk
		for i := 0; i < 1+r.Intn(6); i++ {
			id := videntity{vpick(r, "u", "v", "w", ""), vsettings(r)}
			tok, good := vtoken(r, secret, id.user, id.settings)
			x := tk{tok: tok}
			if good {
				x.want = []videntity{id}
			}
			toks = append(toks, x)
		}
		for n := 3 + r.Intn(12); n > 0; n-- {
			x := toks[r.Intn(len(toks))]
			if m := vcheckAuth(h, seen, "Bearer "+x.tok, true, false, x.want); m != "" {
				return fmt.Sprintf("secret %q: %s", secret, m)
			}
			if len(x.want) > 0 {
				// the same token under another header is not the same credential
				if m := vcheckAuth(h, seen, vpick(r, "bearer ", "Bearer  ", "Basic ", "Bearer x")+x.tok, true, false, nil); m != "" {
					return fmt.Sprintf("secret %q: %s", secret, m)
				}
			}
		}
		return ""
	})
}

// cached tokens expire
func TestReplayC18Expiry(t *testing.T) {
	vrun(t, 1, func(r *rand.Rand) string {
		type one struct {
			h    *AuthHandler
			seen *vseen
			tok  string
			id   videntity
		}
		var all []one
		exp := time.Now().Unix() + 2
		for i := 0; i < 30; i++ {
			seen := &vseen{}
			o := one{seen: seen, id: videntity{vpick(r, "u", "v", ""), vsettings(r)}}
			o.h = NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, seen)
			o.tok = vsign("s", o.id.user, o.id.settings, exp)
			all = append(all, o)
		}
		for _, o := range all {
			for n := 1 + r.Intn(3); n > 0; n-- {
				if m := vcheckAuth(o.h, o.seen, "Bearer "+o.tok, true, false, []videntity{o.id}); m != "" && time.Now().Unix() < exp {
					return m
				}
			}
		}
		for time.Now().Unix() <= exp {
			time.Sleep(100 * time.Millisecond)
		}
		for _, o := range all {
			for n := 0; n < 3; n++ {
				if m := vcheckAuth(o.h, o.seen, "Bearer "+o.tok, true, false, nil); m != "" {
					return "an expired token, cached before: " + m
				}
			}
		}
		return ""
	})
}
