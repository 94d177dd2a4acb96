package jlibhttp

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"testing"
)

func TestReplayC17(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		seen := &vseen{}
		if r.Intn(12) == 0 {
			return vcheckAuth(NewAuthHandler(nil, seen), seen, vpick(r, "", "Bearer", "Bearer x", "Basic x"), r.Intn(2) == 0, true, nil)
		}
		cfg := &AuthConfig{}
		secret := ""
		if r.Intn(2) == 0 {
			secret = vpick(r, "s1", "s2", "", "long secret with spaces")
			cfg.Jwt = &JwtAuthConfig{Secret: secret}
		}
		names := []string{"u", "v", "w", "", "U"}
		for i := r.Intn(4); i > 0; i-- {
			cfg.Basic = append(cfg.Basic, BasicAuthConfig{Username: vpick(r, names...), Password: vpick(r, "p", "q", "", "p:q"), Settings: vsettings(r)})
		}
		for i := r.Intn(4); i > 0; i-- {
			cfg.Bearer = append(cfg.Bearer, BearerAuthConfig{Token: vpick(r, "t1", "t2", "t 3", "", "T1"), Username: vpick(r, names...), Settings: vsettings(r)})
		}
		h := NewAuthHandler(cfg, seen)
		var toks []string
		goods := map[string]videntity{}
		for n := 1 + r.Intn(6); n > 0; n-- {
			hdr, set := "", true
			var want []videntity
			switch r.Intn(6) {
			case 0:
				set = false
			case 1:
				hdr = vtext(r, "Bearer", "Basic", " ", "bearer", ":", "t1", "t2", "=", "\t", "x")
			case 2, 3:
				u, p := vpick(r, names...), vpick(r, "p", "q", "", "p:q")
				hdr = "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
				for _, b := range cfg.Basic {
					if b.Username == u && b.Password == p {
						want = append(want, videntity{u, b.Settings})
					}
				}
			case 4:
				hdr = vpick(r, "Bearer ", "bearer ", "Bearer  ", "Bearer", "Token ") + vpick(r, "t1", "t2", "t 3", "", "T1")
			case 5:
				id := videntity{vpick(r, names...), vsettings(r)}
				tok, good := vtoken(r, secret, id.user, id.settings)
				if len(toks) > 0 && r.Intn(2) == 0 {
					tok = toks[r.Intn(len(toks))]
				} else {
					toks = append(toks, tok)
					if good && cfg.Jwt != nil {
						goods[tok] = id
					}
				}
				hdr = vpick(r, "Bearer ", "Bearer ", "Bearer ", "bearer ", "Basic ") + tok
				if id, ok := goods[tok]; ok && hdr == "Bearer "+tok {
					want = append(want, id)
				}
			}
			if set {
				for _, b := range cfg.Bearer {
					if hdr == "Bearer "+b.Token {
						u := b.Username
						if u == "" {
							u = b.Token
						}
						want = append(want, videntity{u, b.Settings})
					}
				}
			}
			if m := vcheckAuth(h, seen, hdr, set, false, want); m != "" {
				return fmt.Sprintf("%s; configuration %s", m, vshow(cfg))
			}
		}
		return ""
	})
}
