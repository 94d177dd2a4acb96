package jlibhttp

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
)

type vseen struct {
	n    int
	info *AuthInfo
	has  bool
}

func (h *vseen) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.n++
	h.info, h.has = AuthInfoFromContext(r.Context())
	w.WriteHeader(204)
}

func vsettings(r *rand.Rand) map[string]interface{} {
	if r.Intn(2) == 0 {
		return nil
	}
	return map[string]interface{}{"k": vpick(r, "a", "b", "c"), "n": fmt.Sprint(r.Intn(9))}
}

func vsign(secret, user string, settings map[string]interface{}, exp int64) string {
	c := jwtClaims{Username: user, Settings: settings}
	c.ExpiresAt = exp
	s, err := jwt.NewWithClaims(jwt.SigningMethodHS256, c).SignedString([]byte(secret))
	if err != nil {
		panic(err)
	}
	return s
}

// vtoken makes a bearer token and says whether it must be accepted under secret
func vtoken(r *rand.Rand, secret, user string, settings map[string]interface{}) (tok string, good bool) {
	now := time.Now().Unix()
	exp, sec := now+1000+int64(r.Intn(1000)), secret
	good = secret != ""
	switch r.Intn(8) {
	case 0:
		exp, good = now-10-int64(r.Intn(1000)), false
	case 1:
		sec, good = secret+"x", false
	case 2:
		exp, good = 0, false
	}
	tok = vsign(sec, user, settings, exp)
	switch r.Intn(10) {
	case 0:
		tok, good = tok[:len(tok)-4], false
	case 1:
		p := strings.Split(tok, ".")
		p[0] = base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`))
		tok, good = p[0]+"."+p[1]+".", false
	case 2:
		// somebody else's claims under this signature
		p, q := strings.Split(tok, "."), strings.Split(vsign(secret, user+"eve", settings, exp), ".")
		tok, good = p[0]+"."+q[1]+"."+p[2], false
	}
	return
}

type videntity struct {
	user     string
	settings map[string]interface{}
}

func vcheckAuth(h *AuthHandler, seen *vseen, hdr string, set bool, open bool, want []videntity) string {
	req := httptest.NewRequest("POST", "http://h/x", nil)
	if set {
		req.Header.Set("Authorization", hdr)
	}
	*seen = vseen{}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	if open {
		if seen.n != 1 || w.Code != 204 || seen.has {
			return fmt.Sprintf("without a configuration: handler called %d times, status %d, identity %v", seen.n, w.Code, seen.info)
		}
		return ""
	}
	if len(want) == 0 {
		if seen.n != 0 || w.Code != 401 {
			return fmt.Sprintf("header %q is refused by the configuration but the handler was called %d times, status %d", hdr, seen.n, w.Code)
		}
		return ""
	}
	if seen.n != 1 || w.Code != 204 || !seen.has || seen.info == nil {
		return fmt.Sprintf("header %q is accepted by the configuration but the handler was called %d times, status %d, identity %v", hdr, seen.n, w.Code, seen.info)
	}
	for _, i := range want {
		if seen.info.Username == i.user && (len(i.settings) == 0 && len(seen.info.Settings) == 0 || reflect.DeepEqual(i.settings, seen.info.Settings)) {
			return ""
		}
	}
	return fmt.Sprintf("header %q attaches the identity %s, none of %v", hdr, vshow(seen.info), want)
}
