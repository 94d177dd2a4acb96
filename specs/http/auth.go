package jlibhttp

import (
	"context"
	"net/http"
	"time"

	"github.com/golang-jwt/jwt"
	lru "github.com/hashicorp/golang-lru"
	"github.com/superisaac/jlib/internal/vc"
)

// ---- models: time, the cache, the token parser

//vc:model (time.Time).UTC
func mUTC(t time.Time) time.Time { return t }

//vc:model (time.Time).Unix
func mUnix(t time.Time) int64 { return vc.UF[int64]("time.unix", t) }

func cHas(c lru.Cache, k string) bool        { return vc.UF[bool]("lru.has", c, k) }
func cVal(c lru.Cache, k string) interface{} { return vc.UF[interface{}]("lru.val", c, k) }

//vc:model (*github.com/hashicorp/golang-lru.Cache).Get
func mLruGet(c *lru.Cache, key interface{}) (interface{}, bool) {
	k, ok := key.(string)
	if !ok {
		return vc.Any[interface{}](), vc.Any[bool]()
	}
	if !cHas(*c, k) {
		return nil, false
	}
	return cVal(*c, k), true
}

//vc:model (*github.com/hashicorp/golang-lru.Cache).Peek
func mLruPeek(c *lru.Cache, key interface{}) (interface{}, bool) { return mLruGet(c, key) }

//vc:model (*github.com/hashicorp/golang-lru.Cache).Contains
func mLruContains(c *lru.Cache, key interface{}) bool {
	k, ok := key.(string)
	if !ok {
		return vc.Any[bool]()
	}
	return cHas(*c, k)
}

//vc:model (*github.com/hashicorp/golang-lru.Cache).Add
func mLruAdd(c *lru.Cache, key, value interface{}) bool {
	k, ok := key.(string)
	old := *c
	n := vc.Any[lru.Cache]()
	*c = n
	if ok {
		vc.Assume(cHas(n, k) && vc.Same(cVal(n, k), value))
		vc.Assume(vc.ForallStr(func(q string) bool {
			return vc.Imp(q != k && cHas(n, q), cHas(old, q) && vc.Same(cVal(n, q), cVal(old, q)))
		}))
	}
	return vc.Any[bool]()
}

//vc:model (*github.com/hashicorp/golang-lru.Cache).Remove
func mLruRemove(c *lru.Cache, key interface{}) bool {
	k, ok := key.(string)
	old := *c
	n := vc.Any[lru.Cache]()
	*c = n
	if ok {
		vc.Assume(!cHas(n, k))
		vc.Assume(vc.ForallStr(func(q string) bool {
			return vc.Imp(q != k, cHas(n, q) == cHas(old, q) && vc.Same(cVal(n, q), cVal(old, q)))
		}))
	}
	return vc.Any[bool]()
}

// the claims a token holds, and whether it was signed with a secret
func tokVerified(tok, secret string) bool { return vc.UF[bool]("jwt.verified", tok, secret) }
func tokUser(tok string) string           { return vc.UF[string]("jwt.username", tok) }
func tokExp(tok string) int64             { return vc.UF[int64]("jwt.exp", tok) }
func tokSettings(tok string, m map[string]interface{}) bool {
	return vc.UF[bool]("jwt.settings", tok, m)
}

//vc:model github.com/golang-jwt/jwt.ParseWithClaims
func mJwtParse(tok string, claims jwt.Claims, kf jwt.Keyfunc) (*jwt.Token, error) {
	vc.Event("jwt.parse", tok)
	t := vc.New[jwt.Token]()
	c, is := claims.(*jwtClaims)
	if is {
		*c = vc.Any[jwtClaims]()
	}
	t.Raw = tok
	t.Claims = claims
	t.Valid = false
	if vc.Any[bool]() {
		return nil, vc.LibError()
	}
	key, err := kf(t)
	if err != nil {
		return t, vc.LibError()
	}
	secret, ok := key.([]byte)
	if !ok || !vc.Any[bool]() {
		return t, vc.LibError()
	}
	vc.Assume(tokVerified(tok, vc.Bytes(secret)))
	if is {
		vc.Assume(c.Username == tokUser(tok) && c.ExpiresAt == tokExp(tok) && tokSettings(tok, c.Settings))
	}
	t.Valid = true
	vc.Event("jwt.verified", tok, vc.Bytes(secret))
	return t, nil
}

//vc:model (*net/http.Request).BasicAuth
func mBasicAuth(r *http.Request) (string, string, bool) {
	return basicUser(r), basicPass(r), basicOk(r)
}

func authHeader(r *http.Request) string { return r.Header.Get("Authorization") }
func basicOk(r *http.Request) bool      { return vc.UF[bool]("basic.ok", authHeader(r)) }
func basicUser(r *http.Request) string  { return vc.UF[string]("basic.user", authHeader(r)) }
func basicPass(r *http.Request) string  { return vc.UF[string]("basic.pass", authHeader(r)) }

// ---- the JWT check

func isBearer(h string) bool      { return len(h) >= 7 && h[:7] == "Bearer " }
func bearerToken(h string) string { return h[7:] }

// the current time as the last look at the clock saw it
func nowUnix() int64 {
	return vc.UF[int64]("time.unix", vc.Ret[time.Time]("call:time.Now", vc.Count("call:time.Now")-1, 0))
}

// every cached token was verified, and is cached with its own claims under its own header
func goodEntry(k string, v interface{}, secret string) bool {
	c, ok := v.(*jwtClaims)
	return ok && c != nil && vc.Ref(c) <= vc.Alloc() && isBearer(k) && tokVerified(bearerToken(k), secret) &&
		c.Username == tokUser(bearerToken(k)) && c.ExpiresAt == tokExp(bearerToken(k)) && tokSettings(bearerToken(k), c.Settings)
}

func cacheInv(c *lru.Cache, secret string) bool {
	return c != nil && vc.ForallStr(func(k string) bool { return vc.Imp(cHas(*c, k), goodEntry(k, cVal(*c, k), secret)) })
}

//vc:requires (*jlibhttp.AuthHandler).jwtAuth
func reqJwt(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request) bool {
	return h != nil && cfg != nil && r != nil && cacheInv(h.jwtCache, cfg.Secret)
}

//vc:modifies (*jlibhttp.AuthHandler).jwtAuth
func modJwt(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request) { vc.Mod(h.jwtCache) }

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=only-verified-unexpired-tokens props=C17,C18
func ensJwtOk(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	hd := authHeader(r)
	if !ok {
		return info == nil
	}
	return isBearer(hd) && tokVerified(bearerToken(hd), cfg.Secret) && info != nil &&
		info.Username == tokUser(bearerToken(hd)) && tokSettings(bearerToken(hd), info.Settings)
}

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=not-expired-now local props=C17,C18
func ensJwtNow(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	return !ok || vc.Count("call:time.Now") > 0 && tokExp(bearerToken(authHeader(r))) >= nowUnix()
}

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=valid-tokens-accepted local props=C17
func ensJwtAccept(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	hd := authHeader(r)
	had := vc.Old(func() bool { return cHas(*h.jwtCache, hd) })
	// a bearer header is looked up, or else handed to the parser with the configured secret
	return vc.Imp(isBearer(hd) && (had || vc.Count("jwt.verified") > 0) && tokExp(bearerToken(hd)) >= nowUnix(), ok) &&
		vc.Imp(isBearer(hd) && !had, vc.Count("jwt.parse") == 1 && vc.Arg[string]("jwt.parse", 0, 0) == bearerToken(hd))
}

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=cache-holds-only-verified-tokens props=C18
func ensJwtCache(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	return cacheInv(h.jwtCache, cfg.Secret)
}

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=enters-only-verified-and-unexpired props=C18
func ensJwtEnters(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	return vc.ForallStr(func(k string) bool {
		had := vc.Old(func() bool { return cHas(*h.jwtCache, k) })
		return vc.Imp(cHas(*h.jwtCache, k) && !had, k == authHeader(r) && ok)
	})
}

//vc:ensures (*jlibhttp.AuthHandler).jwtAuth name=expired-is-evicted local props=C18
func ensJwtEvict(h *AuthHandler, cfg *JwtAuthConfig, r *http.Request, info *AuthInfo, ok bool) bool {
	hd := authHeader(r)
	had := vc.Old(func() bool { return cHas(*h.jwtCache, hd) })
	return vc.Imp(had && vc.Count("call:time.Now") > 0 && tokExp(bearerToken(hd)) < nowUnix(), !ok && !cHas(*h.jwtCache, hd)) &&
		vc.Imp(had, vc.Count("call:time.Now") > 0)
}

//vc:attr (*jlibhttp.AuthHandler).jwtAuth event

const evJwt = "(*jlibhttp.AuthHandler).jwtAuth"

// ---- all credentials

func hasJwt(cfg *AuthConfig) bool { return cfg.Jwt != nil && cfg.Jwt.Secret != "" }

func basicAt(cfg *AuthConfig, r *http.Request, i int) bool {
	return basicOk(r) && cfg.Basic[i].Username == basicUser(r) && cfg.Basic[i].Password == basicPass(r)
}

func bearerAt(cfg *AuthConfig, r *http.Request, i int) bool {
	return authHeader(r) == "Bearer "+cfg.Bearer[i].Token
}

func bearerName(b BearerAuthConfig) string {
	if b.Username == "" {
		return b.Token
	}
	return b.Username
}

func someBasic(cfg *AuthConfig, r *http.Request) bool {
	return vc.Exists(0, len(cfg.Basic), func(i int) bool { return basicAt(cfg, r, i) })
}

func someBearer(cfg *AuthConfig, r *http.Request) bool {
	return vc.Exists(0, len(cfg.Bearer), func(i int) bool { return bearerAt(cfg, r, i) })
}

func authInv(h *AuthHandler) bool {
	return vc.Imp(h.authConfig != nil && hasJwt(h.authConfig), cacheInv(h.jwtCache, h.authConfig.Jwt.Secret))
}

//vc:requires (jlibhttp.AuthHandler).TryAuth
func reqTry(h AuthHandler, r *http.Request) bool { return r != nil && authInv(&h) }

//vc:modifies (jlibhttp.AuthHandler).TryAuth
func modTry(h AuthHandler, r *http.Request) { vc.Mod(h.jwtCache) }

func jwtSaid() bool { return vc.Count(evJwt) > 0 && vc.Ret[bool](evJwt, 0, 1) }

//vc:ensures (jlibhttp.AuthHandler).TryAuth name=accepts-exactly-the-configured-credentials local props=C17
func ensTryOk(h AuthHandler, r *http.Request, info *AuthInfo, ok bool) bool {
	cfg := h.authConfig
	if cfg == nil {
		return ok && info == nil && vc.Count(evJwt) == 0
	}
	return ok == (jwtSaid() || someBasic(cfg, r) || someBearer(cfg, r)) &&
		// the token is looked at iff a secret is configured (and nothing else has accepted already)
		vc.Imp(!hasJwt(cfg), vc.Count(evJwt) == 0) &&
		vc.Imp(hasJwt(cfg) && !ok, vc.Count(evJwt) == 1) &&
		vc.Imp(vc.Count(evJwt) > 0, vc.Arg[*JwtAuthConfig](evJwt, 0, 1) == cfg.Jwt && vc.Arg[*http.Request](evJwt, 0, 2) == r)
}

//vc:ensures (jlibhttp.AuthHandler).TryAuth name=nothing-else-is-accepted props=C17,C18
func ensTryOnly(h AuthHandler, r *http.Request, info *AuthInfo, ok bool) bool {
	cfg := h.authConfig
	if cfg == nil {
		return ok && info == nil
	}
	hd := authHeader(r)
	return vc.Imp(ok, info != nil && (someBasic(cfg, r) || someBearer(cfg, r) ||
		hasJwt(cfg) && isBearer(hd) && tokVerified(bearerToken(hd), cfg.Jwt.Secret))) &&
		vc.Imp(!ok, info == nil && !someBasic(cfg, r) && !someBearer(cfg, r))
}

//vc:ensures (jlibhttp.AuthHandler).TryAuth name=identity-of-the-credential-that-matched props=C17
func ensTryWho(h AuthHandler, r *http.Request, info *AuthInfo, ok bool) bool {
	cfg := h.authConfig
	if cfg == nil || !ok {
		return true
	}
	hd := authHeader(r)
	return info != nil && (hasJwt(cfg) && isBearer(hd) && tokVerified(bearerToken(hd), cfg.Jwt.Secret) &&
		info.Username == tokUser(bearerToken(hd)) && tokSettings(bearerToken(hd), info.Settings) ||
		vc.Exists(0, len(cfg.Basic), func(i int) bool {
			return basicAt(cfg, r, i) && info.Username == cfg.Basic[i].Username && vc.Same(info.Settings, cfg.Basic[i].Settings)
		}) ||
		vc.Exists(0, len(cfg.Bearer), func(i int) bool {
			return bearerAt(cfg, r, i) && info.Username == bearerName(cfg.Bearer[i]) && vc.Same(info.Settings, cfg.Bearer[i].Settings)
		}))
}

//vc:ensures (jlibhttp.AuthHandler).TryAuth name=cache-kept props=C17,C18
func ensTryInv(h AuthHandler, r *http.Request, info *AuthInfo, ok bool) bool { return authInv(&h) }

//vc:invariant (jlibhttp.AuthHandler).TryAuth
func invTryBasic(k int, h AuthHandler, r *http.Request) bool {
	return vc.Forall(0, k, func(i int) bool { return !basicAt(h.authConfig, r, i) })
}

//vc:invariant (jlibhttp.AuthHandler).TryAuth
func invTryBearer(k int, h AuthHandler, r *http.Request) bool {
	return vc.Forall(0, k, func(i int) bool { return !bearerAt(h.authConfig, r, i) })
}

//vc:attr (jlibhttp.AuthHandler).TryAuth event

// ---- the gate

const evTry = "(jlibhttp.AuthHandler).TryAuth"
const evWithValue = "call:context.WithValue"
const evWithContext = "call:(*net/http.Request).WithContext"
const evStatus = "iface:http.ResponseWriter.WriteHeader"

//vc:requires (*jlibhttp.AuthHandler).ServeHTTP
func reqAuthServe(h *AuthHandler, w http.ResponseWriter, r *http.Request) bool {
	return h != nil && r != nil && w != nil && h.next != nil && authInv(h)
}

//vc:ensures (*jlibhttp.AuthHandler).ServeHTTP name=next-iff-authenticated local props=C17
func ensAuthServe(h *AuthHandler, w http.ResponseWriter, r *http.Request) bool {
	if vc.Count(evTry) != 1 || vc.Arg[*http.Request](evTry, 0, 1) != r {
		return false
	}
	info, ok := vc.Ret[*AuthInfo](evTry, 0, 0), vc.Ret[bool](evTry, 0, 1)
	if !ok {
		return vc.Count(evHandler) == 0 && vc.Count(evStatus) == 1 && vc.Arg[int](evStatus, 0, 1) == 401 &&
			vc.Imp(vc.Count("iface:http.ResponseWriter.Write") > 0, vc.Pos(evStatus, 0) < vc.Pos("iface:http.ResponseWriter.Write", 0)) &&
			vc.Same(vc.Arg[http.ResponseWriter](evStatus, 0, 0), w)
	}
	if vc.Count(evHandler) != 1 || !vc.Same(vc.Arg[http.Handler](evHandler, 0, 0), h.next) ||
		!vc.Same(vc.Arg[http.ResponseWriter](evHandler, 0, 1), w) || vc.Count("iface:http.ResponseWriter.*") != 0 {
		return false
	}
	if info == nil {
		return vc.Arg[*http.Request](evHandler, 0, 2) == r
	}
	key, iskey := vc.Arg[interface{}](evWithValue, 0, 1).(string)
	val, isinfo := vc.Arg[interface{}](evWithValue, 0, 2).(*AuthInfo)
	return vc.Count(evWithValue) == 1 && iskey && key == "authInfo" && isinfo && val == info &&
		vc.Count(evWithContext) == 1 && vc.Arg[*http.Request](evWithContext, 0, 0) == r &&
		vc.Same(vc.Arg[context.Context](evWithContext, 0, 1), vc.Ret[context.Context](evWithValue, 0, 0)) &&
		vc.Arg[*http.Request](evHandler, 0, 2) == vc.Ret[*http.Request](evWithContext, 0, 0)
}

//vc:attr (*jlibhttp.AuthHandler).ServeHTTP noframe

// ---- reading the identity back

//vc:requires jlibhttp.AuthInfoFromContext
func reqInfoFrom(ctx context.Context) bool { return ctx != nil }

//vc:ensures jlibhttp.AuthInfoFromContext name=reads-the-attached-identity props=C17
func ensInfoFrom(ctx context.Context, info *AuthInfo, ok bool) bool {
	const evValue = "iface:context.Context.Value"
	key, is := vc.Arg[interface{}](evValue, 0, 1).(string)
	v, isinfo := vc.Ret[interface{}](evValue, 0, 0).(*AuthInfo)
	return vc.Count(evValue) == 1 && is && key == "authInfo" && vc.Same(vc.Arg[context.Context](evValue, 0, 0), ctx) &&
		ok == isinfo && vc.Imp(ok, info == v) && vc.Imp(!ok, info == nil)
}

// ---- a new handler starts with an empty cache

//vc:model github.com/hashicorp/golang-lru.New
func mLruNew(size int) (*lru.Cache, error) {
	if size <= 0 {
		return nil, vc.LibError()
	}
	c := vc.New[lru.Cache]()
	vc.Assume(vc.ForallStr(func(k string) bool { return !cHas(*c, k) }))
	return c, nil
}

//vc:requires jlibhttp.NewAuthHandler
func reqNewAuth(cfg *AuthConfig, next http.Handler) bool { return true }

//vc:ensures jlibhttp.NewAuthHandler name=starts-with-an-empty-cache props=C17,C18
func ensNewAuth(cfg *AuthConfig, next http.Handler, h *AuthHandler) bool {
	return h != nil && h.authConfig == cfg && vc.Same(h.next, next) && authInv(h)
}
