package jlibhttp

import (
	"net/http"
	"strings"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- configuration values

//vc:ensures (*jlibhttp.AuthConfig).ValidateValues name=valid-iff-complete props=C24
func ensAuthValid(c *AuthConfig, err error) bool {
	return (err == nil) == (c == nil ||
		vc.Forall(0, len(c.Bearer), func(i int) bool { return c.Bearer[i].Token != "" }) &&
			vc.Forall(0, len(c.Basic), func(i int) bool { return c.Basic[i].Username != "" && c.Basic[i].Password != "" }) &&
			(c.Jwt == nil || c.Jwt.Secret != ""))
}

//vc:invariant (*jlibhttp.AuthConfig).ValidateValues
func invBearerValid(k int, c *AuthConfig) bool {
	return vc.Forall(0, k, func(i int) bool { return c.Bearer[i].Token != "" })
}

//vc:invariant (*jlibhttp.AuthConfig).ValidateValues
func invBasicValid(k int, c *AuthConfig) bool {
	return vc.Forall(0, k, func(i int) bool { return c.Basic[i].Username != "" && c.Basic[i].Password != "" })
}

//vc:ensures (*jlibhttp.TLSConfig).ValidateValues name=valid-iff-complete props=C24
func ensTLSValid(c *TLSConfig, err error) bool {
	return (err == nil) == (c.Certfile != "" && c.Keyfile != "")
}

//vc:requires (*jlibhttp.TLSConfig).ValidateValues
func reqTLSValid(c *TLSConfig) bool { return c != nil }

// ---- header flags

func flagOk(s string) bool { return strings.Contains(s, "=") }
func flagName(s string) string {
	return vc.UF[string]("http.canon", strings.Trim(s[:strings.Index(s, "=")], " "))
}
func flagValue(s string) string { return strings.Trim(s[strings.Index(s, "=")+1:], " ") }

// the values of a header after the first k flags: nvals of them, the i-th being val
func nvals(fs HeaderFlags, k int, c string) int {
	return vc.UF[int]("headers.n", vc.Elems([]string(fs)), k, c)
}
func val(fs HeaderFlags, c string, i int) string {
	return vc.UF[string]("headers.at", vc.Elems([]string(fs)), c, i)
}

// definition of the two by recursion on k
//
//vc:requires (*jlibhttp.HeaderFlags).Parse
func defHeaders(p *HeaderFlags) bool {
	if p == nil {
		return false
	}
	fs := *p
	return vc.ForallStr(func(c string) bool { return nvals(fs, 0, c) == 0 }) &&
		vc.Forall(0, len(fs), func(k int) bool {
			return vc.ForallStr(func(c string) bool {
				return vc.Imp(flagName(fs[k]) == c, nvals(fs, k+1, c) == nvals(fs, k, c)+1 && val(fs, c, nvals(fs, k, c)) == flagValue(fs[k])) &&
					vc.Imp(flagName(fs[k]) != c, nvals(fs, k+1, c) == nvals(fs, k, c))
			})
		})
}

func headersAfter(fs HeaderFlags, k int, h http.Header) bool {
	return vc.ForallStr(func(c string) bool {
		return vc.Has(h, c) == (nvals(fs, k, c) > 0) && len(h[c]) == nvals(fs, k, c)
	}) && vc.ForallStr(func(c string) bool {
		return vc.Forall(0, nvals(fs, k, c), func(i int) bool { return h[c][i] == val(fs, c, i) })
	})
}

//vc:ensures (*jlibhttp.HeaderFlags).Parse name=fails-iff-some-flag-has-no-separator props=C24
func ensParseErr(p *HeaderFlags, h http.Header, err error) bool {
	fs := *p
	return (err == nil) == vc.Forall(0, len(fs), func(i int) bool { return flagOk(fs[i]) })
}

//vc:ensures (*jlibhttp.HeaderFlags).Parse name=exactly-the-given-headers props=C24
func ensParse(p *HeaderFlags, h http.Header, err error) bool {
	return err != nil || headersAfter(*p, len(*p), h)
}

//vc:invariant (*jlibhttp.HeaderFlags).Parse
func invParseOk(k int, p *HeaderFlags) bool {
	fs := *p
	return vc.Forall(0, k, func(i int) bool { return flagOk(fs[i]) })
}

//vc:invariant (*jlibhttp.HeaderFlags).Parse
func invParse(k int, p *HeaderFlags, h http.Header) bool { return headersAfter(*p, k, h) }

//vc:invariant (*jlibhttp.HeaderFlags).Parse
func invParseOwn(k int, p *HeaderFlags, h http.Header) bool {
	return vc.ForallStr(func(c string) bool {
		return vc.Imp(vc.Has(h, c), vc.Base(h[c]) <= vc.Alloc())
	})
}
