package jlib

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

func TestReplayC07Names(t *testing.T) {
	const an = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	all := func(s, set string) bool {
		for i := 0; i < len(s); i++ {
			if !strings.ContainsRune(set, rune(s[i])) || s[i] >= 128 {
				return false
			}
		}
		return true
	}
	vrun(t, 1000000, func(r *rand.Rand) string {
		var s string
		if r.Intn(2) == 0 {
			s = vstr(r)
		} else {
			b := make([]byte, r.Intn(6))
			for i := range b {
				if r.Intn(3) == 0 {
					b[i] = byte(r.Intn(256))
				} else {
					b[i] = (an + "-_:+./\\&#")[r.Intn(len(an)+9)]
				}
			}
			s = string(b)
		}
		if r.Intn(6) == 0 {
			s = "rpc." + s
		}
		if r.Intn(10) == 0 {
			s += strings.Repeat("a", r.Intn(300))
		}
		if g, w := IsMethod(s), s != "" && all(s, an+"-_:+."); g != w {
			return fmt.Sprintf("IsMethod(%q)=%v, want %v", s, g, w)
		}
		w := s != "" && !strings.HasPrefix(s, "rpc.") && all(s[:1], an) && all(s, an+"-_:+./\\&#")
		if g := IsPublicMethod(s); g != w {
			return fmt.Sprintf("IsPublicMethod(%q)=%v, want %v", s, g, w)
		}
		return ""
	})
}
