package jlib

import "github.com/superisaac/jlib/internal/vc"

func alnum(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func methodChar(c byte) bool {
	return alnum(c) || c == '-' || c == '_' || c == ':' || c == '+' || c == '.'
}

func publicChar(c byte) bool {
	return methodChar(c) || c == '/' || c == '\\' || c == '&' || c == '#'
}

//vc:ensures jlib.IsMethod name=exactly-the-grammar props=C07
func ensIsMethod(name string, r bool) bool {
	return r == (len(name) > 0 && vc.Forall(0, len(name), func(i int) bool { return methodChar(name[i]) }))
}

//vc:ensures jlib.IsPublicMethod name=exactly-the-grammar props=C07
func ensIsPublicMethod(name string, r bool) bool {
	return r == (!vc.Prefix(name, "rpc.") && len(name) > 0 && alnum(name[0]) &&
		vc.Forall(0, len(name), func(i int) bool { return publicChar(name[i]) }))
}
