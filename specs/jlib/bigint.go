package jlib

import "github.com/superisaac/jlib/internal/vc"

// decimal: an optionally signed sequence of decimal digits
func decimal(s string) bool { return vc.Matches(s, "^[-+]?[0-9]+$") }

// the integer a decimal stands for
func bigOf(s string) Bigint { return vc.UF[Bigint]("big.parse", s) }

func bigText(b Bigint) string { return (&b).String() }

// what stands between the quotes, or the text itself when it has none
func unquoted(s string) string {
	n := len(s)
	if n >= 2 && s[0] == '"' && s[n-1] == '"' {
		return s[1 : n-1]
	}
	return s
}

//vc:ensures (jlib.Bigint).MarshalJSON name=quoted-decimal props=C06
func ensBigMarshal(self Bigint, b []byte, err error) bool {
	return err == nil && vc.Bytes(b) == "\""+bigText(self)+"\"" && decimal(bigText(self)) && vc.Same(bigOf(bigText(self)), self)
}

//vc:modifies (*jlib.Bigint).UnmarshalJSON
func modBigUnmarshal(self *Bigint, data []byte) { vc.Mod(self) }

//vc:ensures (*jlib.Bigint).UnmarshalJSON name=exactly-the-decimals props=C06
func ensBigUnmarshal(self *Bigint, data []byte, err error) bool {
	s := vc.Old(func() string { return unquoted(vc.Bytes(data)) })
	if !decimal(s) {
		return err != nil
	}
	return err == nil && vc.Same(*self, bigOf(s))
}

//vc:ensures (*jlib.Bigint).String name=decimal-text props=C06
func ensBigString(self *Bigint, s string) bool {
	return decimal(s) && vc.Same(bigOf(s), *self)
}

//vc:lemma big-round-trip props=C06
func lemBigRoundTrip(v Bigint, p *Bigint) {
	vc.Assume(p != nil)
	b, err := v.MarshalJSON()
	vc.Assert("marshals", err == nil)
	err = p.UnmarshalJSON(b)
	vc.Assert("same-integer", err == nil && vc.Same(*p, v))
}
