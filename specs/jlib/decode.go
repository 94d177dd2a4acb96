package jlib

import (
	"encoding/json"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- JSON documents, as the decoder sees them

func jHas(doc, name string) bool       { return !jNull(doc) && vc.UF[bool]("json.has", doc, name) }
func jMember(doc, name string) string  { return vc.UF[string]("json.member", doc, name) }
func jNull(doc string) bool            { return vc.UF[bool]("json.null", doc) }
func jIsObj(doc string) bool           { return jNull(doc) || vc.UF[bool]("json.isobj", doc) }
func jIsList(doc string) bool          { return vc.UF[bool]("json.islist", doc) }
func jIsStr(doc string) bool           { return vc.UF[bool]("json.isstr", doc) }
func jIsInt(doc string) bool           { return vc.UF[bool]("json.isint:int", doc) }
func jStr(doc string) string           { return vc.UF[string]("json.str", doc) }
func jInt(doc string) int              { return vc.UF[int]("json.int:int", doc) }
func jAny(doc string) interface{}      { return vc.UF[interface{}]("json.any", doc, true) } // numbers exact
func jLen(doc string) int              { return vc.UF[int]("json.len", doc) }
func jElem(doc string, i int) string   { return vc.UF[string]("json.elem", doc, i) }
func jDoc(src string, pos int) string  { return vc.UF[string]("json.doc", src, pos) }
func jHasDoc(src string, pos int) bool { return vc.UF[bool]("json.hasdoc", src, pos) }

func jStrOrAbsent(doc, name string) bool {
	return !jHas(doc, name) || jIsStr(jMember(doc, name))
}

func jStrMember(doc, name string) string {
	if jHas(doc, name) {
		return jStr(jMember(doc, name))
	}
	return ""
}

// ---- classification of a document

func idFine(d string) bool {
	return !jHas(d, "id") || jIsInt(jMember(d, "id")) || jIsStr(jMember(d, "id"))
}

// idOf: an integer id when the member is one, a string otherwise
func idIs(d string, id interface{}) bool {
	if !jHas(d, "id") {
		return id == nil
	}
	if jIsInt(jMember(d, "id")) {
		n, ok := id.(int)
		return ok && n == jInt(jMember(d, "id"))
	}
	s, ok := id.(string)
	return ok && s == jStr(jMember(d, "id"))
}

func errorBodyFine(e string) bool {
	return jIsObj(e) && (!jHas(e, "code") || jIsInt(jMember(e, "code"))) && jStrOrAbsent(e, "message")
}

func errorBodyIs(e string, body *RPCError) bool {
	return body != nil &&
		(jHas(e, "code") && body.Code == jInt(jMember(e, "code")) || !jHas(e, "code") && body.Code == 0) &&
		body.Message == jStrMember(e, "message") &&
		(jHas(e, "data") && body.Data == jAny(jMember(e, "data")) || !jHas(e, "data") && body.Data == nil)
}

func paramsAre(p string, params []interface{}, isList bool) bool {
	if jIsList(p) {
		return isList && params != nil && len(params) == jLen(p) &&
			vc.Forall(0, len(params), func(i int) bool { return params[i] == jAny(jElem(p, i)) })
	}
	return !isList && len(params) == 1 && params[0] == jAny(p)
}

const (
	dRefused = iota
	dError
	dResult
	dRequest
	dNotify
)

func classify(valid bool, d string) int {
	if !valid || !jIsObj(d) || !jStrOrAbsent(d, "method") || !jStrOrAbsent(d, "traceid") || !idFine(d) {
		return dRefused
	}
	if jHas(d, "error") {
		if jHas(d, "result") || !errorBodyFine(jMember(d, "error")) {
			return dRefused
		}
		return dError
	}
	if jHas(d, "result") {
		return dResult
	}
	if jStrMember(d, "method") != "" {
		if !jHas(d, "params") {
			return dRefused
		}
		if jHas(d, "id") {
			return dRequest
		}
		return dNotify
	}
	if jHas(d, "id") {
		return dResult
	}
	return dRefused
}

func decodesTo(valid bool, d string, m Message, err error) bool {
	switch classify(valid, d) {
	case dRefused:
		return err != nil && m == nil
	case dError:
		t, ok := m.(*ErrorMessage)
		return err == nil && ok && t != nil && t.kind == MKError && t.traceId == jStrMember(d, "traceid") &&
			idIs(d, t.Id) && errorBodyIs(jMember(d, "error"), t.Error)
	case dResult:
		t, ok := m.(*ResultMessage)
		return err == nil && ok && t != nil && t.kind == MKResult && t.traceId == jStrMember(d, "traceid") && idIs(d, t.Id) &&
			(jHas(d, "result") && t.Result == jAny(jMember(d, "result")) || !jHas(d, "result") && t.Result == nil)
	case dRequest:
		t, ok := m.(*RequestMessage)
		return err == nil && ok && t != nil && t.kind == MKRequest && t.traceId == jStrMember(d, "traceid") && idIs(d, t.Id) &&
			t.Method == jStr(jMember(d, "method")) && paramsAre(jMember(d, "params"), t.Params, t.paramsAreList)
	case dNotify:
		t, ok := m.(*NotifyMessage)
		return err == nil && ok && t != nil && t.kind == MKNotify && t.traceId == jStrMember(d, "traceid") &&
			t.Method == jStr(jMember(d, "method")) && paramsAre(jMember(d, "params"), t.Params, t.paramsAreList)
	}
	return false
}

//vc:ensures jlib.ParseBytes name=classifies-faithfully props=C01
func ensParseBytes(data []byte, m Message, err error) bool {
	src := vc.Bytes(data)
	return decodesTo(jHasDoc(src, 0), jDoc(src, 0), m, err)
}

//vc:ensures jlib.ParseBytes name=well-formed-message props=C01,C03
func ensParseBytesWf(data []byte, m Message, err error) bool {
	return (err == nil) == (m != nil) && (err != nil || wfMessage(m) && vc.Fresh(m))
}

func nextDoc(dec *json.Decoder) string {
	return vc.Old(func() string { return jDoc(vc.Ghost[string](dec, "src"), vc.Ghost[int](dec, "pos")) })
}

func hasNextDoc(dec *json.Decoder) bool {
	return vc.Old(func() bool { return jHasDoc(vc.Ghost[string](dec, "src"), vc.Ghost[int](dec, "pos")) })
}

//vc:requires jlib.DecodeMessage
func reqDecodeMessage(decoder *json.Decoder) bool { return decoder != nil }

//vc:modifies jlib.DecodeMessage
func modDecodeMessage(decoder *json.Decoder) { vc.Mod(decoder) }

//vc:ensures jlib.DecodeMessage name=classifies-faithfully props=C01
func ensDecodeMessage(decoder *json.Decoder, m Message, err error) bool {
	return decodesTo(hasNextDoc(decoder), nextDoc(decoder), m, err)
}

//vc:ensures jlib.DecodeMessage name=reads-one-document props=C01
func ensDecodeMessagePos(decoder *json.Decoder, m Message, err error) bool {
	p := vc.Old(func() int { return vc.Ghost[int](decoder, "pos") })
	s := vc.Old(func() string { return vc.Ghost[string](decoder, "src") })
	return vc.Ghost[int](decoder, "pos") == p+1 && vc.Ghost[string](decoder, "src") == s
}

//vc:ensures jlib.DecodeMessage name=well-formed-message props=C01,C03
func ensDecodeMessageWf(decoder *json.Decoder, m Message, err error) bool {
	return (err == nil) == (m != nil) && (err != nil || wfMessage(m) && vc.Fresh(m))
}
