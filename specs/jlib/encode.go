package jlib

import "github.com/superisaac/jlib/internal/vc"

func jPresent(doc, name string) bool { return vc.UF[bool]("json.present", doc, name) }

// sameValue: got is what decoding the encoding of v gives
func sameValue(v, got interface{}) bool {
	if v == nil || jNull(vc.JSONText(v)) {
		return got == nil
	}
	return got == jAny(vc.JSONText(v))
}

// messages that have a JSON form: ids are integers or strings, a single
// params value is not null, an error message has an error body, a result
// message a result or an id
func wireId(id interface{}) bool {
	if _, ok := id.(int); ok {
		return true
	}
	_, ok := id.(string)
	return ok
}

func wireParams(params []interface{}, isList bool) bool {
	return isList || params[0] != nil && !jNull(vc.JSONText(params[0]))
}

func sameOnWire(params []interface{}, isList bool, got []interface{}, gotList bool) bool {
	if isList {
		return gotList && len(got) == len(params) &&
			vc.Forall(0, len(params), func(i int) bool { return got[i] == jAny(vc.JSONText(params[i])) })
	}
	// a single value stays a single value, unless its own JSON form is a list
	p := vc.JSONText(params[0])
	if jIsList(p) {
		return gotList && len(got) == jLen(p) && vc.Forall(0, len(got), func(i int) bool { return got[i] == jAny(jElem(p, i)) })
	}
	return !gotList && len(got) == 1 && got[0] == jAny(p)
}

//vc:lemma request-round-trip props=C02
func lemRequestRoundTrip(m *RequestMessage) {
	vc.Assume(wfMessage(m) && wireId(m.Id) && wireParams(m.Params, m.paramsAreList))
	b, err := MessageBytes(m)
	if err != nil {
		return
	}
	r, err := ParseBytes(b)
	t, ok := r.(*RequestMessage)
	vc.Assert("request-decodes-to-request", err == nil && ok && t.IsRequest())
	vc.Assert("same-id-method-trace", t.Id == m.Id && t.Method == m.Method && t.TraceId() == m.TraceId())
	vc.Assert("same-params", sameOnWire(m.Params, m.paramsAreList, t.Params, t.paramsAreList))
}

//vc:lemma notify-round-trip props=C02
func lemNotifyRoundTrip(m *NotifyMessage) {
	vc.Assume(wfMessage(m) && wireParams(m.Params, m.paramsAreList))
	b, err := MessageBytes(m)
	if err != nil {
		return
	}
	r, err := ParseBytes(b)
	t, ok := r.(*NotifyMessage)
	vc.Assert("notify-decodes-to-notify", err == nil && ok && t.IsNotify())
	vc.Assert("same-method-trace", t.Method == m.Method && t.TraceId() == m.TraceId())
	vc.Assert("same-params", sameOnWire(m.Params, m.paramsAreList, t.Params, t.paramsAreList))
}

//vc:lemma result-round-trip props=C02
func lemResultRoundTrip(m *ResultMessage) {
	vc.Assume(wfMessage(m) && (m.Id == nil || wireId(m.Id)))
	vc.Assume(m.Id != nil || m.Result != nil && !jNull(vc.JSONText(m.Result)))
	b, err := MessageBytes(m)
	if err != nil {
		return
	}
	r, err := ParseBytes(b)
	t, ok := r.(*ResultMessage)
	vc.Assert("result-decodes-to-result", err == nil && ok && t.IsResult())
	vc.Assert("same-id-trace", t.Id == m.Id && t.TraceId() == m.TraceId())
	vc.Assert("same-result", sameValue(m.Result, t.Result))
}

//vc:lemma error-round-trip props=C02
func lemErrorRoundTrip(m *ErrorMessage) {
	vc.Assume(wfMessage(m) && (m.Id == nil || wireId(m.Id)) && m.Error != nil)
	b, err := MessageBytes(m)
	if err != nil {
		return
	}
	r, err := ParseBytes(b)
	t, ok := r.(*ErrorMessage)
	vc.Assert("error-decodes-to-error", err == nil && ok && t.IsError() && t.Error != nil)
	vc.Assert("same-id-trace", t.Id == m.Id && t.TraceId() == m.TraceId())
	vc.Assert("same-error", t.Error.Code == m.Error.Code && t.Error.Message == m.Error.Message && sameValue(m.Error.Data, t.Error.Data))
}

//vc:lemma encoding-shape props=C02
func lemEncodingShape(m Message) {
	vc.Assume(wfMessage(m))
	b, err := MessageBytes(m)
	if err != nil {
		vc.Assert("no-bytes-on-failure", b == nil)
		return
	}
	d := jDoc(vc.Bytes(b), 0)
	vc.Assert("one-document", jHasDoc(vc.Bytes(b), 0) && jIsObj(d))
	vc.Assert("jsonrpc-2.0", jHas(d, "jsonrpc") && jIsStr(jMember(d, "jsonrpc")) && jStr(jMember(d, "jsonrpc")) == "2.0")
	vc.Assert("traceid-iff-non-empty", jPresent(d, "traceid") == (m.TraceId() != "") &&
		(m.TraceId() == "" || jStr(jMember(d, "traceid")) == m.TraceId()))
}

//vc:lemma message-string-is-bytes props=C02
func lemMessageString(m Message) {
	vc.Assume(wfMessage(m))
	b, err := MessageBytes(m)
	vc.Assume(err == nil)
	vc.Assert("same-text", MessageString(m) == vc.Bytes(b))
}
