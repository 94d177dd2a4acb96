package jlibhttp

import (
	"context"
	"net/http"

	"github.com/pkg/errors"
	"github.com/superisaac/jlib"
	jlibschema "github.com/superisaac/jlib/schema"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- actors are finite trees; every registered handler has a callback

//vc:rec
func wfActor(a *Actor) bool {
	return a != nil && a.methodHandlers != nil && wfHandlers(a.methodHandlers) &&
		vc.Forall(0, len(a.children), func(i int) bool { return wfActor(a.children[i]) })
}

func wfHandlers(m map[string]*MethodHandler) bool {
	return vc.ForallKey(m, func(k string, h *MethodHandler) bool {
		return h != nil && h.callback != nil && (h.schema == nil || jlibschema.VcWf(h.schema))
	})
}

// hasMethod: the actor or one of its descendants has the method
//
//vc:rec general
func hasMethod(a *Actor, m string) bool {
	return vc.Has(a.methodHandlers, m) || vc.Exists(0, len(a.children), func(i int) bool { return hasMethod(a.children[i], m) })
}

// mention makes the definitions known for one actor
func mention(a *Actor, m string) bool {
	return (hasMethod(a, m) || !hasMethod(a, m)) && (wfActor(a) || !wfActor(a))
}

func wfReq(r *RPCRequest) bool { return r != nil && jlib.VcWfMessage(r.msg) }

// handlers answer with messages built by the library, if with messages at all
func goodResult(res interface{}, err error) bool {
	m, ok := res.(jlib.Message)
	return (!ok || jlib.VcWfMessage(m)) && goodError(err)
}

// an error that is found by errors.As is not a nil pointer
func goodError(err error) bool {
	var e *jlib.RPCError
	var w *WrappedResponse
	var s *SimpleResponse
	return vc.Imp(errors.As(err, &e), e != nil) && vc.Imp(errors.As(err, &w), w != nil && w.Response != nil) && vc.Imp(errors.As(err, &s), s != nil)
}

//vc:ensures dyn:jlibhttp.RequestCallback
func assumeCallback(req *RPCRequest, params []interface{}, res interface{}, err error) bool {
	return goodResult(res, err)
}

//vc:ensures dyn:jlibhttp.MissingCallback
func assumeMissing(req *RPCRequest, res interface{}, err error) bool { return goodResult(res, err) }

// ... and the errors they panic with are like those they return
//
//vc:onpanic dyn:jlibhttp.RequestCallback
func assumeCallbackPanic(req *RPCRequest, params []interface{}, pv interface{}) bool { return goodPanic(pv) }

//vc:onpanic dyn:jlibhttp.MissingCallback
func assumeMissingPanic(req *RPCRequest, pv interface{}) bool { return goodPanic(pv) }

func goodPanic(pv interface{}) bool {
	err, ok := pv.(error)
	return !ok || goodError(err)
}

// ---- feeding

const evCb = "dyn:jlibhttp.RequestCallback"
const evMissing = "dyn:jlibhttp.MissingCallback"
const evFeed = "(*jlibhttp.Actor).Feed"
const evValidate = "(*jlibschema.SchemaValidator).Validate"
const evMap = "jlib.MessageMap"

//vc:attr (*jlibschema.SchemaValidator).Validate event
//vc:attr jlibschema.NewSchemaValidator inline
//vc:attr jlib.MessageMap event
//vc:attr (*jlibhttp.Actor).Feed event extpanic

//vc:requires jlib.MessageMap
func reqMessageMap(m jlib.Message) bool { return jlib.VcWfMessage(m) }

//vc:ensures jlib.MessageMap name=a-map-or-an-error props=C13,C14
func ensMessageMap(m jlib.Message, r map[string]interface{}, err error) bool {
	var e *jlib.RPCError
	var w *WrappedResponse
	var s *SimpleResponse
	return (r != nil) == (err == nil) && !errors.As(err, &e) && !errors.As(err, &w) && !errors.As(err, &s)
}

//vc:requires (*jlibhttp.Actor).Feed
func reqFeed(a *Actor, req *RPCRequest) bool { return wfActor(a) && wfReq(req) }

func isCall(m jlib.Message) bool { return m.IsRequestOrNotify() }

// who is called at most: the number of calls of each kind
func called(cb, feed, missing int) bool {
	return vc.Count(evCb) == cb && vc.Count(evFeed) == feed && vc.Count(evMissing) == missing
}

func calledMissing(a *Actor, req *RPCRequest) bool {
	return called(0, 0, 1) && vc.Same(vc.Arg[MissingCallback](evMissing, 0, 0), a.missingHandler) && vc.Arg[*RPCRequest](evMissing, 0, 1) == req
}

func sameParams(a, b []interface{}) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func calledOwn(h *MethodHandler, req *RPCRequest) bool {
	return called(1, 0, 0) && vc.Same(vc.Arg[RequestCallback](evCb, 0, 0), h.callback) && vc.Arg[*RPCRequest](evCb, 0, 1) == req &&
		sameParams(vc.Arg[[]interface{}](evCb, 0, 2), req.msg.MustParams())
}

// handed: the message went to the first child that has the method
func handed(a *Actor, req *RPCRequest, m string) bool {
	return called(0, 1, 0) && vc.Arg[*RPCRequest](evFeed, 0, 1) == req &&
		vc.Exists(0, len(a.children), func(i int) bool {
			return a.children[i] == vc.Arg[*Actor](evFeed, 0, 0) && hasMethod(a.children[i], m) &&
				vc.Forall(0, i, func(j int) bool { return !hasMethod(a.children[j], m) })
		})
}

// checked: the message was found to conform to the handler's schema, where there is one to check
func checked(a *Actor, h *MethodHandler, req *RPCRequest) bool {
	if h.schema == nil || !a.ValidateSchema {
		return true
	}
	if vc.Count(evMap) != 1 || vc.Count(evValidate) != 1 || vc.Ret[error](evMap, 0, 1) != nil {
		return false
	}
	v, ok := vc.Arg[interface{}](evValidate, 0, 2).(map[string]interface{})
	return vc.Same(vc.Arg[jlib.Message](evMap, 0, 0), req.msg) && ok && vc.Same(v, vc.Ret[map[string]interface{}](evMap, 0, 0)) &&
		vc.Same(vc.Arg[jlibschema.Schema](evValidate, 0, 1), h.schema) && vc.Ret[*jlibschema.ErrorPos](evValidate, 0, 0) == nil
}

func refused() bool {
	return vc.Count(evValidate) == 1 && vc.Ret[*jlibschema.ErrorPos](evValidate, 0, 0) != nil
}

// routed: the right handler, and no other, was called
func routed(a *Actor, req *RPCRequest) bool {
	if !isCall(req.msg) {
		if a.missingHandler != nil {
			return calledMissing(a, req)
		}
		return called(0, 0, 0)
	}
	m := req.msg.MustMethod()
	if h, own := a.methodHandlers[m]; own {
		if vc.Count(evCb) == 0 {
			return called(0, 0, 0) && h.schema != nil && a.ValidateSchema
		}
		return calledOwn(h, req) && checked(a, h, req)
	}
	if vc.Exists(0, len(a.children), func(i int) bool { return hasMethod(a.children[i], m) }) {
		return handed(a, req, m)
	}
	if a.missingHandler != nil {
		return calledMissing(a, req)
	}
	return called(0, 0, 0)
}

//vc:ensures (*jlibhttp.Actor).Feed name=right-handler-once local props=C13
func ensFeedRoute(a *Actor, req *RPCRequest, res jlib.Message, err error) bool { return routed(a, req) }

//vc:onpanic (*jlibhttp.Actor).Feed name=right-handler-once-panicking local props=C13
func panicFeedRoute(a *Actor, req *RPCRequest, pv interface{}) bool { return routed(a, req) }

func errorCode(m jlib.Message, req jlib.Message, code int) bool {
	e, ok := m.(*jlib.ErrorMessage)
	return ok && e.Error != nil && e.Error.Code == code && e.Id == req.MustId() && e.TraceId() == req.TraceId()
}

//vc:ensures (*jlibhttp.Actor).Feed name=unserved-and-refused-messages local props=C13
func ensFeedUnserved(a *Actor, req *RPCRequest, res jlib.Message, err error) bool {
	if vc.Count(evCb+"|"+evFeed+"|"+evMissing) != 0 {
		return true
	}
	if !isCall(req.msg) {
		return res == nil && err == nil
	}
	if vc.Has(a.methodHandlers, req.msg.MustMethod()) {
		// the handler was not called: the message was found not to conform, or could not be looked at
		if !refused() {
			return vc.Count(evMap) == 1 && vc.Ret[error](evMap, 0, 1) != nil && res == nil && err != nil
		}
		if req.msg.IsRequest() {
			return err == nil && errorCode(res, req.msg, jlib.ErrInvalidSchema.Code)
		}
		return err != nil && res == nil
	}
	if req.msg.IsRequest() {
		return err == nil && errorCode(res, req.msg, jlib.ErrMethodNotFound.Code)
	}
	return res == nil && err == nil
}

//vc:invariant (*jlibhttp.Actor).Feed
func invFeed(k int, a *Actor, req *RPCRequest) bool {
	m := req.msg.MustMethod()
	return vc.Forall(0, k, func(i int) bool { return !hasMethod(a.children[i], m) }) &&
		vc.Imp(k < len(a.children), mention(a.children[k], m))
}

//vc:ensures (*jlibhttp.Actor).Feed name=answers-are-messages props=C13,C14
func ensFeedWf(a *Actor, req *RPCRequest, res jlib.Message, err error) bool {
	return vc.Imp(res != nil, jlib.VcWfMessage(res) && err == nil && req.msg.IsRequest()) && goodError(err)
}

// ---- the registry

//vc:requires (jlibhttp.Actor).Has
func reqHas(a Actor, m string) bool { return wfValue(a) }

func wfValue(a Actor) bool {
	return a.methodHandlers != nil && wfHandlers(a.methodHandlers) &&
		vc.Forall(0, len(a.children), func(i int) bool { return wfActor(a.children[i]) })
}

//vc:ensures (jlibhttp.Actor).Has name=iff-registered-somewhere props=C13,C15
func ensHas(a Actor, m string, r bool) bool {
	return r == (vc.Has(a.methodHandlers, m) || vc.Exists(0, len(a.children), func(i int) bool { return hasMethod(a.children[i], m) }))
}

//vc:invariant (jlibhttp.Actor).Has
func invHas(k int, a Actor, m string) bool {
	return vc.Forall(0, k, func(i int) bool { return !hasMethod(a.children[i], m) }) &&
		vc.Imp(k < len(a.children), mention(a.children[k], m))
}

var _ http.Handler

// ---- what becomes of a handler's outcome

func sameError(m jlib.Message, e *jlib.RPCError, req jlib.Message) bool {
	r, ok := m.(*jlib.ErrorMessage)
	return ok && r.Error != nil && r.Error.Code == e.Code && r.Error.Message == e.Message && vc.Same(r.Error.Data, e.Data) &&
		vc.Same(r.Id, req.MustId()) && r.TraceId() == req.TraceId()
}

// hidden: the internal error, without a trace of its cause
func hidden(m jlib.Message, req jlib.Message) bool {
	r, ok := m.(*jlib.ErrorMessage)
	return ok && r.Error != nil && r.Error.Code == jlib.ErrInternalError.Code && r.Error.Message == jlib.ErrInternalError.Message && vc.Same(r.Error.Data, jlib.ErrInternalError.Data) &&
		vc.Same(r.Id, req.MustId()) && r.TraceId() == req.TraceId()
}

func becomes(req jlib.Message, v interface{}, e error, res jlib.Message, err error) bool {
	if !req.IsRequest() {
		return res == nil && vc.Same(err, e)
	}
	if e != nil {
		var re *jlib.RPCError
		var we, we1 *WrappedResponse
		if errors.As(e, &re) {
			return err == nil && sameError(res, re, req)
		}
		if errors.As(e, &we) {
			return res == nil && errors.As(err, &we1) && we1 == we
		}
		return err == nil && hidden(res, req)
	}
	if m, ok := v.(jlib.Message); ok {
		return err == nil && vc.Same(res, m)
	}
	r, ok := res.(*jlib.ResultMessage)
	return err == nil && ok && vc.Same(r.Result, v) && vc.Same(r.Id, req.MustId()) && r.TraceId() == req.TraceId()
}

// recovered: the outcome of a handler that panicked with pv
func recovered(a *Actor, req jlib.Message, pv interface{}, res jlib.Message, err error) bool {
	e, ok := pv.(error)
	return ok && a.RecoverFromPanic && becomes(req, nil, e, res, err)
}

//vc:ensures (*jlibhttp.Actor).Feed name=outcome-becomes-response local props=C14
func ensFeedOutcome(a *Actor, req *RPCRequest, res jlib.Message, err error) bool {
	if vc.Count(evCb) > 0 {
		if pv := vc.PanicOf(evCb, 0); pv != nil {
			return recovered(a, req.msg, pv, res, err)
		}
		return becomes(req.msg, vc.Ret[interface{}](evCb, 0, 0), vc.Ret[error](evCb, 0, 1), res, err)
	}
	if vc.Count(evMissing) > 0 {
		if pv := vc.PanicOf(evMissing, 0); pv != nil {
			return recovered(a, req.msg, pv, res, err)
		}
		return becomes(req.msg, vc.Ret[interface{}](evMissing, 0, 0), vc.Ret[error](evMissing, 0, 1), res, err)
	}
	if vc.Count(evFeed) > 0 {
		return vc.PanicOf(evFeed, 0) == nil && vc.Same(res, vc.Ret[jlib.Message](evFeed, 0, 0)) && vc.Same(err, vc.Ret[error](evFeed, 0, 1))
	}
	return true
}

// propagates: a panic that is not turned into an error leaves as it is
func propagates(a *Actor, ev string, pv interface{}) bool {
	p := vc.PanicOf(ev, 0)
	if p == nil || !vc.Same(p, pv) {
		return false
	}
	_, ok := p.(error)
	return !ok || !a.RecoverFromPanic
}

//vc:onpanic (*jlibhttp.Actor).Feed name=other-panics-propagate local props=C14
func panicFeed(a *Actor, req *RPCRequest, pv interface{}) bool {
	if vc.Count(evCb) > 0 {
		return propagates(a, evCb, pv)
	}
	if vc.Count(evMissing) > 0 {
		return propagates(a, evMissing, pv)
	}
	return vc.Count(evFeed) > 0 && vc.Same(vc.PanicOf(evFeed, 0), pv)
}

// ---- registration

//vc:modifies dyn:jlibhttp.HandlerSetter
func modSetter(h *MethodHandler) { vc.Mod(h) }

//vc:ensures dyn:jlibhttp.HandlerSetter
func assumeSetter(h *MethodHandler) bool {
	cb := vc.Old(func() RequestCallback { return h.callback })
	return vc.Same(h.callback, cb) && (h.schema == nil || jlibschema.VcWf(h.schema))
}

const evSetter = "dyn:jlibhttp.HandlerSetter"

//vc:attr (*jlibhttp.Actor).OnRequest inline

//vc:requires (*jlibhttp.Actor).OnRequest
func reqOnRequest(a *Actor, method string, cb RequestCallback, setters []HandlerSetter) bool {
	return a != nil && a.methodHandlers != nil && wfHandlers(a.methodHandlers) && cb != nil &&
		vc.Forall(0, len(setters), func(i int) bool { return setters[i] != nil })
}

//vc:modifies (*jlibhttp.Actor).OnRequest
func modOnRequest(a *Actor, method string, cb RequestCallback, setters []HandlerSetter) {
	vc.ModMap(a.methodHandlers)
}

// keysBut: the registered methods other than m are as they were
func keysBut(a *Actor, m string, k string) bool {
	was := vc.Old(func() bool { return vc.Has(a.methodHandlers, k) })
	h := vc.Old(func() *MethodHandler { return a.methodHandlers[k] })
	return k == m || vc.Has(a.methodHandlers, k) == was && vc.Imp(was, a.methodHandlers[k] == h)
}

func othersKept(a *Actor, m string) bool {
	return vc.ForallStr(func(k string) bool { return keysBut(a, m, k) })
}

//vc:ensures (*jlibhttp.Actor).OnRequest name=refused-iff-registered-before props=C15
func ensOnRequest(a *Actor, method string, cb RequestCallback, setters []HandlerSetter, err error) bool {
	was := vc.Old(func() bool { return vc.Has(a.methodHandlers, method) })
	h0 := vc.Old(func() *MethodHandler { return a.methodHandlers[method] })
	h, is := a.methodHandlers[method]
	if was {
		return err != nil && is && h == h0
	}
	return err == nil && is && h != nil && vc.Fresh(h) && vc.Same(h.callback, cb) && vc.Imp(len(setters) == 0, h.schema == nil)
}

//vc:ensures (*jlibhttp.Actor).OnRequest name=other-methods-untouched props=C15
func ensOnRequestOthers(a *Actor, method string, cb RequestCallback, setters []HandlerSetter, err error) bool {
	return othersKept(a, method)
}

//vc:ensures (*jlibhttp.Actor).OnRequest name=handlers-stay-well-formed props=C15,C13
func ensOnRequestWf(a *Actor, method string, cb RequestCallback, setters []HandlerSetter, err error) bool {
	return wfHandlers(a.methodHandlers)
}

//vc:requires (*jlibhttp.Actor).Off
func reqOff(a *Actor, method string) bool { return a != nil }

//vc:modifies (*jlibhttp.Actor).Off
func modOff(a *Actor, method string) { vc.ModMap(a.methodHandlers) }

//vc:ensures (*jlibhttp.Actor).Off name=exactly-that-method props=C15
func ensOff(a *Actor, method string) bool {
	return !vc.Has(a.methodHandlers, method) && othersKept(a, method)
}

//vc:requires (*jlibhttp.Actor).OnMissing
func reqOnMissing(a *Actor, h MissingCallback) bool { return a != nil }

//vc:modifies (*jlibhttp.Actor).OnMissing
func modOnMissing(a *Actor, h MissingCallback) { vc.Mod(a) }

func elseKept(a *Actor) bool {
	was := vc.Old(func() Actor { return *a })
	return a.ValidateSchema == was.ValidateSchema && a.RecoverFromPanic == was.RecoverFromPanic &&
		vc.Same(a.methodHandlers, was.methodHandlers) && vc.Same(a.children, was.children)
}

//vc:ensures (*jlibhttp.Actor).OnMissing name=the-first-stays props=C15
func ensOnMissing(a *Actor, h MissingCallback, err error) bool {
	was := vc.Old(func() Actor { return *a })
	if was.missingHandler != nil {
		return err != nil && vc.Same(a.missingHandler, was.missingHandler) && vc.Same(a.closeHandler, was.closeHandler) && elseKept(a)
	}
	return err == nil && vc.Same(a.missingHandler, h) && vc.Same(a.closeHandler, was.closeHandler) && elseKept(a)
}

//vc:requires (*jlibhttp.Actor).OnClose
func reqOnClose(a *Actor, h CloseCallback) bool { return a != nil }

//vc:modifies (*jlibhttp.Actor).OnClose
func modOnClose(a *Actor, h CloseCallback) { vc.Mod(a) }

//vc:ensures (*jlibhttp.Actor).OnClose name=the-first-stays props=C15
func ensOnClose(a *Actor, h CloseCallback, err error) bool {
	was := vc.Old(func() Actor { return *a })
	if was.closeHandler != nil {
		return err != nil && vc.Same(a.closeHandler, was.closeHandler) && vc.Same(a.missingHandler, was.missingHandler) && elseKept(a)
	}
	return err == nil && vc.Same(a.closeHandler, h) && vc.Same(a.missingHandler, was.missingHandler) && elseKept(a)
}

//vc:invariant (*jlibhttp.Actor).OnRequest
func invOnRequest(k int, a *Actor, method string, cb RequestCallback, setters []HandlerSetter, h *MethodHandler) bool {
	return (h.schema == nil || jlibschema.VcWf(h.schema)) && vc.Imp(k == 0, h.schema == nil)
}

// the callbacks registered by the convenience methods do what they are for

const evMsgCb = "dyn:jlibhttp.MsgCallback"
const evCtxCb = "dyn:jlibhttp.ContextedMsgCallback"

//vc:lemma on-registers props=C15
func lemOn(a *Actor, method string, cb MsgCallback, s jlibschema.Schema, req *RPCRequest, params []interface{}) {
	vc.Assume(a != nil && a.methodHandlers != nil && wfHandlers(a.methodHandlers) && cb != nil && req != nil)
	vc.Assume(!vc.Has(a.methodHandlers, method))
	a.On(method, cb, WithSchema(s))
	h, ok := a.methodHandlers[method]
	vc.Assert("registered", ok && h != nil)
	vc.Assert("with-its-schema", vc.Same(h.schema, s))
	res, err := h.callback(req, params)
	vc.Assert("calls-it-with-the-params", vc.Count("dyn:*") == 1 && vc.Same(vc.Arg[MsgCallback](evMsgCb, 0, 0), cb) && vc.Same(vc.Arg[[]interface{}](evMsgCb, 0, 1), params))
	vc.Assert("passes-its-outcome-on", vc.Same(res, vc.Ret[interface{}](evMsgCb, 0, 0)) && vc.Same(err, vc.Ret[error](evMsgCb, 0, 1)))
}

//vc:lemma oncontext-registers props=C15
func lemOnContext(a *Actor, method string, cb ContextedMsgCallback, s jlibschema.Schema, req *RPCRequest, params []interface{}) {
	vc.Assume(a != nil && a.methodHandlers != nil && wfHandlers(a.methodHandlers) && cb != nil && req != nil)
	vc.Assume(!vc.Has(a.methodHandlers, method))
	a.OnContext(method, cb, WithSchema(s))
	h, ok := a.methodHandlers[method]
	vc.Assert("registered", ok && h != nil)
	vc.Assert("with-its-schema", vc.Same(h.schema, s))
	res, err := h.callback(req, params)
	vc.Assert("calls-it-with-the-params", vc.Count("dyn:*") == 1 && vc.Same(vc.Arg[ContextedMsgCallback](evCtxCb, 0, 0), cb) &&
		vc.Same(vc.Arg[context.Context](evCtxCb, 0, 1), req.context) && vc.Same(vc.Arg[[]interface{}](evCtxCb, 0, 2), params))
	vc.Assert("passes-its-outcome-on", vc.Same(res, vc.Ret[interface{}](evCtxCb, 0, 0)) && vc.Same(err, vc.Ret[error](evCtxCb, 0, 1)))
}

//vc:lemma onrequest-with-schema props=C15
func lemOnRequest(a *Actor, method string, cb RequestCallback, s jlibschema.Schema) {
	vc.Assume(a != nil && a.methodHandlers != nil && wfHandlers(a.methodHandlers) && cb != nil)
	had := vc.Has(a.methodHandlers, method)
	h0 := a.methodHandlers[method]
	err := a.OnRequest(method, cb, WithSchema(s))
	h, ok := a.methodHandlers[method]
	vc.Assert("registered", ok && had == (err != nil) && vc.Imp(had, h == h0))
	vc.Assert("with-its-schema", had || vc.Same(h.schema, s) && vc.Same(h.callback, cb))
}

// ---- what is registered

//vc:requires (jlibhttp.Actor).MethodList
func reqMethodList(a Actor) bool { return wfValue(a) }

func inList(l []string, m string) bool {
	return vc.Exists(0, len(l), func(i int) bool { return l[i] == m })
}

func ownsOrChild(a Actor, m string) bool {
	return vc.Has(a.methodHandlers, m) || vc.Exists(0, len(a.children), func(i int) bool { return hasMethod(a.children[i], m) })
}

//vc:ensures (jlibhttp.Actor).MethodList name=only-what-it-has props=C15
func ensMethodList1(a Actor, r []string) bool {
	return vc.Forall(0, len(r), func(i int) bool { return ownsOrChild(a, r[i]) })
}

//vc:ensures (jlibhttp.Actor).MethodList name=all-its-own props=C15
func ensMethodList2(a Actor, r []string) bool {
	return vc.ForallStr(func(m string) bool { return vc.Imp(vc.Has(a.methodHandlers, m), inList(r, m)) })
}

//vc:ensures (jlibhttp.Actor).MethodList name=all-its-descendants props=C15
func ensMethodList4(a Actor, r []string) bool {
	return vc.ForallStr(func(m string) bool {
		return vc.Forall(0, len(a.children), func(i int) bool { return vc.Imp(hasMethod(a.children[i], m), inList(r, m)) })
	})
}

//vc:invariant (jlibhttp.Actor).MethodList
func invMethodListBelow(k int, a Actor, l []string) bool {
	return vc.ForallStr(func(m string) bool {
		return vc.Forall(0, k, func(i int) bool { return vc.Imp(hasMethod(a.children[i], m), inList(l, m)) })
	})
}

//vc:ensures (jlibhttp.Actor).MethodList name=asks-its-children local props=C15
func ensMethodList3(a Actor, r []string) bool {
	return len(a.children) == 0 || vc.Loops(evMethodList) == 1
}

//vc:invariant (jlibhttp.Actor).MethodList
func invMethodListWf(k int, a Actor) bool {
	return vc.Imp(k < len(a.children), mention(a.children[k], "") && vc.ForallStr(func(m string) bool { return mention(a.children[k], m) }))
}

//vc:invariant (jlibhttp.Actor).MethodList
func invMethodListSeen(k int, a Actor, l []string) bool {
	return vc.ForallStr(func(m string) bool { return vc.Imp(vc.Seen(m), inList(l, m)) })
}

//vc:invariant (jlibhttp.Actor).MethodList
func invMethodListOnly(k int, a Actor, l []string) bool {
	return vc.Forall(0, len(l), func(i int) bool { return ownsOrChild(a, l[i]) })
}

//vc:invariant (jlibhttp.Actor).MethodList
func invMethodListOwnAll(k int, a Actor, l []string) bool {
	return vc.ForallStr(func(m string) bool { return vc.Imp(vc.Has(a.methodHandlers, m), inList(l, m)) })
}

const evMethodList = "(jlibhttp.Actor).MethodList"

//vc:attr (jlibhttp.Actor).MethodList event

//vc:iter (jlibhttp.Actor).MethodList name=asks-each-child-once inlined props=C15
func iterMethodList(a Actor, back bool, k int) bool {
	if vc.Count("*") == 0 {
		return true
	}
	c := vc.Arg[Actor](evMethodList, 0, 0)
	return back && vc.Count("*") == 1 && vc.Same(a.children[k].methodHandlers, c.methodHandlers) && vc.Same(a.children[k].children, c.children)
}

//vc:attr (jlibhttp.Actor).GetSchema event

//vc:requires (jlibhttp.Actor).GetSchema
func reqGetSchema(a Actor, m string) bool { return wfValue(a) }

const evGetSchema = "(jlibhttp.Actor).GetSchema"

//vc:ensures (jlibhttp.Actor).GetSchema name=that-of-the-serving-handler local props=C15
func ensGetSchema(a Actor, m string, s jlibschema.Schema, ok bool) bool {
	if h, own := a.methodHandlers[m]; own {
		return vc.Count(evGetSchema) == 0 && vc.Same(s, h.schema) && ok == (h.schema != nil)
	}
	if !ownsOrChild(a, m) {
		return vc.Count(evGetSchema) == 0 && !ok && s == nil
	}
	c := vc.Arg[Actor](evGetSchema, 0, 0)
	return vc.Count(evGetSchema) == 1 && vc.Arg[string](evGetSchema, 0, 1) == m &&
		vc.Same(s, vc.Ret[jlibschema.Schema](evGetSchema, 0, 0)) && ok == vc.Ret[bool](evGetSchema, 0, 1) &&
		vc.Exists(0, len(a.children), func(i int) bool {
			return hasMethod(a.children[i], m) && vc.Forall(0, i, func(j int) bool { return !hasMethod(a.children[j], m) }) &&
				vc.Same(a.children[i].methodHandlers, c.methodHandlers) && vc.Same(a.children[i].children, c.children)
		})
}

//vc:invariant (jlibhttp.Actor).GetSchema
func invGetSchema(k int, a Actor, m string) bool {
	return vc.Forall(0, k, func(i int) bool { return !hasMethod(a.children[i], m) }) &&
		vc.Imp(k < len(a.children), mention(a.children[k], m))
}

// ---- closing

const evHC = "(*jlibhttp.Actor).HandleClose"
const evClose = "dyn:jlibhttp.CloseCallback"

//vc:attr (*jlibhttp.Actor).HandleClose event extpanic

//vc:requires (*jlibhttp.Actor).HandleClose
func reqHandleClose(a *Actor, r *http.Request, s RPCSession) bool { return wfActor(a) }

//vc:iter (*jlibhttp.Actor).HandleClose name=each-child-once inlined props=C15
func iterHandleClose(a *Actor, r *http.Request, s RPCSession, back bool, k int) bool {
	if !back {
		return vc.Count("*") == 0 && k == len(a.children)
	}
	return vc.Count("*") == 1 && vc.Count(evHC) == 1 && vc.Arg[*Actor](evHC, 0, 0) == a.children[k] &&
		vc.Arg[*http.Request](evHC, 0, 1) == r && vc.Same(vc.Arg[RPCSession](evHC, 0, 2), s)
}

//vc:ensures (*jlibhttp.Actor).HandleClose name=all-children-and-its-own-once local props=C15
func ensHandleClose(a *Actor, r *http.Request, s RPCSession) bool {
	if len(a.children) > 0 && vc.Loops(evHC) != 1 {
		return false
	}
	if a.closeHandler == nil {
		return vc.Count(evClose) == 0
	}
	return vc.Count(evClose) == 1 && vc.Same(vc.Arg[CloseCallback](evClose, 0, 0), a.closeHandler) &&
		vc.Arg[*http.Request](evClose, 0, 1) == r && vc.Same(vc.Arg[RPCSession](evClose, 0, 2), s)
}
