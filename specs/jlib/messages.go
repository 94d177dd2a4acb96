package jlib

import "github.com/superisaac/jlib/internal/vc"

// Messages exist in four kinds only, all of them built by this package.
//
//vc:attr iface:jlib.Message closed
func wfMessage(m Message) bool {
	switch t := m.(type) {
	case *RequestMessage:
		return t != nil && t.kind == MKRequest && t.Id != nil && t.Method != "" && wfParams(t.Params, t.paramsAreList)
	case *NotifyMessage:
		return t != nil && t.kind == MKNotify && t.Method != "" && wfParams(t.Params, t.paramsAreList)
	case *ResultMessage:
		return t != nil && t.kind == MKResult
	case *ErrorMessage:
		return t != nil && t.kind == MKError
	}
	return false
}

func wfParams(params []interface{}, isList bool) bool {
	return params != nil && (isList || len(params) == 1)
}

// kindIs: exactly the predicates of one kind hold
func kindIs(m Message, req, ntf, res, er bool) bool {
	return vc.And(m.IsRequest() == req, m.IsNotify() == ntf, m.IsResult() == res, m.IsError() == er,
		m.IsRequestOrNotify() == (req || ntf), m.IsResultOrError() == (res || er))
}

func sameParams(params []interface{}, isList bool, given interface{}) bool {
	if given == nil {
		return isList && len(params) == 0 && params != nil
	}
	if arr, ok := given.([]interface{}); ok {
		return isList && params != nil && len(params) == len(arr) &&
			vc.Forall(0, len(arr), func(i int) bool { return params[i] == arr[i] })
	}
	return !isList && len(params) == 1 && params[0] == given
}

// ---- constructors

//vc:panics jlib.NewRequestMessage name=refuses-nil-id-or-empty-method props=C03
func panicsNewRequest(id interface{}, method string, params interface{}) bool {
	return id == nil || method == ""
}

//vc:ensures jlib.NewRequestMessage fresh=0 name=kind props=C03
func ensNewRequestKind(id interface{}, method string, params interface{}, r *RequestMessage) bool {
	return kindIs(r, true, false, false, false)
}

//vc:ensures jlib.NewRequestMessage name=fields props=C03
func ensNewRequest(id interface{}, method string, params interface{}, r *RequestMessage) bool {
	return r.Id == id && r.Method == method && r.MustId() == id && r.MustMethod() == method && r.TraceId() == "" &&
		sameParams(r.Params, r.paramsAreList, params) && wfMessage(r)
}

//vc:panics jlib.NewNotifyMessage name=refuses-empty-method props=C03
func panicsNewNotify(method string, params interface{}) bool { return method == "" }

//vc:ensures jlib.NewNotifyMessage fresh=0 name=kind props=C03
func ensNewNotifyKind(method string, params interface{}, r *NotifyMessage) bool {
	return kindIs(r, false, true, false, false)
}

//vc:ensures jlib.NewNotifyMessage name=fields props=C03
func ensNewNotify(method string, params interface{}, r *NotifyMessage) bool {
	return r.Method == method && r.MustMethod() == method && r.TraceId() == "" &&
		sameParams(r.Params, r.paramsAreList, params) && wfMessage(r)
}

//vc:requires jlib.NewResultMessage
func reqNewResult(reqmsg Message, result interface{}) bool { return wfMessage(reqmsg) }

//vc:panics jlib.NewResultMessage name=refuses-notify props=C03,C04
func panicsNewResult(reqmsg Message, result interface{}) bool { return reqmsg.IsNotify() }

//vc:ensures jlib.NewResultMessage fresh=0 name=answers-request props=C03,C04
func ensNewResult(reqmsg Message, result interface{}, r *ResultMessage) bool {
	return kindIs(r, false, false, true, false) && r.Id == reqmsg.MustId() && r.TraceId() == reqmsg.TraceId() &&
		r.Result == result && wfMessage(r)
}

//vc:requires jlib.NewErrorMessage
func reqNewError(reqmsg Message, e *RPCError) bool { return wfMessage(reqmsg) }

//vc:panics jlib.NewErrorMessage name=refuses-notify props=C03,C04
func panicsNewError(reqmsg Message, e *RPCError) bool { return reqmsg.IsNotify() }

//vc:ensures jlib.NewErrorMessage fresh=0 name=answers-request props=C03,C04
func ensNewError(reqmsg Message, e *RPCError, r *ErrorMessage) bool {
	return kindIs(r, false, false, false, true) && r.Id == reqmsg.MustId() && r.TraceId() == reqmsg.TraceId() &&
		r.Error == e && wfMessage(r)
}

//vc:ensures jlib.NewErrorMessageFromId fresh=0 name=fields props=C03,C04
func ensNewErrorFromId(reqId interface{}, traceId string, e *RPCError, r *ErrorMessage) bool {
	return kindIs(r, false, false, false, true) && r.Id == reqId && r.TraceId() == traceId && r.Error == e && wfMessage(r)
}

//vc:requires jlib.RPCErrorMessage
func reqRPCError(reqmsg Message, code int, message string, data interface{}) bool {
	return wfMessage(reqmsg)
}

//vc:panics jlib.RPCErrorMessage name=refuses-notify props=C04
func panicsRPCError(reqmsg Message, code int, message string, data interface{}) bool {
	return reqmsg.IsNotify()
}

func errIs(e *RPCError, code int, message string, data interface{}) bool {
	return e != nil && e.Code == code && e.Message == message && e.Data == data
}

//vc:ensures jlib.RPCErrorMessage fresh=0 name=answers-request props=C04
func ensRPCError(reqmsg Message, code int, message string, data interface{}, r *ErrorMessage) bool {
	return r.IsError() && r.Id == reqmsg.MustId() && r.TraceId() == reqmsg.TraceId() &&
		errIs(r.Error, code, message, data) && wfMessage(r)
}

//vc:ensures jlib.RPCErrorMessageFromId fresh=0 name=fields props=C04
func ensRPCErrorFromId(reqId interface{}, traceId string, code int, message string, data interface{}, r *ErrorMessage) bool {
	return r.IsError() && r.Id == reqId && r.TraceId() == traceId && errIs(r.Error, code, message, data) && wfMessage(r)
}

//vc:requires (jlib.RPCError).ToMessage
func reqToMessage(self RPCError, reqmsg *RequestMessage) bool { return wfMessage(reqmsg) }

//vc:ensures (jlib.RPCError).ToMessage fresh=0 name=answers-request props=C04
func ensToMessage(self RPCError, reqmsg *RequestMessage, r *ErrorMessage) bool {
	return r.IsError() && r.Id == reqmsg.Id && r.TraceId() == reqmsg.TraceId() &&
		errIs(r.Error, self.Code, self.Message, self.Data) && wfMessage(r)
}

//vc:ensures (jlib.RPCError).ToMessageFromId fresh=0 name=fields props=C04
func ensToMessageFromId(self RPCError, reqId interface{}, traceId string, r *ErrorMessage) bool {
	return r.IsError() && r.Id == reqId && r.TraceId() == traceId &&
		errIs(r.Error, self.Code, self.Message, self.Data) && wfMessage(r)
}

//vc:ensures (*jlib.RPCError).WithData fresh=0 name=copy-with-data props=C04
func ensWithData(self *RPCError, data interface{}, r *RPCError) bool {
	return r != self && errIs(r, self.Code, self.Message, data)
}

// ---- derived requests, results and errors

//vc:requires (jlib.RequestMessage).Clone
func reqClone(self RequestMessage, newId interface{}) bool {
	return self.kind == MKRequest && self.Id != nil && self.Method != "" && wfParams(self.Params, self.paramsAreList)
}

//vc:panics (jlib.RequestMessage).Clone name=refuses-nil-id props=C04
func panicsClone(self RequestMessage, newId interface{}) bool { return newId == nil }

//vc:ensures (jlib.RequestMessage).Clone fresh=0 name=differs-only-in-id props=C04
func ensClone(self RequestMessage, newId interface{}, r *RequestMessage) bool {
	return r.Id == newId && sameRequest(self, *r) && wfMessage(r)
}

func sameRequest(a, b RequestMessage) bool {
	return b.kind == a.kind && b.Method == a.Method && b.TraceId() == a.TraceId() && b.paramsAreList == a.paramsAreList &&
		len(b.Params) == len(a.Params) &&
		vc.Forall(0, len(a.Params), func(i int) bool { return b.Params[i] == a.Params[i] })
}

//vc:requires jlib.Message.ReplaceId
func reqReplaceId(self Message, newId interface{}) bool { return wfMessage(self) }

//vc:panics jlib.Message.ReplaceId name=refuses-notify-or-nil-request-id props=C04
func panicsReplaceId(self Message, newId interface{}) bool {
	return self.IsNotify() || self.IsRequest() && newId == nil
}

//vc:ensures jlib.Message.ReplaceId name=differs-only-in-id props=C04
func ensReplaceId(self Message, newId interface{}, r Message) bool {
	switch t := self.(type) {
	case *RequestMessage:
		q, ok := r.(*RequestMessage)
		return ok && vc.Fresh(q) && q.Id == newId && sameRequest(*t, *q)
	case *ResultMessage:
		q, ok := r.(*ResultMessage)
		return ok && vc.Fresh(q) && q.Id == newId && q.kind == t.kind && q.TraceId() == t.TraceId() && q.Result == t.Result
	case *ErrorMessage:
		q, ok := r.(*ErrorMessage)
		return ok && vc.Fresh(q) && q.Id == newId && q.kind == t.kind && q.TraceId() == t.TraceId() && q.Error == t.Error
	}
	return false
}

// for the specifications of other packages

func VcWfMessage(m Message) bool { return wfMessage(m) }

func VcSameRequest(a, b RequestMessage) bool { return sameRequest(a, b) }
