package jlib

import "github.com/superisaac/jlib/internal/vc"

// Contracts of the message interface; each is verified for all four kinds.

func sameSlice(a, b []interface{}) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) && vc.Base(a) == vc.Base(b) &&
		vc.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func wrongType(pv interface{}) bool {
	e, ok := pv.(*RPCError)
	return ok && e != nil && e.Code == 105
}

func dynIsRequestMessage(m Message) bool { _, ok := m.(*RequestMessage); return ok }

func dynIsNotifyMessage(m Message) bool { _, ok := m.(*NotifyMessage); return ok }

func dynIsResultMessage(m Message) bool { _, ok := m.(*ResultMessage); return ok }

func dynIsErrorMessage(m Message) bool { _, ok := m.(*ErrorMessage); return ok }

//vc:requires jlib.Message.MustId
func reqMustId(self Message) bool { return wfMessage(self) }

//vc:panics jlib.Message.MustId name=only-on-kinds-without-it props=C03
func panicsMustId(self Message) bool {
	return !(dynIsRequestMessage(self) || dynIsResultMessage(self) || dynIsErrorMessage(self))
}

//vc:onpanic jlib.Message.MustId name=wrong-message-type props=C03 own
func onpanicMustId(self Message, pv interface{}) bool { return wrongType(pv) }

//vc:ensures jlib.Message.MustId name=the-field props=C03
func ensMustId(self Message, r interface{}) bool {
	switch t := self.(type) {
	case *RequestMessage:
		return r == t.Id
	case *ResultMessage:
		return r == t.Id
	case *ErrorMessage:
		return r == t.Id
	}
	return false
}

//vc:requires jlib.Message.MustMethod
func reqMustMethod(self Message) bool { return wfMessage(self) }

//vc:panics jlib.Message.MustMethod name=only-on-kinds-without-it props=C03
func panicsMustMethod(self Message) bool {
	return !(dynIsRequestMessage(self) || dynIsNotifyMessage(self))
}

//vc:onpanic jlib.Message.MustMethod name=wrong-message-type props=C03 own
func onpanicMustMethod(self Message, pv interface{}) bool { return wrongType(pv) }

//vc:ensures jlib.Message.MustMethod name=the-field props=C03
func ensMustMethod(self Message, r string) bool {
	switch t := self.(type) {
	case *RequestMessage:
		return r == t.Method
	case *NotifyMessage:
		return r == t.Method
	}
	return false
}

//vc:requires jlib.Message.MustParams
func reqMustParams(self Message) bool { return wfMessage(self) }

//vc:panics jlib.Message.MustParams name=only-on-kinds-without-it props=C03
func panicsMustParams(self Message) bool {
	return !(dynIsRequestMessage(self) || dynIsNotifyMessage(self))
}

//vc:onpanic jlib.Message.MustParams name=wrong-message-type props=C03 own
func onpanicMustParams(self Message, pv interface{}) bool { return wrongType(pv) }

//vc:ensures jlib.Message.MustParams name=the-field props=C03
func ensMustParams(self Message, r []interface{}) bool {
	switch t := self.(type) {
	case *RequestMessage:
		return sameSlice(r, t.Params)
	case *NotifyMessage:
		return sameSlice(r, t.Params)
	}
	return false
}

//vc:requires jlib.Message.MustResult
func reqMustResult(self Message) bool { return wfMessage(self) }

//vc:panics jlib.Message.MustResult name=only-on-kinds-without-it props=C03
func panicsMustResult(self Message) bool { return !(dynIsResultMessage(self)) }

//vc:onpanic jlib.Message.MustResult name=wrong-message-type props=C03 own
func onpanicMustResult(self Message, pv interface{}) bool { return wrongType(pv) }

//vc:ensures jlib.Message.MustResult name=the-field props=C03
func ensMustResult(self Message, r interface{}) bool {
	switch t := self.(type) {
	case *ResultMessage:
		return r == t.Result
	}
	return false
}

//vc:requires jlib.Message.MustError
func reqMustError(self Message) bool { return wfMessage(self) }

//vc:panics jlib.Message.MustError name=only-on-kinds-without-it props=C03
func panicsMustError(self Message) bool { return !(dynIsErrorMessage(self)) }

//vc:onpanic jlib.Message.MustError name=wrong-message-type props=C03 own
func onpanicMustError(self Message, pv interface{}) bool { return wrongType(pv) }

//vc:ensures jlib.Message.MustError name=the-field props=C03
func ensMustError(self Message, r *RPCError) bool {
	switch t := self.(type) {
	case *ErrorMessage:
		return r == t.Error
	}
	return false
}

//vc:requires jlib.Message.IsRequest
func reqIsRequest(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsRequest name=exactly-its-kind props=C03
func ensIsRequest(self Message, r bool) bool { return r == (dynIsRequestMessage(self)) }

//vc:requires jlib.Message.IsNotify
func reqIsNotify(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsNotify name=exactly-its-kind props=C03
func ensIsNotify(self Message, r bool) bool { return r == (dynIsNotifyMessage(self)) }

//vc:requires jlib.Message.IsResult
func reqIsResult(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsResult name=exactly-its-kind props=C03
func ensIsResult(self Message, r bool) bool { return r == (dynIsResultMessage(self)) }

//vc:requires jlib.Message.IsError
func reqIsError(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsError name=exactly-its-kind props=C03
func ensIsError(self Message, r bool) bool { return r == (dynIsErrorMessage(self)) }

//vc:requires jlib.Message.IsRequestOrNotify
func reqIsRequestOrNotify(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsRequestOrNotify name=exactly-its-kind props=C03
func ensIsRequestOrNotify(self Message, r bool) bool {
	return r == (dynIsRequestMessage(self) || dynIsNotifyMessage(self))
}

//vc:requires jlib.Message.IsResultOrError
func reqIsResultOrError(self Message) bool { return wfMessage(self) }

//vc:ensures jlib.Message.IsResultOrError name=exactly-its-kind props=C03
func ensIsResultOrError(self Message, r bool) bool {
	return r == (dynIsResultMessage(self) || dynIsErrorMessage(self))
}
