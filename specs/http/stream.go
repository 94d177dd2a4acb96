package jlibhttp

import (
	"context"
	"encoding/json"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- streaming clients

// The pending calls. Operations of a sync.Map are atomic; between two of them
// other goroutines may do anything to the map that keeps its invariant.

func pendingOk(v interface{}) bool {
	p, ok := v.(*pendingRequest)
	return ok && p != nil && p.reqmsg != nil && jlib.VcWfMessage(p.reqmsg) && p.resultChannel != nil && forAnswers(p.resultChannel)
}

const evTake = "pending.take"
const evPut = "pending.put"
const evDel = "pending.delete"

//vc:model (*sync.Map).LoadAndDelete
func mLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := vc.Any[interface{}](), vc.Any[bool]()
	vc.Assume(vc.Pure(func() bool { return vc.Imp(ok, pendingOk(v)) && vc.Imp(!ok, v == nil) }))
	vc.Event(evTake, m, k, v, ok)
	return v, ok
}

//vc:model (*sync.Map).Load
func mLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := vc.Any[interface{}](), vc.Any[bool]()
	vc.Assume(vc.Pure(func() bool { return vc.Imp(ok, pendingOk(v)) && vc.Imp(!ok, v == nil) }))
	return v, ok
}

//vc:model (*sync.Map).LoadOrStore
func mLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	vc.Assert("what-is-pending-can-be-answered", pendingOk(v))
	old, loaded := vc.Any[interface{}](), vc.Any[bool]()
	vc.Assume(vc.Pure(func() bool { return vc.Imp(loaded, pendingOk(old)) && vc.Imp(!loaded, vc.Same(old, v)) }))
	vc.Event(evPut, m, k, v, !loaded)
	return old, loaded
}

//vc:model (*sync.Map).Store
func mStore(m *sync.Map, k, v interface{}) {
	vc.Assert("what-is-pending-can-be-answered", pendingOk(v))
	// whatever was pending under the key is lost
	vc.Event("pending.overwrite", m, k, v)
}

//vc:model (*sync.Map).Swap
func mSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	vc.Assert("what-is-pending-can-be-answered", pendingOk(v))
	vc.Event("pending.overwrite", m, k, v)
	return vc.Any[interface{}](), vc.Any[bool]()
}

//vc:model (*sync.Map).Delete
func mDelete(m *sync.Map, k interface{}) { vc.Event(evDel, m, k) }

//vc:model (*sync.Map).CompareAndDelete
func mCompareAndDelete(m *sync.Map, k, v interface{}) bool {
	ok := vc.Any[bool]()
	vc.Event("pending.retire", m, k, v, ok)
	return ok
}

const evRetire = "pending.retire"
const evConnect = "(*jlibhttp.StreamingClient).Connect"
const evSSend = "(*jlibhttp.StreamingClient).Send"
const evSReq = "(*jlibhttp.StreamingClient).request"
const evSCall = "(*jlibhttp.StreamingClient).Call"
const evExpire = "(*jlibhttp.StreamingClient).expire"
const evHandle = "(*jlibhttp.StreamingClient).handleResult"
const evOnMsg = "dyn:jlibhttp.MessageHandler"
const evAfter = "call:time.After"
const evTRead = "iface:jlibhttp.Transport.ReadMessage"
const evTWrite = "iface:jlibhttp.Transport.WriteMessage"

//vc:attr (*jlibhttp.StreamingClient).Connect event noframe extpanic noanswers
//vc:attr (*jlibhttp.StreamingClient).Send event noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).request event noframe extpanic answers
//vc:attr (*jlibhttp.StreamingClient).Call event noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).UnwrapCall noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).expire event noframe
//vc:attr (*jlibhttp.StreamingClient).handleResult event noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).recvLoop noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).sendLoop noframe extpanic
//vc:attr (*jlibhttp.StreamingClient).handleError eventin=(*jlibhttp.StreamingClient).recvLoop,(*jlibhttp.StreamingClient).sendLoop
//vc:attr (*jlibhttp.StreamingClient).Close eventin=(*jlibhttp.StreamingClient).sendLoop
//vc:attr jlib.NewUuid eventin=(*jlibhttp.StreamingClient).request

// transports deliver messages the library decoded
//
//vc:ensures iface:jlibhttp.Transport.ReadMessage
func assumeRead(t Transport, m jlib.Message, readed bool, err error) bool {
	return vc.Imp(err == nil && readed, jlib.VcWfMessage(m))
}

func wfStream(c *StreamingClient) bool {
	return c != nil && c.transport != nil && c.serverUrl != nil && !forAnswers(c.sendChannel)
}

// the id of a call is a string or an int (what a response can carry)
func wfCallId(m *jlib.RequestMessage) bool {
	switch m.Id.(type) {
	case string, int:
		return true
	}
	return false
}

func wfStreamCall(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage) bool {
	return wfStream(c) && ctx != nil && m != nil && jlib.VcWfMessage(m) && wfCallId(m)
}

//vc:requires (*jlibhttp.StreamingClient).Connect
func reqSConnect(c *StreamingClient, ctx context.Context) bool { return wfStream(c) && ctx != nil }

//vc:modifies (*jlibhttp.StreamingClient).Connect
func modSConnect(c *StreamingClient, ctx context.Context) { vc.Mod(c) }

//vc:ensures (*jlibhttp.StreamingClient).Connect name=stays-usable props=C21
func ensSConnectWf(c *StreamingClient, ctx context.Context, err error) bool { return wfStream(c) }

//vc:ensures (*jlibhttp.StreamingClient).Connect name=loops-run-once-connected local props=C21
func ensSConnect(c *StreamingClient, ctx context.Context, err error) bool {
	const send, recv = "go:(*jlibhttp.StreamingClient).sendLoop", "go:(*jlibhttp.StreamingClient).recvLoop"
	const evT = "iface:jlibhttp.Transport.Connect"
	if vc.Ret[bool]("iface:jlibhttp.Transport.Connected", 0, 0) {
		return err == nil && vc.Count(evT) == 0 && vc.Count(send) == 0 && vc.Count(recv) == 0
	}
	if vc.Count(evT) != 1 {
		return false
	}
	if e := vc.Ret[error](evT, 0, 0); e != nil {
		return vc.Same(err, e) && vc.Count(send) == 0 && vc.Count(recv) == 0
	}
	return err == nil && vc.Count(send) == 1 && vc.Count(recv) == 1 && vc.Arg[*StreamingClient](send, 0, 0) == c && vc.Arg[*StreamingClient](recv, 0, 0) == c &&
		c.sendChannel != nil
}

//vc:requires (*jlibhttp.StreamingClient).Send
func reqSSend(c *StreamingClient, ctx context.Context, m jlib.Message) bool {
	return wfStream(c) && ctx != nil && m != nil && jlib.VcWfMessage(m)
}

//vc:modifies (*jlibhttp.StreamingClient).Send
func modSSend(c *StreamingClient, ctx context.Context, m jlib.Message) { vc.Mod(c) }

//vc:ensures (*jlibhttp.StreamingClient).Send name=stays-usable props=C21
func ensSSendWf(c *StreamingClient, ctx context.Context, m jlib.Message, err error) bool { return wfStream(c) }

//vc:ensures (*jlibhttp.StreamingClient).Send name=queued-once local props=C21
func ensSSend(c *StreamingClient, ctx context.Context, m jlib.Message, err error) bool {
	if vc.Count(evConnect) != 1 || vc.Arg[*StreamingClient](evConnect, 0, 0) != c {
		return false
	}
	if e := vc.Ret[error](evConnect, 0, 0); e != nil {
		return err != nil && vc.Count(evSend) == 0
	}
	return err == nil && vc.Count(evSend) == 1 && vc.Same(vc.Arg[chan jlib.Message](evSend, 0, 0), c.sendChannel) && vc.Same(vc.Arg[jlib.Message](evSend, 0, 1), m)
}

// ---- calls

//vc:requires (*jlibhttp.StreamingClient).request
func reqSRequest(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage) bool {
	return wfStreamCall(c, ctx, m)
}

//vc:modifies (*jlibhttp.StreamingClient).request
func modSRequest(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage) { vc.Mod(c) }

//vc:ensures (*jlibhttp.StreamingClient).request name=an-answer-or-an-error props=C21
func ensSRequestKind(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	return vc.Imp(err == nil, res != nil && jlib.VcWfMessage(res) && res.IsResultOrError()) && vc.Imp(err != nil, res == nil)
}

// own: what is registered is this call
func own(m *jlib.RequestMessage, v interface{}) bool {
	p, ok := v.(*pendingRequest)
	return ok && p.reqmsg == m && vc.Fresh(p) && vc.Fresh(p.resultChannel)
}

// underOwnKey: the call waits under its id or, where another call does, under
// a new unique id; it is sent with that id
func underOwnKey(c *StreamingClient, m *jlib.RequestMessage) bool {
	if vc.Count(evPut) != 1 || !own(m, vc.Arg[interface{}](evPut, 0, 2)) || vc.Count(evSSend) != 1 {
		return false
	}
	p := vc.Arg[interface{}](evPut, 0, 2)
	sent, ok := vc.Arg[jlib.Message](evSSend, 0, 2).(*jlib.RequestMessage)
	if !ok || vc.Arg[*StreamingClient](evSSend, 0, 0) != c || vc.Pos(evPut, 0) > vc.Pos(evSSend, 0) {
		return false
	}
	if vc.Arg[bool](evPut, 0, 3) {
		// free
		return vc.Count(evOverwrite) == 0 && vc.Same(vc.Arg[interface{}](evPut, 0, 1), interface{}(sent.Id)) && carries(m, sent)
	}
	return vc.Count(evOverwrite) == 1 && vc.Same(vc.Arg[interface{}](evOverwrite, 0, 2), p) && vc.Count(evUuid) == 1 &&
		vc.Same(vc.Arg[interface{}](evOverwrite, 0, 1), interface{}(vc.Ret[string](evUuid, 0, 0))) &&
		vc.Same(vc.Arg[interface{}](evOverwrite, 0, 1), interface{}(sent.Id)) && carries(m, sent) && vc.Pos(evOverwrite, 0) < vc.Pos(evSSend, 0)
}

// carries: what is sent is the request, but for its id
func carries(m, sent *jlib.RequestMessage) bool { return jlib.VcSameRequest(*m, *sent) }

const evOverwrite = "pending.overwrite"
const evUuid = "jlib.NewUuid"

//vc:ensures (*jlibhttp.StreamingClient).request name=waits-under-its-own-key local props=C21
func ensSRequest(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	if vc.Count(evConnect) != 1 {
		return false
	}
	if vc.Ret[error](evConnect, 0, 0) != nil {
		return err != nil && vc.Count(evPut+"|"+evOverwrite+"|"+evSSend) == 0
	}
	if !underOwnKey(c, m) {
		return false
	}
	p := vc.Arg[interface{}](evPut, 0, 2).(*pendingRequest)
	sent := vc.Arg[jlib.Message](evSSend, 0, 2).(*jlib.RequestMessage)
	if vc.Ret[error](evSSend, 0, 0) != nil {
		// nothing stays behind
		return err != nil && vc.Count("go:"+evExpire) == 0 && vc.Count(evRecv) == 0 && gone(sent.Id, p)
	}
	if vc.Count("go:"+evExpire) != 1 || vc.Count(evDel+"|"+evTake+"|"+evRetire) != 0 {
		return false
	}
	return vc.Arg[*StreamingClient]("go:"+evExpire, 0, 0) == c && vc.Same(vc.Arg[interface{}]("go:"+evExpire, 0, 1), interface{}(sent.Id)) &&
		vc.Arg[*pendingRequest]("go:"+evExpire, 0, 2) == p && vc.Arg[time.Duration]("go:"+evExpire, 0, 3) == 10*time.Second &&
		vc.Count(evRecv) == 1 && vc.Same(vc.Arg[chan jlib.Message](evRecv, 0, 0), p.resultChannel) &&
		vc.Imp(vc.Ret[bool](evRecv, 0, 1), err == nil && vc.Same(res, vc.Ret[jlib.Message](evRecv, 0, 0))) &&
		vc.Imp(!vc.Ret[bool](evRecv, 0, 1), err != nil)
}

func gone(id interface{}, p *pendingRequest) bool {
	if vc.Count(evDel) == 1 {
		return vc.Same(vc.Arg[interface{}](evDel, 0, 1), id)
	}
	if vc.Count(evTake) == 1 {
		return vc.Same(vc.Arg[interface{}](evTake, 0, 1), id)
	}
	return vc.Count(evRetire) == 1 && vc.Same(vc.Arg[interface{}](evRetire, 0, 1), id) && vc.Same(vc.Arg[interface{}](evRetire, 0, 2), interface{}(p))
}

// ---- answers

//vc:requires (*jlibhttp.StreamingClient).handleResult
func reqHandleResult(c *StreamingClient, m jlib.Message) bool {
	return wfStream(c) && jlib.VcWfMessage(m) && m.IsResultOrError()
}

// delivered: the channel got the message, and nothing else was sent
func delivered(ch chan jlib.Message) bool {
	return vc.Count(evSend) == 1 && vc.Same(vc.Arg[chan jlib.Message](evSend, 0, 0), ch)
}

// toHandler: the message went to the message handler, if there is one
func toHandler(c *StreamingClient, m jlib.Message) bool {
	if c.messageHandler == nil {
		return vc.Count(evOnMsg) == 0
	}
	return vc.Count(evOnMsg) == 1 && vc.Same(vc.Arg[MessageHandler](evOnMsg, 0, 0), c.messageHandler) && vc.Same(vc.Arg[jlib.Message](evOnMsg, 0, 1), m)
}

func sameAnswer(a, b jlib.Message) bool {
	switch t := a.(type) {
	case *jlib.ResultMessage:
		q, ok := b.(*jlib.ResultMessage)
		return ok && q.Result == t.Result && q.TraceId() == t.TraceId()
	case *jlib.ErrorMessage:
		q, ok := b.(*jlib.ErrorMessage)
		return ok && q.Error == t.Error && q.TraceId() == t.TraceId()
	}
	return false
}

//vc:ensures (*jlibhttp.StreamingClient).handleResult name=to-its-own-call-once local props=C21
func ensHandleResult(c *StreamingClient, m jlib.Message) bool {
	if vc.Count(evTake) != 1 || vc.Arg[*sync.Map](evTake, 0, 0) != &c.pendingRequests || vc.Arg[interface{}](evTake, 0, 1) != m.MustId() {
		return false
	}
	if !vc.Arg[bool](evTake, 0, 3) {
		return vc.Count(evSend) == 0 && toHandler(c, m)
	}
	p := vc.Arg[interface{}](evTake, 0, 2).(*pendingRequest)
	if !delivered(p.resultChannel) || vc.Count(evOnMsg) != 0 {
		return false
	}
	res := vc.Arg[jlib.Message](evSend, 0, 1)
	return sameAnswer(m, res) && res.MustId() == p.reqmsg.Id
}

//vc:requires (*jlibhttp.StreamingClient).expire
func reqExpire(c *StreamingClient, k interface{}, p *pendingRequest, after time.Duration) bool {
	return c != nil && pendingOk(p)
}

//vc:ensures (*jlibhttp.StreamingClient).expire name=times-out-its-own-call-only local props=C21
func ensExpire(c *StreamingClient, k interface{}, p *pendingRequest, after time.Duration) bool {
	if vc.Count(evAfter) != 1 || vc.Arg[time.Duration](evAfter, 0, 0) != after || vc.Count(evRecv) != 1 || vc.Count(evTake+"|"+evDel) != 0 {
		return false
	}
	if vc.Count(evRetire) != 1 || vc.Pos(evRecv, 0) > vc.Pos(evRetire, 0) || vc.Arg[*sync.Map](evRetire, 0, 0) != &c.pendingRequests ||
		!vc.Same(vc.Arg[interface{}](evRetire, 0, 1), k) || !vc.Same(vc.Arg[interface{}](evRetire, 0, 2), interface{}(p)) {
		return false
	}
	if !vc.Arg[bool](evRetire, 0, 3) {
		return vc.Count(evSend) == 0
	}
	if !delivered(p.resultChannel) {
		return false
	}
	e, ok := vc.Arg[jlib.Message](evSend, 0, 1).(*jlib.ErrorMessage)
	return ok && e.Id == p.reqmsg.Id && e.Error != nil && e.Error.Code == jlib.ErrTimeout.Code && e.TraceId() == p.reqmsg.TraceId()
}

// ---- reading and writing

//vc:requires (*jlibhttp.StreamingClient).recvLoop
func reqSRecv(c *StreamingClient) bool { return wfStream(c) }

//vc:iter (*jlibhttp.StreamingClient).recvLoop name=each-message-once inlined props=C21
func iterSRecv(c *StreamingClient, back bool, k int) bool {
	n := vc.Count(evTRead)
	if !back {
		return vc.Count(evHandle) == 0 && vc.Count(evOnMsg) == 0 && vc.Imp(n == 1, vc.Ret[error](evTRead, 0, 2) != nil)
	}
	if n != 1 || vc.Ret[error](evTRead, 0, 2) != nil {
		return false
	}
	if !vc.Ret[bool](evTRead, 0, 1) {
		return vc.Count(evHandle) == 0 && vc.Count(evOnMsg) == 0
	}
	m := vc.Ret[jlib.Message](evTRead, 0, 0)
	if vc.Count(evHandle) == 1 {
		return m.IsResultOrError() && vc.Count(evOnMsg) == 0 && vc.Arg[*StreamingClient](evHandle, 0, 0) == c && vc.Same(vc.Arg[jlib.Message](evHandle, 0, 1), m)
	}
	return vc.Count(evHandle) == 0 && !m.IsResultOrError() && toHandler(c, m)
}

//vc:requires (*jlibhttp.StreamingClient).sendLoop
func reqSSendLoop(c *StreamingClient, ctx context.Context) bool { return wfStream(c) && ctx != nil }

//vc:iter (*jlibhttp.StreamingClient).sendLoop name=each-message-once on=back inlined props=C21
func iterSSend(c *StreamingClient, ctx context.Context, back bool, k int) bool {
	return vc.Count(evRecv) == 1 && vc.Same(vc.Arg[chan jlib.Message](evRecv, 0, 0), c.sendChannel) && vc.Count(evTWrite) == 1 &&
		vc.Same(vc.Arg[jlib.Message](evTWrite, 0, 1), vc.Ret[jlib.Message](evRecv, 0, 0)) && vc.Ret[error](evTWrite, 0, 0) == nil
}

// ---- results for the caller

//vc:requires (*jlibhttp.StreamingClient).Call
func reqSCall(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage) bool {
	return wfStreamCall(c, ctx, m)
}

//vc:modifies (*jlibhttp.StreamingClient).Call
func modSCall(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage) { vc.Mod(c) }

//vc:ensures (*jlibhttp.StreamingClient).Call name=an-answer-or-an-error props=C21
func ensSCallKind(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	return ensSRequestKind(c, ctx, m, res, err)
}

//vc:ensures (*jlibhttp.StreamingClient).Call name=requested-once local props=C21
func ensSCall(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, res jlib.Message, err error) bool {
	if vc.Count(evSReq) != 1 || vc.Arg[*StreamingClient](evSReq, 0, 0) != c || vc.Arg[*jlib.RequestMessage](evSReq, 0, 2) != m {
		return false
	}
	e := vc.Ret[error](evSReq, 0, 1)
	if e == nil {
		return err == nil && vc.Same(res, vc.Ret[jlib.Message](evSReq, 0, 0))
	}
	return err != nil
}

//vc:requires (*jlibhttp.StreamingClient).UnwrapCall
func reqSUnwrap(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, out interface{}) bool {
	return wfStreamCall(c, ctx, m)
}

//vc:ensures (*jlibhttp.StreamingClient).UnwrapCall name=decoded-or-the-error local props=C21
func ensSUnwrap(c *StreamingClient, ctx context.Context, m *jlib.RequestMessage, out interface{}, err error) bool {
	if vc.Count(evSCall) != 1 || vc.Arg[*StreamingClient](evSCall, 0, 0) != c || vc.Arg[*jlib.RequestMessage](evSCall, 0, 2) != m {
		return false
	}
	if e := vc.Ret[error](evSCall, 0, 1); e != nil {
		return vc.Count(evDecode) == 0 && vc.Same(err, e)
	}
	res := vc.Ret[jlib.Message](evSCall, 0, 0)
	if e, ok := res.(*jlib.ErrorMessage); ok {
		return vc.Count(evDecode) == 0 && vc.Same(err, error(e.Error))
	}
	return vc.Count(evDecode) == 1 && vc.Same(vc.Arg[interface{}](evDecode, 0, 0), vc.At[interface{}](evDecode, 0, func() interface{} { return res.MustResult() })) &&
		vc.Same(vc.Arg[interface{}](evDecode, 0, 1), out) && vc.Iff(err == nil, vc.Ret[error](evDecode, 0, 0) == nil)
}

// ---- the transports of the library

//vc:attr (*jlibhttp.wsTransport).ReadMessage noframe
//vc:attr (*jlibhttp.wsTransport).WriteMessage noframe
//vc:attr (*jlibhttp.h2Transport).ReadMessage noframe
//vc:attr (*jlibhttp.h2Transport).WriteMessage noframe

//vc:requires (*jlibhttp.wsTransport).ReadMessage
func reqWSTRead(t *wsTransport) bool { return wfWSTransport(t) }

//vc:requires (*jlibhttp.wsTransport).WriteMessage
func reqWSTWrite(t *wsTransport, m jlib.Message) bool {
	return wfWSTransport(t) && jlib.VcWfMessage(m)
}

//vc:requires (*jlibhttp.h2Transport).ReadMessage
func reqH2TRead(t *h2Transport) bool { return wfH2Transport(t) }

//vc:requires (*jlibhttp.h2Transport).WriteMessage
func reqH2TWrite(t *h2Transport, m jlib.Message) bool {
	return wfH2Transport(t) && jlib.VcWfMessage(m)
}

func wfWSTransport(t *wsTransport) bool {
	return t != nil && t.ws != nil && t.client != nil && t.client.serverUrl != nil
}

func wfH2Transport(t *h2Transport) bool {
	return t != nil && t.decoder != nil && t.writer != nil && t.client != nil && t.client.serverUrl != nil
}

//vc:ensures (*jlibhttp.wsTransport).ReadMessage name=delivers-what-was-read local props=C21
func ensWSTRead(t *wsTransport, m jlib.Message, readed bool, err error) bool {
	if vc.Count(evWsRead) != 1 || vc.Arg[*websocket.Conn](evWsRead, 0, 0) != t.ws {
		return false
	}
	if vc.Ret[error](evWsRead, 0, 2) != nil {
		return err != nil && !readed
	}
	if vc.Ret[int](evWsRead, 0, 0) != websocket.TextMessage {
		return err == nil && !readed && m == nil && vc.Count(evParse) == 0
	}
	if vc.Count(evParse) != 1 || !vc.Same(vc.Arg[[]byte](evParse, 0, 0), vc.Ret[[]byte](evWsRead, 0, 1)) {
		return false
	}
	if vc.Ret[error](evParse, 0, 1) != nil {
		return err != nil && !readed
	}
	return err == nil && readed && vc.Same(m, vc.Ret[jlib.Message](evParse, 0, 0)) && jlib.VcWfMessage(m)
}

//vc:ensures (*jlibhttp.h2Transport).ReadMessage name=delivers-what-was-read local props=C21
func ensH2TRead(t *h2Transport, m jlib.Message, readed bool, err error) bool {
	if vc.Count(evDecodeMsg) != 1 || vc.Arg[*json.Decoder](evDecodeMsg, 0, 0) != t.decoder {
		return false
	}
	if vc.Ret[error](evDecodeMsg, 0, 1) != nil {
		return err != nil && !readed
	}
	return err == nil && readed && vc.Same(m, vc.Ret[jlib.Message](evDecodeMsg, 0, 0)) && jlib.VcWfMessage(m)
}

func encodedMessage(m jlib.Message) bool {
	return vc.Count(evEncode) == 1 && vc.Same(vc.Arg[jlib.Message](evEncode, 0, 0), m)
}

//vc:ensures (*jlibhttp.wsTransport).WriteMessage name=written-once local props=C21
func ensWSTWrite(t *wsTransport, m jlib.Message, err error) bool {
	if !encodedMessage(m) {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) != nil {
		return err != nil && vc.Count(evWsWrite) == 0
	}
	return vc.Count(evWsWrite) == 1 && vc.Arg[*websocket.Conn](evWsWrite, 0, 0) == t.ws && vc.Arg[int](evWsWrite, 0, 1) == websocket.TextMessage &&
		vc.Bytes(vc.Arg[[]byte](evWsWrite, 0, 2)) == vc.Bytes(vc.Ret[[]byte](evEncode, 0, 0)) &&
		vc.Iff(err == nil, vc.Ret[error](evWsWrite, 0, 0) == nil)
}

//vc:ensures (*jlibhttp.h2Transport).WriteMessage name=written-once local props=C21
func ensH2TWrite(t *h2Transport, m jlib.Message, err error) bool {
	if !encodedMessage(m) {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) != nil {
		return err != nil && vc.Count(evIoWrite) == 0
	}
	if vc.Count(evIoWrite) != 1 || !vc.Same(vc.Arg[interface{}](evIoWrite, 0, 0), interface{}(t.writer)) {
		return false
	}
	b, e := vc.Arg[[]byte](evIoWrite, 0, 1), vc.Ret[[]byte](evEncode, 0, 0)
	text := vc.At[string](evEncode, 0, func() string { return vc.Bytes(e) })
	return vc.At[string](evIoWrite, 0, func() string { return vc.Bytes(b) }) == text+"\n" && vc.Iff(err == nil, vc.Ret[error](evIoWrite, 0, 1) == nil)
}
