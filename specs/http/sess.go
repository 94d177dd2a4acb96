package jlibhttp

import (
	"context"
	"encoding/json"
	"net/http"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"

	"github.com/superisaac/jlib/internal/vc"
)

// ---- streaming sessions of the server

const evSend = "chan.send"
const evRecv = "chan.recv"
const evDecodeMsg = "jlib.DecodeMessage"
const evDone = "iface:context.Context.Done"
const evCase = "select.case"
const evFlush = "iface:http.Flusher.Flush"
const evIoWrite = "iface:io.Writer.Write"
const evWsRead = "call:(*github.com/gorilla/websocket.Conn).ReadMessage"
const evWsWrite = "call:(*github.com/gorilla/websocket.Conn).WriteMessage"
const evUpgrade = "call:(*github.com/gorilla/websocket.Upgrader).Upgrade"

const wsReceived = "(*jlibhttp.WSSession).msgBytesReceived"
const h2Received = "(*jlibhttp.H2Session).msgReceived"

//vc:attr jlib.DecodeMessage event
//vc:attr (*jlibhttp.WSSession).msgBytesReceived event extpanic noframe
//vc:attr (*jlibhttp.H2Session).msgReceived event extpanic noframe
//vc:attr (*jlibhttp.WSSession).recvLoop noframe extpanic
//vc:attr (*jlibhttp.H2Session).recvLoop noframe extpanic
//vc:attr (*jlibhttp.WSSession).sendLoop noframe
//vc:attr (*jlibhttp.H2Session).sendLoop noframe
//vc:attr (*jlibhttp.WSSession).wait event noframe
//vc:attr (*jlibhttp.H2Session).wait noframe
//vc:attr (*jlibhttp.WSSession).Send inline
//vc:attr (*jlibhttp.H2Session).Send inline
//vc:attr (*jlibhttp.WSHandler).ServeHTTP noframe extpanic noanswers
//vc:attr (*jlibhttp.H2Handler).ServeHTTP extpanic noanswers

// every message that is queued on a channel was built by the library; on the
// channels pending calls wait on it is an answer
//
//vc:requires chan:jlib.Message
func chanMessage(ch chan jlib.Message, m jlib.Message) bool {
	return jlib.VcWfMessage(m) && vc.Imp(forAnswers(ch), m.IsResultOrError())
}

func forAnswers(ch chan jlib.Message) bool { return vc.UF[bool]("chan.answers", vc.Ref(ch)) }

// what a session needs at any time while messages are being handled
func wfWS(s *WSSession) bool {
	return s != nil && s.server != nil && wfActor(s.server.Actor) && s.server.serverCtx != nil && s.httpRequest != nil &&
		s.rootCtx != nil && s.ws != nil && !forAnswers(s.sendChannel)
}

func wfH2S(s *H2Session) bool {
	return s != nil && s.server != nil && wfActor(s.server.Actor) && s.server.serverCtx != nil && s.httpRequest != nil &&
		s.rootCtx != nil && s.decoder != nil && s.writer != nil && s.flusher != nil && !forAnswers(s.sendChannel)
}

//vc:requires (*jlibhttp.WSSession).msgBytesReceived
func reqWSReceived(s *WSSession, b []byte) bool { return wfWS(s) }

//vc:requires (*jlibhttp.H2Session).msgReceived
func reqH2Received(s *H2Session, m jlib.Message) bool { return wfH2S(s) && jlib.VcWfMessage(m) }

//vc:requires (*jlibhttp.WSSession).recvLoop
func reqWSRecv(s *WSSession) bool { return wfWS(s) }

//vc:requires (*jlibhttp.H2Session).recvLoop
func reqH2Recv(s *H2Session) bool { return wfH2S(s) }

//vc:requires (*jlibhttp.WSSession).sendLoop
func reqWSSend(s *WSSession) bool { return wfWS(s) }

//vc:requires (*jlibhttp.H2Session).sendLoop
func reqH2Send(s *H2Session) bool { return wfH2S(s) }

//vc:requires (*jlibhttp.WSSession).wait
func reqWSWait(s *WSSession) bool { return wfWS(s) }

//vc:requires (*jlibhttp.H2Session).wait
func reqH2Wait(s *H2Session) bool { return wfH2S(s) }

// ended: an error was put on the session's done channel, and nothing was queued
func ended(done chan error) bool {
	return vc.Count(evSend) == 1 && vc.Same(vc.Arg[chan error](evSend, 0, 0), done) && vc.Arg[error](evSend, 0, 1) != nil
}

// fedSession: the message went to the actor once, with the session and the request
func fedSession(a *Actor, s RPCSession, r *http.Request, transport string, m jlib.Message) bool {
	if vc.Count(evFeed) != 1 || vc.Arg[*Actor](evFeed, 0, 0) != a {
		return false
	}
	q := vc.Arg[*RPCRequest](evFeed, 0, 1)
	return q != nil && vc.At[bool](evFeed, 0, func() bool {
		return vc.Same(q.msg, m) && q.r == r && q.transportType == transport && vc.Same(q.session, s)
	})
}

// answered: the response of the actor, if any, is queued once on the session
func answered(ch chan jlib.Message, done chan error) bool {
	if vc.Ret[error](evFeed, 0, 1) != nil {
		return ended(done)
	}
	res := vc.Ret[jlib.Message](evFeed, 0, 0)
	if res == nil {
		return vc.Count(evSend) == 0
	}
	return vc.Count(evSend) == 1 && vc.Same(vc.Arg[chan jlib.Message](evSend, 0, 0), ch) && vc.Same(vc.Arg[jlib.Message](evSend, 0, 1), res) &&
		vc.Pos(evFeed, 0) < vc.Pos(evSend, 0)
}

//vc:ensures (*jlibhttp.WSSession).msgBytesReceived name=fed-and-answered-once local props=C22
func ensWSReceived(s *WSSession, b []byte) bool {
	if vc.Count(evParse) != 1 || !vc.Same(vc.Arg[[]byte](evParse, 0, 0), b) {
		return false
	}
	if vc.Ret[error](evParse, 0, 1) != nil {
		return vc.Count(evFeed) == 0 && ended(s.done)
	}
	return fedSession(s.server.Actor, s, s.httpRequest, TransportWebsocket, vc.Ret[jlib.Message](evParse, 0, 0)) && answered(s.sendChannel, s.done)
}

//vc:ensures (*jlibhttp.H2Session).msgReceived name=fed-and-answered-once local props=C22
func ensH2Received(s *H2Session, m jlib.Message) bool {
	return fedSession(s.server.Actor, s, s.httpRequest, TransportHTTP2, m) && answered(s.sendChannel, s.done)
}

//vc:onpanic (*jlibhttp.WSSession).msgBytesReceived name=panics-are-not-answered local props=C22
func panicWSReceived(s *WSSession, b []byte, pv interface{}) bool {
	return vc.Count(evFeed) == 1 && vc.Same(vc.PanicOf(evFeed, 0), pv) && vc.Count(evSend) == 0
}

//vc:onpanic (*jlibhttp.H2Session).msgReceived name=panics-are-not-answered local props=C22
func panicH2Received(s *H2Session, m jlib.Message, pv interface{}) bool {
	return vc.Count(evFeed) == 1 && vc.Same(vc.PanicOf(evFeed, 0), pv) && vc.Count(evSend) == 0
}

// ---- reading

func handledWS(s *WSSession, b []byte) bool {
	n, g := vc.Count(wsReceived), vc.Count("go:"+wsReceived)
	return n+g == 1 &&
		vc.Imp(n == 1, vc.Arg[*WSSession](wsReceived, 0, 0) == s && vc.Same(vc.Arg[[]byte](wsReceived, 0, 1), b)) &&
		vc.Imp(g == 1, vc.Arg[*WSSession]("go:"+wsReceived, 0, 0) == s && vc.Same(vc.Arg[[]byte]("go:"+wsReceived, 0, 1), b))
}

func handledH2(s *H2Session, m jlib.Message) bool {
	n, g := vc.Count(h2Received), vc.Count("go:"+h2Received)
	return n+g == 1 &&
		vc.Imp(n == 1, vc.Arg[*H2Session](h2Received, 0, 0) == s && vc.Same(vc.Arg[jlib.Message](h2Received, 0, 1), m)) &&
		vc.Imp(g == 1, vc.Arg[*H2Session]("go:"+h2Received, 0, 0) == s && vc.Same(vc.Arg[jlib.Message]("go:"+h2Received, 0, 1), m))
}

const received = "(*jlibhttp.WSSession).msgBytesReceived|go:(*jlibhttp.WSSession).msgBytesReceived|(*jlibhttp.H2Session).msgReceived|go:(*jlibhttp.H2Session).msgReceived"

//vc:iter (*jlibhttp.WSSession).recvLoop name=each-message-once on=back inlined props=C22
func iterWSRecv(s *WSSession, back bool, k int) bool {
	if vc.Count(evWsRead) != 1 || vc.Arg[*websocket.Conn](evWsRead, 0, 0) != s.ws || vc.Count(evSend) != 0 || vc.Ret[error](evWsRead, 0, 2) != nil {
		return false
	}
	if vc.Ret[int](evWsRead, 0, 0) != websocket.TextMessage {
		return vc.Count(received) == 0
	}
	return handledWS(s, vc.Ret[[]byte](evWsRead, 0, 1))
}

//vc:iter (*jlibhttp.WSSession).recvLoop name=ends-with-the-connection on=exit inlined props=C22
func exitWSRecv(s *WSSession, back bool, k int) bool {
	return vc.Count(evWsRead) == 1 && vc.Arg[*websocket.Conn](evWsRead, 0, 0) == s.ws && vc.Ret[error](evWsRead, 0, 2) != nil &&
		vc.Count(received) == 0
}

//vc:ensures (*jlibhttp.WSSession).recvLoop name=then-the-session-ends local props=C22
func ensWSRecv(s *WSSession) bool { return ended(s.done) }

//vc:iter (*jlibhttp.H2Session).recvLoop name=each-message-once on=back inlined props=C22
func iterH2Recv(s *H2Session, back bool, k int) bool {
	return vc.Count(evDecodeMsg) == 1 && vc.Arg[*json.Decoder](evDecodeMsg, 0, 0) == s.decoder && vc.Count(evSend) == 0 &&
		vc.Ret[error](evDecodeMsg, 0, 1) == nil && handledH2(s, vc.Ret[jlib.Message](evDecodeMsg, 0, 0))
}

//vc:iter (*jlibhttp.H2Session).recvLoop name=ends-with-the-stream on=exit inlined props=C22
func exitH2Recv(s *H2Session, back bool, k int) bool {
	return vc.Count(evDecodeMsg) == 1 && vc.Arg[*json.Decoder](evDecodeMsg, 0, 0) == s.decoder && vc.Ret[error](evDecodeMsg, 0, 1) != nil &&
		vc.Count(received) == 0
}

//vc:ensures (*jlibhttp.H2Session).recvLoop name=then-the-session-ends local props=C22
func ensH2Recv(s *H2Session) bool {
	return vc.Count(evSend) == 1 && vc.Same(vc.Arg[chan error](evSend, 0, 0), s.done)
}

// ---- writing

// taken: one message was taken from the queue
func taken(ch chan jlib.Message) bool {
	return vc.Count(evRecv) == 1 && vc.Same(vc.Arg[chan jlib.Message](evRecv, 0, 0), ch) && vc.Ret[bool](evRecv, 0, 1)
}

// encodedOnce: the message taken was encoded, once
func encodedOnce() bool {
	return vc.Count(evEncode) == 1 && vc.Same(vc.Arg[jlib.Message](evEncode, 0, 0), vc.Ret[jlib.Message](evRecv, 0, 0))
}

// sessionOver: what was received says that the session ended
func sessionOver(root context.Context) bool {
	return vc.Count(evRecv) == 1 && vc.Count(evDone) == 1 &&
		vc.Same(vc.Arg[<-chan struct{}](evRecv, 0, 0), vc.Ret[<-chan struct{}](evDone, 0, 0)) && under(vc.Arg[context.Context](evDone, 0, 0), root)
}

// under: the context or one made of it
func under(c, root context.Context) bool {
	return vc.Same(c, root) || vc.Same(vc.UF[context.Context]("ctx.parent", c), root)
}

func queueClosed(ch chan jlib.Message) bool {
	return vc.Count(evRecv) == 1 && vc.Same(vc.Arg[chan jlib.Message](evRecv, 0, 0), ch) && !vc.Ret[bool](evRecv, 0, 1)
}

func wroteWS(s *WSSession) bool {
	return vc.Count(evWsWrite) == 1 && vc.Arg[*websocket.Conn](evWsWrite, 0, 0) == s.ws && vc.Arg[int](evWsWrite, 0, 1) == websocket.TextMessage &&
		vc.Bytes(vc.Arg[[]byte](evWsWrite, 0, 2)) == vc.Bytes(vc.Ret[[]byte](evEncode, 0, 0))
}

//vc:iter (*jlibhttp.WSSession).sendLoop name=each-message-once on=back inlined props=C22
func iterWSSend(s *WSSession, back bool, k int) bool {
	if !taken(s.sendChannel) || !encodedOnce() {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) != nil {
		return vc.Count(evWsWrite) == 0
	}
	return wroteWS(s) && vc.Ret[error](evWsWrite, 0, 0) == nil
}

//vc:iter (*jlibhttp.WSSession).sendLoop name=ends-with-the-session on=exit inlined props=C22
func exitWSSend(s *WSSession, back bool, k int) bool {
	if vc.Count(evWsWrite) == 0 {
		return sessionOver(s.rootCtx) || queueClosed(s.sendChannel)
	}
	return taken(s.sendChannel) && encodedOnce() && wroteWS(s) && vc.Ret[error](evWsWrite, 0, 0) != nil
}

func wroteH2(s *H2Session) bool {
	if vc.Count(evIoWrite) != 1 || !vc.Same(vc.Arg[interface{}](evIoWrite, 0, 0), interface{}(s.writer)) {
		return false
	}
	b, e := vc.Arg[[]byte](evIoWrite, 0, 1), vc.Ret[[]byte](evEncode, 0, 0)
	text := vc.At[string](evEncode, 0, func() string { return vc.Bytes(e) })
	return vc.At[string](evIoWrite, 0, func() string { return vc.Bytes(b) }) == text+"\n"
}

//vc:iter (*jlibhttp.H2Session).sendLoop name=each-message-once on=back inlined props=C22
func iterH2Send(s *H2Session, back bool, k int) bool {
	if !taken(s.sendChannel) || !encodedOnce() {
		return false
	}
	if vc.Ret[error](evEncode, 0, 1) != nil {
		return vc.Count(evIoWrite) == 0
	}
	return wroteH2(s) && vc.Ret[error](evIoWrite, 0, 1) == nil && vc.Count(evFlush) == 1 && vc.Pos(evIoWrite, 0) < vc.Pos(evFlush, 0)
}

//vc:iter (*jlibhttp.H2Session).sendLoop name=ends-with-the-session on=exit inlined props=C22
func exitH2Send(s *H2Session, back bool, k int) bool {
	if vc.Count(evIoWrite) == 0 {
		return sessionOver(s.rootCtx) || queueClosed(s.sendChannel)
	}
	return taken(s.sendChannel) && encodedOnce() && wroteH2(s) && vc.Ret[error](evIoWrite, 0, 1) != nil
}

// ---- the life of a session

func caseIs(n int, done chan error) bool {
	return n < vc.Count(evCase) && vc.Same(vc.Arg[chan error](evCase, n, 0), done)
}

// waited: both loops run, once, and an end of the session is noticed
func waited(send, recv string, done chan error) bool {
	return vc.Count("go:"+send) == 1 && vc.Count("go:"+recv) == 1 && vc.Count(evRecv) == 1 &&
		(caseIs(0, done) || caseIs(1, done) || caseIs(2, done))
}

//vc:ensures (*jlibhttp.WSSession).wait name=runs-both-loops local props=C22
func ensWSWait(s *WSSession) bool {
	const send, recv = "(*jlibhttp.WSSession).sendLoop", "(*jlibhttp.WSSession).recvLoop"
	return waited(send, recv, s.done) && vc.Arg[*WSSession]("go:"+send, 0, 0) == s && vc.Arg[*WSSession]("go:"+recv, 0, 0) == s
}

//vc:ensures (*jlibhttp.H2Session).wait name=runs-both-loops local props=C22
func ensH2Wait(s *H2Session) bool {
	const send, recv = "(*jlibhttp.H2Session).sendLoop", "(*jlibhttp.H2Session).recvLoop"
	return waited(send, recv, s.done) && vc.Arg[*H2Session]("go:"+send, 0, 0) == s && vc.Arg[*H2Session]("go:"+recv, 0, 0) == s
}

//vc:requires (*jlibhttp.WSHandler).ServeHTTP
func reqWSServe(h *WSHandler, w http.ResponseWriter, r *http.Request) bool {
	return h != nil && wfActor(h.Actor) && h.serverCtx != nil && w != nil && r != nil
}

const evWSWait = "(*jlibhttp.WSSession).wait"
const evH2Wait = "(*jlibhttp.H2Session).wait"

// closedOnce: the close callback is called for the session, after its end
func closedOnce(a *Actor, r *http.Request, wait string) bool {
	return vc.Count(wait) == 1 && vc.Count(evHC) == 1 && vc.Arg[*Actor](evHC, 0, 0) == a && vc.Arg[*http.Request](evHC, 0, 1) == r &&
		vc.Pos(wait, 0) < vc.Pos(evHC, 0)
}

func closedWS(h *WSHandler, r *http.Request) bool {
	if vc.Ret[error](evUpgrade, 0, 1) != nil {
		return vc.Count(evWSWait) == 0 && vc.Count(evHC) == 0
	}
	s := vc.Arg[*WSSession](evWSWait, 0, 0)
	return closedOnce(h.Actor, r, evWSWait) && vc.Same[RPCSession](vc.Arg[RPCSession](evHC, 0, 2), s) && s.server == h && s.httpRequest == r &&
		s.ws == vc.Ret[*websocket.Conn](evUpgrade, 0, 0)
}

//vc:ensures (*jlibhttp.WSHandler).ServeHTTP name=one-close-per-session local props=C22
func ensWSServe(h *WSHandler, w http.ResponseWriter, r *http.Request) bool {
	return vc.Count(evUpgrade) == 1 && closedWS(h, r)
}

// messages of the session may still be being handled
//
//vc:ensures (*jlibhttp.WSHandler).ServeHTTP name=the-session-stays-usable local props=C22
func ensWSUsable(h *WSHandler, w http.ResponseWriter, r *http.Request) bool {
	return vc.Imp(vc.Count(evWSWait) == 1, wfWS(vc.Arg[*WSSession](evWSWait, 0, 0)))
}

//vc:onpanic (*jlibhttp.WSHandler).ServeHTTP name=only-the-callback-panics local props=C22
func panicWSServe(h *WSHandler, w http.ResponseWriter, r *http.Request, pv interface{}) bool {
	return vc.Count(evHC) == 1 && vc.Same(vc.PanicOf(evHC, 0), pv) && closedWS(h, r)
}

func closedH2(h *H2Handler, r *http.Request) bool {
	s := vc.Arg[*H2Session](evH2Wait, 0, 0)
	return closedOnce(h.Actor, r, evH2Wait) && vc.Same[RPCSession](vc.Arg[RPCSession](evHC, 0, 2), s) && s.server == h && s.httpRequest == r
}

//vc:ensures (*jlibhttp.H2Handler).ServeHTTP name=one-close-per-session local props=C22
func ensH2Serve(h *H2Handler, w http.ResponseWriter, r *http.Request) bool {
	if vc.Count(evH1) == 1 {
		return vc.Count(evH2Wait) == 0 && vc.Count(evHC) == 0
	}
	if _, ok := w.(http.Flusher); !ok {
		return vc.Count(evH2Wait) == 0 && vc.Count(evHC) == 0
	}
	return closedH2(h, r)
}

//vc:ensures (*jlibhttp.H2Handler).ServeHTTP name=the-session-stays-usable local props=C22
func ensH2Usable(h *H2Handler, w http.ResponseWriter, r *http.Request) bool {
	if vc.Count(evH2Wait) == 0 {
		return true
	}
	s := vc.Arg[*H2Session](evH2Wait, 0, 0)
	return wfH2S(s) && vc.Same(interface{}(s.writer), interface{}(w)) && vc.Same(interface{}(s.flusher), interface{}(w))
}

//vc:onpanic (*jlibhttp.H2Handler).ServeHTTP name=only-the-callback-panics local props=C22
func panicH2Serve(h *H2Handler, w http.ResponseWriter, r *http.Request, pv interface{}) bool {
	if vc.Count(evH1) == 1 {
		return vc.Count(evHC) == 0
	}
	return vc.Count(evHC) == 1 && vc.Same(vc.PanicOf(evHC, 0), pv) && closedH2(h, r)
}
