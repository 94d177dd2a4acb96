From 38068682fa0235e24f3be4aed54afab7de0b4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 01/13] fix: keep the list-or-object form of params when
 cloning a request

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From 20b35df2f614b251309f31c284afb6cdbd125dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 02/13] fix: Bigint.UnmarshalJSON refuses input that is not a
 decimal integer

---
 utils.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index c7f7505..2400247 100644
--- a/utils.go
+++ b/utils.go
@@ -186,14 +186,16 @@ func (self Bigint) MarshalJSON() ([]byte, error) {
 
 func (self *Bigint) UnmarshalJSON(data []byte) error {
 	sd := string(data)
-	bi := (*big.Int)(self)
 
-	if strings.HasPrefix(sd, `"`) {
+	if len(sd) >= 2 && strings.HasPrefix(sd, `"`) && strings.HasSuffix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
-	} else {
-		bi.SetString(sd, 10)
+		sd = sd[1 : len(sd)-1]
 	}
+	bi, ok := new(big.Int).SetString(sd, 10)
+	if !ok {
+		return errors.Errorf("invalid big integer %s", string(data))
+	}
+	self.Value().Set(bi)
 	return nil
 }
 
-- 
2.43.0


From 926e33c80a65a3d64b28c88ad4d1e3ee46bcc433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 03/13] fix: a bare Bearer authorization header no longer
 panics the JWT check

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..e079742 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From aede6011c9033ab0114afdb4052052a320f05238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 04/13] fix: a missing handler's panic is recovered for result
 and error messages too

---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..f878fa7 100644
--- a/http/request.go
+++ b/http/request.go
@@ -293,8 +293,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0


From e0b42221ed6ded86777fa734ed96574629588673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 05/13] fix: the schema reported for a method is that of the
 handler that serves it

---
 http/request.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index f878fa7..ac68917 100644
--- a/http/request.go
+++ b/http/request.go
@@ -268,12 +268,12 @@ func (self Actor) MethodList() []string {
 
 // get the schema of a method
 func (self Actor) GetSchema(method string) (jlibschema.Schema, bool) {
-	if h, ok := self.getHandler(method); ok && h.schema != nil {
-		return h.schema, true
+	if h, ok := self.getHandler(method); ok {
+		return h.schema, h.schema != nil
 	}
 	for _, child := range self.children {
-		if s, ok := child.GetSchema(method); ok {
-			return s, ok
+		if child.Has(method) {
+			return child.GetSchema(method)
 		}
 	}
 	return nil, false
-- 
2.43.0


From 4fcad17c4121fde812ae1a11bb64db397c5305b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 06/13] fix: the HTTP/1 handler sets the response headers
 before writing the status

---
 http/h1_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..19a3889 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -83,12 +83,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
+		// headers set after WriteHeader() are not sent
 		w.Header().Set("Content-Type", "application/json")
-
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From 84505f21d470986ce084ee137697bbbaea3eab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 07/13] fix: the HTTP/1 client refuses an answer that is
 neither a result nor an error

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..1bde87d 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -164,6 +164,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("server answered with neither a result nor an error")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 9bfd416fa62a6c90de50a7478d58cc5d0dc45cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 08/13] fix: a message that cannot be encoded no longer stops a
 session's writer

---
 http/h2_server.go | 2 +-
 http/ws_server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..b5afc91 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -196,7 +196,7 @@ func (self *H2Session) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..dca7289 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -170,7 +170,7 @@ func (self *WSSession) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From 2219128785fb8b280fd405bcd89ab1ff773113e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 09/13] fix: messages still being handled when a websocket
 session ends no longer hit a nil handler

---
 http/ws_server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index dca7289..4a2edd1 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -66,7 +66,6 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
-- 
2.43.0


From fd9c2c044b6ddc8d2431a68832f5bab3c2ebc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 10/13] fix: two concurrent calls with the same id no longer
 wait under the same key

---
 http/streaming_client.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..a4b202e 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -337,17 +337,16 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 	ch := make(chan jlib.Message, 10)
 
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
 		expire:        time.Now().Add(time.Second * 10),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+	sendmsg := reqmsg
+	if _, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p); loaded {
+		sendmsg = reqmsg.Clone(jlib.NewUuid())
+		self.pendingRequests.Store(sendmsg.Id, p)
+	}
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
-- 
2.43.0


From 534de3cad893d9102294a18a534f8d26f8a30532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 11/13] fix: a streaming call whose request cannot be sent no
 longer stays pending

---
 http/streaming_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index a4b202e..330bebd 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -350,6 +350,7 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
+		self.pendingRequests.Delete(sendmsg.Id)
 		return nil, err
 	}
 	go self.expire(sendmsg.Id, time.Second*10)
-- 
2.43.0


From e49858cf24490670c7e59c856ab68f28b08f36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 12/13] fix: the timeout of a finished call no longer expires a
 later call with the same id

---
 http/streaming_client.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 330bebd..3d10fbc 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -289,19 +289,17 @@ func (self *StreamingClient) handleResult(msg jlib.Message) {
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
+func (self *StreamingClient) expire(k interface{}, pending *pendingRequest, after time.Duration) {
 	// ctx, cancel := context.WithCancel(rootCtx)
 	// defer cancel()
 	select {
 	// case <- ctx.Done():
 	// 	return
 	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+		// a later request may be pending under the same id
+		if self.pendingRequests.CompareAndDelete(k, pending) {
+			timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
+			pending.resultChannel <- timeout
 		}
 	}
 }
@@ -353,7 +351,7 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 		self.pendingRequests.Delete(sendmsg.Id)
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
+	go self.expire(sendmsg.Id, p, time.Second*10)
 
 	resmsg, ok := <-ch
 	if !ok {
-- 
2.43.0


From 77e18e36f84a0f5696640d6ed4d4eae1af186fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 13/13] fix: the serialised form of string, list and tuple
 schemas carries their limits and additional items

---
 schema/schema.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..5e70c40 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0

