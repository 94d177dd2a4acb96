#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Decoding classifies every JSON-RPC message faithfully",
 "A JSON document decodes to an Error message iff it has a non-null error member and no non-null result, to a Result iff it has a non-null result and no error (or only an id), to a Request iff it has a non-empty method, params and a non-null id, to a Notify iff it has a non-empty method and params and no id; every other document is refused with an error and no message. "
 "The decoded message carries exactly the document's id (integer or string), method, params, result, error code/message/data and trace id, with numbers inside params, result and error data kept in their exact textual form. "
 "Decoding never panics.",
 ["inputs"], "every JSON document: any combination of members, any member value, any nesting",
 "message_test.go decodes about a dozen literal messages; the combinations of present/absent/null/ill-typed members and the number forms are unbounded.",
 ["parse.go", "messageimpl.go", "types.go"],
 [("DecodeMessage", "parse.go"), ("decodeId", "parse.go"), ("decodeParams", "parse.go"), ("msgUnion json tags", "parse.go")],
 ["ParseBytes", "DecodeMessage"])

prop("C02", "Encoding then decoding a message gives the same message back",
 "For every message of the four kinds whose values are JSON-representable, decoding its encoded bytes gives a message of the same kind with the same id (integer or string), method, params, result, error code/message/data and trace id, where a single object given as params stays an object on the wire and a list stays a list. "
 "The encoding always carries jsonrpc \"2.0\", and carries a traceid member only when the trace id is non-empty.",
 ["inputs"], "every id, method, params value, result, error and trace id",
 "tests round-trip a few literal messages; the property needs encoder and decoder to agree for all values.",
 ["messageimpl.go", "parse.go", "types.go"],
 [("Interface", "messageimpl.go"), ("MessageBytes", "messageimpl.go"), ("template structs' json tags", "types.go"), ("DecodeMessage", "parse.go")],
 ["MessageBytes", "MessageString", "ParseBytes"])

prop("C03", "Message kind predicates and Must accessors agree with the kind",
 "For every message exactly one of IsRequest, IsNotify, IsResult and IsError is true and it matches the way the message was built or decoded; IsRequestOrNotify and IsResultOrError are exactly the corresponding disjunctions. "
 "Each Must accessor returns the field the message was built with when the kind has that field and panics with the wrong-message-type error when it does not. "
 "Constructing a request without an id, or a request or notify with an empty method, panics instead of producing a message, and nil params mean an empty list.",
 ["inputs"], "every kind and every field value",
 "tests assert the predicates on a few instances of each kind.",
 ["messageimpl.go", "types.go"],
 [("BaseMessage predicates", "messageimpl.go"), ("MustId/MustMethod/MustParams/MustResult/MustError", "messageimpl.go"), ("NewRequestMessage/NewNotifyMessage", "messageimpl.go")])

prop("C04", "Derived messages keep identity, trace id and content",
 "A result or error message made from a request (including through an RPC error's conversion) carries that request's id and trace id and exactly the given result or error code, message and data. "
 "Replacing the id of a request, result or error, or cloning a request, yields a new message of the same kind differing only in the id: same trace id, method, params (with the same list-or-object form on the wire), result or error; on a notify it panics. "
 "None of these operations changes the original message, and attaching data to an RPC error leaves the original error untouched.",
 ["inputs"], "every message, id, result and error value",
 "tests look at one or two derived messages and never at whether the source is left untouched for all values.",
 ["messageimpl.go"],
 [("NewResultMessage/NewErrorMessage/ToMessage/ToMessageFromId", "messageimpl.go"), ("Clone/ReplaceId", "messageimpl.go"), ("WithData", "messageimpl.go")])

prop("C05", "Command-line values are guessed to the right JSON value",
 "Guessing the JSON value of a string gives: the empty string for empty input, the boolean for true/false, nil for null, the integer when it parses as a 64-bit integer, otherwise the float when it parses as one, the decoded list, object or string when it starts with [, { or a double quote (with numbers kept exactly, and an error when it does not decode as such), the decoded file contents when it starts with @, and otherwise the input itself unchanged. "
 "Guessing an array applies this to each element in order, giving one value per input, and stops with an error at the first element that fails.",
 ["inputs"], "every input string and every list of strings",
 "utils_test.go tries about a dozen strings.",
 ["utils.go"], [("GuessJson", "utils.go"), ("GuessJsonArray", "utils.go")])

prop("C06", "Big integers survive JSON in exact form",
 "A big integer marshals to a JSON string of its decimal digits, and unmarshalling a decimal number or a quoted decimal string gives exactly that integer, so marshal then unmarshal is the identity for every integer. "
 "Unmarshalling anything that is not a (possibly quoted) decimal integer returns an error instead of silently accepting it, and never panics.",
 ["inputs"], "every big integer and every byte sequence",
 "json_test.go round-trips a couple of literals.",
 ["utils.go"], [("Bigint.MarshalJSON", "utils.go"), ("Bigint.UnmarshalJSON", "utils.go"), ("Bigint.Load", "utils.go")])

prop("C07", "Method name validity is exactly the documented grammar",
 "A name is a method name iff it is non-empty and consists only of ASCII letters, digits and the characters - _ : + . "
 "A name is a public method name iff it does not start with \"rpc.\", starts with an ASCII letter or digit and continues only with letters, digits and the characters - _ : + . / \\ & #.",
 ["inputs"], "every string",
 "utils_test.go checks a handful of names.",
 ["validators.go"], [("IsMethod", "validators.go"), ("IsPublicMethod", "validators.go")])

prop("C08", "A schema accepts a value exactly when the value conforms to it",
 "Validation of a value against a well-formed schema returns no error iff the value conforms: any accepts all; null, bool, number, integer, string accept that JSON type within the inclusive/exclusive bounds or length limits; anyOf, allOf and not mean some, every and not; a list accepts lists within the item limits whose every item conforms; a tuple positionally with the extra items allowed only by and conforming to its additional schema; an object accepts maps whose present declared properties conform, whose required properties are present, and whose undeclared properties conform to the additional schema if there is one; a method schema accepts a message with a params list positionally (likewise for additional params), and any other message with a result by its return schema. A number is a json.Number, an int or (for number schemas) a float64; an integer is an int or a json.Number that fits 64 bits; string limits count bytes. "
 "Validation never modifies the schema or the value, and never panics on a value; validating a text judges the value it decodes to, and panics only on text that is not JSON.",
 ["inputs"], "every well-formed schema of any depth and every JSON value",
 "schema_test.go validates a few values per schema kind; boundary values, combinations and nesting are unbounded.",
 ["schema/schema.go", "schema/validator.go", "schema/convert.go"],
 [("Scan of every schema kind", "schema/schema.go"), ("checkRange", "schema/schema.go"), ("SchemaValidator.Scan", "schema/validator.go"), ("ScanParams/ScanResult", "schema/schema.go")])

prop("C09", "Validation errors point at the failing place and leave the validator clean",
 "When validation fails, the reported path is the path from the root to a value that really violates the schema placed there: list, tuple and params positions as [i] (the first failing position), object properties as .name, method parts as .params and .result; for anyOf and not it is the place of the composite itself. "
 "After every validation, successful or not, the validator is back in the state it had before, so it can be reused, and an already returned error's path never changes because of later validations.",
 ["inputs", "histories"], "every schema, value and sequence of validations with one validator",
 "tests check a few literal error paths with fresh validators.",
 ["schema/validator.go", "schema/schema.go"],
 [("pushPath/popPath", "schema/validator.go"), ("NewErrorPos", "schema/validator.go"), ("Scan of every schema kind", "schema/schema.go")])

prop("C10", "Building a schema yields exactly the described schema or an error",
 "Building from a description either fails with an error and no schema, or yields a schema of the described type with exactly the described name, description, bounds, limits, exclusivity flags, items, choices, params, returns, properties, required names and additional schema, nested to any depth and in the described order. "
 "It is refused when the type is missing (and cannot be inferred) or unknown, a required part (items, choices, not, params) is missing or malformed, a child is not a schema description, a name or description is not a string, or a required property is not declared. "
 "Building never panics.",
 ["inputs"], "every description value of any depth",
 "schema_test.go builds a few literal descriptions.",
 ["schema/builder.go", "schema/convert.go"],
 [("buildNodeMap and the build*Schema functions", "schema/builder.go"), ("convertAttr* and convertTypeMap", "schema/convert.go")])

prop("C11", "A schema's serialised form carries every one of its constraints",
 "The map a schema serialises to has the schema's type name, its name and description when non-empty, every bound together with its exclusivity flag, every length and item limit, and the serialised forms of all its items, choices, params, returns, properties and additional schema in order, and the names of all required properties; absent constraints are absent. "
 "Serialising does not modify the schema.",
 ["inputs"], "every well-formed schema",
 "tests rebuild a few schemas and compare; constraints they do not use go unnoticed.",
 ["schema/schema.go"], [("Map of every schema kind", "schema/schema.go"), ("rebuildType", "schema/schema.go")])

prop("C12", "Schema equality means same kind, constraints and children",
 "Two schemas are equal iff they are of the same kind, have the same name and description, the same constraints (present with equal value, or absent in both), and pairwise equal children (same length and order for lists, same keys for objects, same required names, same additional/return schema); a list or map that is missing (nil) is not equal to an empty one.",
 ["inputs"], "every pair of well-formed schemas",
 "tests compare a few schemas with their rebuilt selves and hardly any unequal pairs.",
 ["schema/schema.go"], [("Equal of every schema kind", "schema/schema.go"), ("SchemaListEqual, SchemaMapEqual, SchemaMapValueEqual, SubSchemaEqual, PointerEqual", "schema/schema.go")])

prop("C13", "Each message reaches exactly the handler it should",
 "For a request or notify, an actor calls its own handler of that method if it has one; otherwise it hands the message to the first child that has a handler for it; otherwise it calls its missing handler; otherwise it answers a request with method-not-found carrying the request's id and trace id and drops a notify. "
 "At most one handler is called, exactly once, with the message's params; result and error messages only ever reach the missing handler. "
 "When schema validation is on and the handler has a schema, the handler is called only if the message conforms to it; otherwise a request is answered with the invalid-schema error carrying its id and a notify gives an error.",
 ["inputs", "configurations"], "every actor tree, every registration, every message",
 "tests feed a few messages through one- or two-level actors.",
 ["http/request.go"], [("Actor.Feed", "http/request.go"), ("Actor.Has", "http/request.go"), ("recoverCallHandler/recoverCallMissingHandler", "http/request.go")])

prop("C14", "Handler outcomes map to the right response",
 "For a request, a handler's plain result becomes a result message with the request's id and trace id, a returned message is passed through unchanged, a JSON-RPC error (also wrapped) becomes an error message with its code, message and data and the request's id and trace id, a wrapped upstream response is passed to the caller as an error, any other error becomes an internal error response that does not expose it. "
 "For any other message no response is produced and the handler's error is returned. "
 "When panic recovery is on, a panic with an error value gives the same outcome as returning that error, other panics propagate, and with recovery off every panic propagates.",
 ["inputs", "fault_sequences"], "every handler outcome (value, error of any wrapping, panic) and every message",
 "tests exercise a handful of outcomes.",
 ["http/request.go"], [("Actor.wrapResult", "http/request.go"), ("recoverCallHandler", "http/request.go"), ("recoverCallMissingHandler", "http/request.go")])

prop("C15", "The method registry reflects exactly what was registered",
 "Registering a method makes exactly that method available with that handler and schema; registering an already registered method, or a second missing or close handler, is refused and leaves the first in place; unregistering removes exactly that method. "
 "An actor has a method iff it or one of its descendants has it registered, its method list is exactly those names, and the schema it reports for a method is the one of the handler that would serve it. "
 "Closing calls every descendant's close handler and its own exactly once.",
 ["inputs", "histories"], "every sequence of registrations and every actor tree",
 "tests register a few methods.",
 ["http/request.go"], [("On/OnRequest/OnContext/OnTyped*", "http/request.go"), ("Off", "http/request.go"), ("Has/MethodList/GetSchema", "http/request.go"), ("HandleClose", "http/request.go")])

prop("C16", "Typed handlers get their arguments in order or a params error",
 "A function is accepted as a typed handler iff it is a function with exactly two results of which the second is an error (and, where a request or context first argument is demanded, has it). "
 "Calling it passes the request or context when demanded and then the params converted in order, one per declared argument; too few params or a param that does not convert give an invalid-params error without calling the function; the function's error is returned as is, and its result otherwise.",
 ["inputs", "programs"], "every function type and every params list",
 "tests wrap a few function types.",
 ["http/typewrap.go"], [("wrapTyped", "http/typewrap.go"), ("interfaceToValue", "http/typewrap.go"), ("valueToInterface", "http/typewrap.go")])

prop("C17", "Authentication gates every request and attaches the right identity",
 "With an auth configuration, the wrapped handler is called, once, iff the request carries a valid JWT, or a configured basic username and password pair, or a configured bearer token; otherwise the reply is status 401 and the wrapped handler is never called; without a configuration every request passes. "
 "The identity attached to the request is that of the credential that matched: the JWT's username and settings, the basic user and its settings, or the bearer entry's username (the token itself when it has none) and settings. "
 "No Authorization header, however malformed, makes it panic.",
 ["inputs", "configurations"], "every configuration and every request header",
 "tests try one configuration of each kind with one good and one bad credential.",
 ["http/auth_handler.go"], [("AuthHandler.TryAuth", "http/auth_handler.go"), ("AuthHandler.jwtAuth", "http/auth_handler.go"), ("AuthHandler.ServeHTTP", "http/auth_handler.go")])

prop("C18", "An expired or unverified JWT is never accepted, cached or not",
 "A bearer JWT is accepted only if it was verified with the configured secret, now or when it entered the cache, and its expiry is not before now at the time of this request. "
 "A token enters the cache only after it was verified and found unexpired, under the header it came in, and an expired cached token is refused and evicted.",
 ["inputs", "histories"], "every token, every cache content and every time",
 "the test sends one token once; expiry of a cached token is never reached.",
 ["http/auth_handler.go"], [("AuthHandler.jwtAuth", "http/auth_handler.go"), ("jwtCache", "http/auth_handler.go")])

prop("C19", "The HTTP/1 endpoint answers every request with the right status and body",
 "A non-POST request gets 405 and an unreadable or undecodable body 400, without any handler being called; a decodable message is fed to the actor exactly once. "
 "A response message gives status 200, Content-Type application/json, the message's trace id in X-Trace-Id when non-empty and the encoded message without it as body (an internal-error response if it cannot be encoded); no response gives an empty 200; a simple response error gives its code and body; a wrapped upstream response gives that response's status, headers and body; any other error gives 500. "
 "The status is written exactly once and before the body.",
 ["inputs"], "every HTTP request, message and actor outcome",
 "tests make a few calls through the stock client, which ignores headers and most failures.",
 ["http/h1_server.go", "utils.go"], [("H1Handler.ServeHTTP", "http/h1_server.go"), ("ErrorResponse", "utils.go")])

prop("C20", "The HTTP/1 client returns the server's answer or an error",
 "A call POSTs the encoded request, with the request's trace id in X-Trace-Id, the JSON content type and the extra headers, exactly once, and returns the decoded result or error message with the request's trace id; a transport failure, a timeout, a non-200 status (carrying status and body), or an undecodable or non-response body gives an error and no message, never a panic. "
 "Unwrapping a call decodes the result into the output or returns the error message's error.",
 ["inputs", "fault_sequences"], "every request, every server reply and every transport failure",
 "tests talk to the well-behaved stock server.",
 ["http/h1_client.go"], [("H1Client.request", "http/h1_client.go"), ("H1Client.Send", "http/h1_client.go"), ("UnwrapCall", "http/h1_client.go")])

prop("C21", "A streaming client pairs every response with its own request",
 "Every outstanding call waits under a key no other outstanding call uses and is sent with that key as its id; a response is handed to the call waiting under its id and to no other, at most once, and with the caller's original id restored; a response nobody waits for, and every request or notify from the server, goes to the message handler if there is one. "
 "When the timeout passes first the caller gets the timeout error with its id, and a response and a timeout never both reach it. "
 "If sending fails the call returns the error and no longer waits.",
 ["schedules", "histories"], "every interleaving of calls, responses and timeouts, including calls sharing an id",
 "tests issue calls one after the other or with distinct ids.",
 ["http/streaming_client.go"], [("StreamingClient.request", "http/streaming_client.go"), ("handleResult", "http/streaming_client.go"), ("expire", "http/streaming_client.go"), ("pendingRequests", "http/streaming_client.go")])

prop("C22", "A server session feeds and answers each message exactly once",
 "On a websocket or HTTP/2 session every decodable message is fed to the actor exactly once with the session and the HTTP request attached, and the response it produces, if any, is queued exactly once on that session; a malformed message or an actor error ends the session. "
 "The writer sends every queued message in queue order, each encoded once (newline-terminated on HTTP/2), and a message that cannot be encoded does not stop later messages from being sent. "
 "When the session ends the actor's close callback is called exactly once.",
 ["inputs", "histories", "fault_sequences"], "every sequence of messages, responses and write outcomes of a session",
 "tests run a few well-formed exchanges.",
 ["http/ws_server.go", "http/h2_server.go"],
 [("WSSession.msgBytesReceived/recvLoop/sendLoop", "http/ws_server.go"), ("H2Session.msgReceived/recvLoop/sendLoop", "http/h2_server.go"), ("ServeHTTP", "http/ws_server.go, http/h2_server.go")])

prop("C23", "Connections and URLs are routed to the right protocol",
 "The gateway sends every request to exactly one handler: HTTP/2 requests and h2c upgrades to the HTTP/2 handler, other websocket upgrades to the websocket handler and everything else to the HTTP/1 handler; the HTTP/2 handler serves requests below HTTP/2 through the HTTP/1 handler of the same actor unless it runs h2c. "
 "A client is made for a URL by its scheme: http and https give the HTTP/1 client, ws and wss the websocket client, h2 and h2c the HTTP/2 client on https and http respectively; any other scheme or an unparsable URL is an error.",
 ["inputs"], "every request line, Upgrade header and URL",
 "tests exercise one URL per scheme.",
 ["http/gateway_handler.go", "http/client_factory.go", "http/h2_server.go", "http/h2_client.go"],
 [("GatewayHandler.ServeHTTP", "http/gateway_handler.go"), ("NewClient", "http/client_factory.go"), ("NewH2Client", "http/h2_client.go"), ("H2Handler.ServeHTTP", "http/h2_server.go")])

prop("C24", "Configuration values are validated and header flags parsed exactly",
 "An auth configuration is valid iff every bearer entry has a token, every basic entry has a username and a password, and a JWT section, if present, has a secret; a TLS configuration is valid iff both file names are non-empty. "
 "Header flags parse to exactly the headers given as name=value (split at the first =, surrounding spaces trimmed, repeated names accumulate in order) and fail if any flag has no =.",
 ["inputs", "configurations"], "every configuration and every list of flags",
 "tests validate a couple of configurations and parse one flag list.",
 ["http/auth_handler.go", "http/server_utils.go", "http/client_util.go"],
 [("AuthConfig.ValidateValues", "http/auth_handler.go"), ("TLSConfig.ValidateValues", "http/server_utils.go"), ("HeaderFlags.Parse", "http/client_util.go")])

prop("C25", "Shared state of clients and sessions is free of data races",
 "No two goroutines access the same field of a streaming client, transport or session without synchronisation, under any schedule of calls, pushes, closes and reconnects.",
 ["schedules"], "every interleaving", "the tests do not run under the race detector and take one schedule each.",
 ["http/streaming_client.go", "http/ws_client.go", "http/h2_client.go", "http/ws_server.go", "http/h2_server.go"],
 [("connectLock", "http/streaming_client.go")])

prop("C26", "A closed connection promptly fails every outstanding call",
 "When a streaming connection is lost or closed, every outstanding call and every waiter returns, with an error, in bounded time, and the session's goroutines end.",
 ["schedules", "fault_sequences"], "every point at which the connection can be lost", "liveness over all schedules is out of reach of example runs.",
 ["http/streaming_client.go", "http/ws_server.go", "http/h2_server.go", "http/server_utils.go"],
 [("Reset/handleError", "http/streaming_client.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
