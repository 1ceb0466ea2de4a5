#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SRV = "pkg/server/rpc.go"; SSTR = "pkg/server/stream.go"; CRPC = "pkg/client/rpc.go"
CMUL = "pkg/client/multi.go"; CSTR = "pkg/client/stream.go"; CLI = "pkg/client/client.go"
STR = "internal/stream/stream.go"; LOC = "internal/bus/bus_local.go"; NATS = "internal/bus/bus_nats.go"
RED = "internal/bus/bus_redis.go"; SUB = "internal/bus/subscription.go"; SER = "internal/bus/serialization.go"

prop("P01", "A handler's error reaches the caller intact and is never a success",
 "When a handler returns an error that has a code or a message, every caller waiting for that request receives an error with that code, message and details (gRPC statuses are translated, plain errors become code unknown), and never a successful result. When the handler succeeds the caller receives the handler's value and no error; a payload that cannot be encoded or decoded yields an error, never an empty success. A server publishes exactly one response for each request its handler finished, addressed to the requesting client and carrying that request's id.",
 ["inputs"], "For every error value (psrpc, gRPC, wrapped, plain, with empty message), every response value, and every outcome of encoding/decoding, for single and multi requests.",
 "Tests sample a handful of error values; the branch structure of encoding an error on the server and decoding it on the client has to agree for all of them.",
 [SRV, CRPC, CMUL, "errors.go"],
 [("response construction", SRV + ":sendResponse"), ("single response decoding", CRPC + ":newRPC"), ("multi response decoding", CMUL + ":handleResponses")],
 observe=["arguments of the response publication", "results returned to the caller / delivered on the multi channel"])

prop("P02", "Error codes map to HTTP, gRPC and Twirp by one fixed table",
 "Every defined error code has a defined HTTP status, gRPC code and Twirp code, the same as documented today, and any unknown code maps to the generic server-error/unknown value. Every canonical gRPC code converts to the error code that converts back to it. An error's HTTP status, gRPC status (with message and details) and Twirp error are those of its own code.",
 ["inputs"], "For every error code (the 22 declared ones and any other string) and every gRPC code (the 17 canonical ones and any other number).",
 "Tests check a few codes; a swapped or missing arm in one of four switch tables goes unnoticed for the others.",
 ["errors.go"], [("tables", "errors.go:ToHTTP, ToGRPC, ToTwirp, ErrorCodeFromGRPC"), ("error object", "errors.go:psrpcError")])

prop("P03", "A request needing a claim runs only on the server it was granted to",
 "For a method that requires claiming, a server invokes the handler (or opens the stream to it) only after it has published its claim and received the client's grant naming this very server for this very request. If its affinity function returned a negative value, if publishing the claim failed, if the grant named another server, or if the request expired while waiting, the handler is not invoked. The claim carries the affinity its affinity function computed (1 when there is none), its own server id, and the request's id.",
 ["inputs", "schedules", "histories"], "For every affinity value, claim outcome and arrival order of grants, for unary and stream requests.",
 "The single-process tests never deliver a foreign grant, a late grant or a failed claim publication at the deciding moment.",
 [SRV, SSTR], [("unary claim", SRV + ":claimRequest, handleRequest"), ("stream claim", SSTR + ":claimRequest, handleOpenRequest")],
 [("claims", "request id to the channel its grant is delivered on", SRV + ":rpcHandlerImpl.claims")])

prop("P04", "A client grants each request to at most one server, one that claimed it",
 "For one request a client publishes at most one grant, only for methods that require claiming and only when server selection succeeded. The grant names the server selection returned and carries the id of the request it published. A client whose selection failed, was cancelled or timed out publishes no grant.",
 ["schedules", "inputs", "histories"], "For every sequence of claims, timeouts and cancellations during selection, for unary requests and streams.",
 "Tests cover a few claim sequences on one bus; a second grant needs a particular interleaving.",
 [CRPC, CSTR], [("grant", CRPC + ":newRPC"), ("stream grant", CSTR + ":OpenStream")])

prop("P05", "Server selection follows the documented affinity rules",
 "Selection returns immediately the first acceptable claim when accept-first is set or the claim reaches the maximum affinity, never selects a server whose affinity is below a set minimum, and otherwise returns the highest affinity claimed (or what the custom selection function returns) once the affinity or short-circuit timeout elapses. The short-circuit timer is started by the first acceptable claim and only once. With no acceptable claim the result is an error: cancellation if the caller cancelled, else the server-reported error, else unavailable.",
 ["inputs", "schedules", "configurations"], "For every selection configuration and every sequence of claims, error responses and timeouts.",
 "Tests run nine fixed claim scripts; the decision rule has to hold for every sequence.",
 [CRPC], [("selection loop", CRPC + ":selectServer")])

prop("P06", "An expired request is never handled and deadlines propagate",
 "A server starts handling a request, stream open or stream message only if its expiry is still in the future, and a client ignores expired stream messages. A unary handler's context carries the request's expiry as its deadline. A client stamps every request with an expiry equal to its timeout from now, never later than the caller's own context deadline.",
 ["inputs", "schedules"], "For every expiry, clock reading, request timeout and context deadline, over unary, multi and stream requests.",
 "Tests use fixed timeouts far from the boundary and never delay a message past its expiry.",
 [SRV, SSTR, CRPC, CMUL, CSTR], [("server gate", SRV + ":run"), ("server stream gate", SSTR + ":run"), ("client stream gate", CSTR + ":runClientStream"), ("client stamp", CRPC + ":newRPC")])

prop("P07", "Every client call ends by its timeout, deadline or cancellation",
 "A unary request, a stream open and a stream send each return no later than their timeout or their context's end, whatever servers do, and a multi request's response channel is closed by then. On timeout the error is the deadline-exceeded request error and on cancellation the canceled request error, and never a success. Calls made on a closed client are refused with the client-closed error without publishing anything.",
 ["schedules", "fault_sequences", "inputs"], "For every behaviour of servers and the bus (silence, duplicates, late replies), every timeout and cancellation moment.",
 "Tests exercise one silent server and one timeout; blocking somewhere else in the path is not sampled.",
 [CRPC, CMUL, CSTR, STR], [("unary wait", CRPC + ":newRPC"), ("selection wait", CRPC + ":selectServer"), ("multi wait", CMUL + ":handleResponses"), ("stream open wait", CSTR + ":OpenStream"), ("stream send wait", STR + ":Send")])

prop("P08", "One stalled request or stream cannot block a client's or server's others",
 "The loop that distributes a client's claims, responses and stream messages, and the loop that distributes a server handler's requests and grants, never wait indefinitely on a single request: each hand-over either succeeds at once, is abandoned when that request or stream ends, or is dropped. Handlers run outside the server's distribution loop. A request that stopped reading its messages releases the loop.",
 ["schedules"], "For every interleaving of arriving messages with requests that finish, time out, or stop reading.",
 "A stall needs a full channel at the moment a request is abandoned, which no test arranges.",
 [CLI, CRPC, CMUL, CSTR, SRV, SSTR], [("client dispatch", CLI + ":NewRPCClient"), ("server dispatch", SRV + ":run"), ("server stream dispatch", SSTR + ":run")])

prop("P09", "Per-request state is released however the request ends",
 "When a unary request, multi request, stream open, stream, stream send or server-side claim ends, by any path, everything registered for it (response, claim, stream and acknowledgement routing entries, deadline timers) is removed. Nothing belonging to another request is removed.",
 ["schedules", "histories", "fault_sequences"], "For every exit path: success, error, timeout, cancellation, publish failure.",
 "Leaks on error exits are invisible to tests that only look at results.",
 [CRPC, CMUL, CSTR, STR, SRV, SSTR], [("client registration", CRPC + ":newRPC"), ("multi registration", CMUL + ":Send, Close"), ("stream registration", CSTR + ":OpenStream, clientStream.Close"), ("acks", STR + ":Send"), ("server claims", SRV + ":claimRequest"), ("server streams", SSTR + ":serverStream.Close")])

prop("P10", "A reply can never arrive before its receiver is registered",
 "A client registers where responses, claims, stream messages and acknowledgements of a request are delivered before it publishes that request, under the id it publishes. A server registers where the grant is delivered before it publishes its claim, and registers a stream before acknowledging its opening. Client and server subscribe to a channel before anything that triggers replies on it.",
 ["schedules"], "For every relative speed of the client, the bus and the servers.",
 "With the in-memory bus the reply is always slower than the registration, so no test sees the lost reply.",
 [CRPC, CMUL, CSTR, STR, SRV, SSTR], [("unary", CRPC + ":newRPC"), ("multi", CMUL + ":Send"), ("stream", CSTR + ":OpenStream"), ("stream send", STR + ":Send"), ("server claim", SRV + ":claimRequest"), ("server stream", SSTR + ":handleOpenRequest")])

prop("P11", "A stream send succeeds only if the peer accepted the message",
 "A stream acknowledges a message only after it was decoded and accepted into the receiver's channel; a message dropped for a slow consumer, undecodable or refused by an interceptor is never acknowledged. Send returns success only after that message's own acknowledgement arrived, and an error otherwise: the close cause or a cancellation error if the stream ended, timed out at its timeout. An acknowledgement wakes exactly the send, or open, whose id it carries.",
 ["schedules", "inputs", "histories"], "For every interleaving of sends, acknowledgements, slow consumers, timeouts and closes.",
 "Tests only acknowledge promptly and in order.",
 [STR, CSTR, SSTR], [("receive path", STR + ":HandleStream"), ("send path", STR + ":Send"), ("open ack", SSTR + ":handleOpenRequest")])

prop("P12", "A stream's receive channel is closed exactly once, with no write after",
 "A stream's receive channel is closed exactly once, when the stream closes locally or by the peer, and no message is written to it after that. Closing a stream, from any side and any number of times, never panics. A local close waits for the deliveries in progress before closing the channel.",
 ["schedules"], "For every interleaving of local close, remote close, context cancellation and message delivery.",
 "The double close or send-on-closed panic needs two racing goroutines.",
 [STR, CSTR], [("close", STR + ":Close, HandleStream"), ("pending", STR + ":addPending, setClosed")],
 [("closed", "set once under the stream's lock", STR + ":streamBase.closed")])

prop("P13", "The cause of a stream's close reaches both sides and is final",
 "Closing a stream sends the peer the code and message of the cause (stream closed when none was given) and later sends, closes and the error accessor on both sides report that first cause. The stream's context is cancelled on both sides and the peer's close is not answered with another close. When a stream handler returns, its error is the close cause unless the stream was hijacked.",
 ["schedules", "inputs", "histories"], "For every cause and every order of local and remote closes.",
 "Tests check one cause on one side.",
 [STR, SSTR], [("close", STR + ":Close"), ("remote close", STR + ":HandleStream"), ("first cause", STR + ":setClosed"), ("handler return", SSTR + ":handleOpenRequest")])

prop("P14", "Closing a bus subscription is safe against concurrent delivery",
 "Closing a subscription while messages are being delivered neither panics (no write to a closed channel) nor deadlocks, for every bus. A delivery blocked on a full subscription is released by closing that subscription. After a subscription is closed its reader ends.",
 ["schedules"], "For every interleaving of publish, delivery, subscribe and close, on the local, Redis and NATS buses.",
 "Only the local bus is exercised, without closing under load.",
 [LOC, RED, NATS, SUB], [("local", LOC + ":Close, write"), ("redis", RED + ":Close, write, readWorker"), ("nats", NATS + ":natsSubscription.Close, natsRouterSubscription.Close")])

prop("P15", "A queue message goes to exactly one of the queue's subscribers",
 "A message published to a queue is handed to exactly one live queue subscriber of a process, even if other subscribers were closed, and to none only if there are none. Across processes the Redis bus lets only the subscriber that took the message's lock deliver it, and the NATS bus subscribes all processes in one shared queue group. Methods declared as queues are subscribed as queues, others as plain subscriptions.",
 ["histories", "schedules", "configurations"], "For every history of subscribing, closing and publishing.",
 "Tests sample one subscriber layout; removed subscribers and wrap-around of the round-robin are not reached.",
 [LOC, RED, NATS, SRV], [("local", LOC + ":dispatch"), ("redis", RED + ":dispatchQueue, read"), ("nats", NATS + ":SubscribeQueue, natsRouter.write"), ("method flag", SRV + ":newRPCHandler")])

prop("P16", "A broadcast message goes to every subscriber of its channel",
 "A message published on a channel is handed to every plain subscription open on that channel, and to none on other channels, independent of the other subscriptions' state. A subscription added while others were removed is not lost.",
 ["histories", "schedules"], "For every history of subscribing, closing and publishing on each bus.",
 "Tests use at most two subscribers and never reuse a freed slot.",
 [LOC, RED, NATS], [("local", LOC + ":dispatch, create, Publish"), ("redis", RED + ":dispatch, readWorker"), ("nats", NATS + ":natsRouter.write")])

prop("P17", "Messages on one channel are delivered in the order published",
 "Messages published in sequence on one channel are handed to each of its subscribers in that sequence. In particular a channel's messages are never spread over several workers or goroutines, and batches keep their order.",
 ["schedules", "histories"], "For every sequence of publishes to a channel, on the local and Redis buses.",
 "Order only breaks under concurrency between workers, which depends on the scheduler.",
 [RED, LOC, SUB], [("publish queues", RED + ":Publish, worker"), ("read worker", RED + ":readWorker"), ("local", LOC + ":Publish, dispatch"), ("decoder", SUB + ":newSubscription")])

prop("P18", "Client and server use matching channels and message types",
 "For each kind of message (request, claim, grant, response, stream to server, stream to client) the channel the sender publishes on is the channel the receiver subscribes to, computed from the same service, method, topic and peer id, and the message type published is the type subscribed. Replies go to the id the request named as its origin.",
 ["configurations", "inputs"], "For every service, method, topic and client id, unary and stream.",
 "Tests always run both sides together on one bus type, with one legacy channel namespace.",
 [SRV, SSTR, CRPC, CMUL, CSTR, CLI, "pkg/info/channels.go"], [("server subscribe", SRV + ":newRPCHandler"), ("server stream subscribe", SSTR + ":newStreamRPCHandler"), ("client subscribe", CLI + ":NewRPCClient")])

prop("P19", "Channel names separate kinds, topics and queues and use safe characters",
 "Every topic, service and method component placed in a legacy channel name, and every topic component of a server channel name, is escaped to letters, digits, underscore and a fixed escape form, so user data cannot introduce a separator. The name includes the service, the method (in the legacy name and the local part), all topic components in order, and a suffix specific to the message kind, so two different kinds of message of one method never share a channel. A queue method's request channel differs from the non-queue one.",
 ["inputs", "configurations"], "For every service, method, topic list and character.",
 "A test checks a dozen literal names.",
 ["pkg/info/channels.go"], [("formatting", "pkg/info/channels.go:formatChannel, formatServerChannel, appendSanitizedChannelPart"), ("kinds", "pkg/info/channels.go:Get*Channel")])

prop("P20", "Graceful shutdown waits for every accepted request",
 "A non-forced server shutdown returns only after every unary request a handler had accepted has been handled and its response published, and after every open stream has been closed with the end-of-stream error; no request arriving later is handled. A forced shutdown does not wait for handlers. Either way each handler's subscriptions are closed and the handler is removed.",
 ["schedules", "histories"], "For every interleaving of request arrival, handling, stream opening and shutdown.",
 "The accepted-but-not-started window is a few instructions wide.",
 ["pkg/server/server.go", SRV, SSTR], [("server close", "pkg/server/server.go:Close"), ("unary close", SRV + ":close, run"), ("stream close", SSTR + ":close, handleOpenRequest")])

prop("P21", "Handler registration is atomic, unique and refused after shutdown",
 "At most one handler is registered per method and topic at any time, however many registrations race; a second one is refused with an error and leaves the first untouched. After shutdown began, registration is refused with the server-closed error and no handler survives shutdown. A failed registration leaves no subscription open and nothing registered, and deregistration frees exactly its own method and topic.",
 ["schedules", "histories", "fault_sequences"], "For every interleaving of register, deregister and shutdown, and every subscription failure.",
 "Races between check and insert need precise timing.",
 ["pkg/server/server.go", SRV, SSTR], [("registration", "pkg/server/server.go:RegisterHandler, RegisterStreamHandler"), ("construction", SRV + ":newRPCHandler"), ("construction (stream)", SSTR + ":newStreamRPCHandler")])

prop("P22", "Registering a group of topics is all-or-nothing",
 "Registering all topic-bound handlers of a service group either registers every one or, on the first failure, deregisters those already registered, none other, and returns that failure. Deregistering the group deregisters every member.",
 ["fault_sequences", "programs"], "For every group size and every position of the first failure, in the runtime helper and in generated code.",
 "Tests never make the n-th registration fail.",
 ["pkg/server/registration.go", "protoc-gen-psrpc/generator.go"], [("group", "pkg/server/registration.go:RegistererSlice.Register, Deregister")])

prop("P23", "Interceptors run once each, in order, around the call",
 "Every configured interceptor is invoked exactly once per call (or once per invocation of the wrapping interceptor's continuation), outermost first in configuration order, with per-request interceptors after the client's own; the innermost continuation is the actual call. An interceptor that calls its continuation again re-runs exactly the interceptors after it. Concurrent calls do not share chain position, and an interceptor sees the request and may replace the context, result and error its continuation gets and returns.",
 ["inputs", "schedules", "configurations"], "For every number of interceptors and every way of calling the continuation, for unary, multi and stream, client and server.",
 "A test chains three well-behaved interceptors once.",
 ["internal/interceptors/interceptor.go", "pkg/client/options.go", SRV, CRPC, CMUL, STR], [("client chain", "internal/interceptors/interceptor.go:ChainClientInterceptors"), ("server chain", "internal/interceptors/interceptor.go:ChainServerInterceptors"), ("merge", "pkg/client/options.go:getRequestInterceptors"), ("server call", SRV + ":newRPCHandler")])

prop("P24", "Request and response hooks run exactly once per request and response",
 "For every unary call on an open client each request hook runs exactly once, in order, before the call, and each response hook exactly once after it with the final response and error, on every exit. For a multi request each request hook runs once before sending and each response hook once per response received, or once with the error when sending fails.",
 ["inputs", "histories"], "For every outcome of the call and number of responses.",
 "Tests check hooks on the success path only.",
 [CRPC, CMUL], [("unary", CRPC + ":RequestSingle"), ("multi", CMUL + ":RequestMulti, handleResponses")])

prop("P25", "Retries respect limit, recoverability and cancellation",
 "The retry middleware stops on the first success and returns it, retries only errors the policy declares recoverable (by default deadline-exceeded, unavailable or unclassified ones), makes at most the configured number of attempts and returns the last attempt's error. Each attempt uses the timeout the policy computed for it, starting at the configured one and growing by the backoff. If the caller's context ends between attempts it stops with the canceled error.",
 ["inputs", "fault_sequences", "configurations"], "For every sequence of attempt outcomes and every policy.",
 "Tests sample three policies with at most three attempts.",
 ["pkg/middleware/retry.go"], [("loop", "pkg/middleware/retry.go:retry"), ("policy", "pkg/middleware/retry.go:getRetryWithBackoffParameters, isTimeout")])

prop("P26", "Metrics report each call, message and close exactly once, with its outcome",
 "The metrics middleware reports exactly one observation per unary call on each side, per multi request sent by the client, per handled request on the server, per stream message sent and received, and exactly one open and at most one close per stream. Each carries the call's own error and sizes: request and response on the proper sides, response and error counts equal to what was received. The call's own result passes through unchanged.",
 ["inputs", "histories", "schedules"], "For every outcome and message sequence, including panicking handlers.",
 "No test of the suite uses the metrics middleware's values.",
 ["pkg/middleware/metrics.go"], [("interceptors", "pkg/middleware/metrics.go")])

prop("P27", "The recovery middleware turns every handler panic into an internal error",
 "With the server recovery middleware installed, a panic of any value in a handler or inner interceptor is caught and returned as an error with code internal; it never crosses the middleware. Without a panic the handler's result and error are returned unchanged.",
 ["inputs"], "For every panic value and every handler result.",
 "One test panics with one string.",
 ["pkg/middleware/recovery.go"], [("recovery", "pkg/middleware/recovery.go:WithServerRecovery")])

prop("P28", "Metadata travels to the handler unchanged and is never shared",
 "The outgoing metadata of the caller's context is what the handler finds in its incoming header, together with the caller's client id and send time, for unary, multi and stream requests. Metadata added later overrides what was added earlier and never changes another context's metadata; callers and handlers never get a map that aliases stored state. Reading metadata from a context without any yields nothing and does not fail.",
 ["inputs", "histories", "programs"], "For every sequence of metadata operations on any contexts, and every key and value.",
 "Aliasing shows only with particular derivation orders of contexts.",
 ["pkg/metadata/metadata.go", CRPC, CMUL, CSTR, SRV, SSTR], [("context metadata", "pkg/metadata/metadata.go"), ("stamp", CRPC + ":newRPC"), ("header", SRV + ":handleRequest")])

prop("P29", "Shared state is accessed under its lock, in one lock order, never left locked",
 "Every map, list or flag shared between goroutines by clients, servers, streams and buses is read and written only while holding its lock (writes exclusively). Every lock taken is released on all paths, no lock is taken twice by the same goroutine, and locks are nested in one global order. No lock is held while waiting for something only its other holders can provide.",
 ["schedules"], "For every interleaving of the public operations.",
 "Race and deadlock windows are not reached by running tests a few times.",
 [CLI, CRPC, CMUL, CSTR, SRV, SSTR, "pkg/server/server.go", STR, LOC, NATS, RED, "pkg/rand/id.go"], [("client state", CLI + ":RPCClient.mu"), ("server state", "pkg/server/server.go:RPCServer.mu"), ("stream state", STR + ":streamBase.mu"), ("bus state", LOC + ":localMessageBus, localSubList")])

prop("P30", "The Redis subscription set converges to what is wanted",
 "Whenever the set of locally wanted channels changes, reconciliation is scheduled for the changed channel, and it subscribes every channel wanted but not subscribed and unsubscribes every channel subscribed but not wanted. A failed subscribe or unsubscribe is retried and is never recorded as done; a change made while reconciling is not lost. A receive error does not end the reader.",
 ["fault_sequences", "schedules", "histories"], "For every history of subscribe/close calls and every sequence of Redis failures.",
 "The Redis tests need a server and are not run; none injects failures.",
 [RED], [("reconcile", RED + ":redisReconcileSubscriptionsOp.run"), ("scheduling", RED + ":subscribe, unsubscribe, reconcileSubscriptions, enqueueWriteOp, writeWorker"), ("reader", RED + ":readWorker")])

prop("P31", "No message from the bus can crash the process",
 "Whatever bytes arrive on a subscribed channel (undecodable, of another message type, empty, with missing fields, unknown ids, or repeated) the client, server, stream and bus code neither panics nor stops serving: bad messages are dropped or answered with an error. In particular no unchecked type assertion, nil dereference, double close or negative count is driven by message content.",
 ["inputs", "histories"], "For every byte string and sequence of messages on every subscribed channel.",
 "Tests only deliver well-formed messages produced by the library itself.",
 [SER, SUB, SRV, SSTR, CLI, CRPC, CMUL, CSTR, STR, NATS, RED], [("decoding", SER), ("typed subscription", SUB + ":newSubscription"), ("server", SRV + ":run, handleRequest"), ("stream", STR + ":HandleStream")])

prop("P32", "Closing a client, server or subscription ends what it started",
 "Closing a client, or the bus ending one of its subscriptions, closes all its bus subscriptions and ends its distribution goroutine, its streams close; any call repeated is harmless. Closing or deregistering a server handler closes its subscriptions and ends its goroutine exactly once even if repeated concurrently. A client whose construction fails leaves no subscription open.",
 ["schedules", "histories", "fault_sequences"], "For every interleaving and repetition of close operations and every construction failure.",
 "Leaked goroutines and subscriptions do not fail tests.",
 [CLI, CSTR, SRV, SSTR, SUB], [("client", CLI + ":NewRPCClient, Close"), ("handlers", SRV + ":close, run"), ("stream handlers", SSTR + ":close, run")])

prop("P33", "Generated client and server code agree on every method",
 "For every service definition, the generated client and server register each method with the same name and the same routing flags, those its options declare, use the same topic components in the same order, and pair each method with its own request and response types and the matching call (unary, multi, stream, subscription). Each implemented method is registered with its own implementation and, when declared, its own affinity function.",
 ["programs", "configurations"], "For every protobuf service with any combination of method options.",
 "The generated fixtures cover a handful of option combinations.",
 ["protoc-gen-psrpc/generator.go", "internal/test/my_service/my_service.psrpc.go"], [("generator", "protoc-gen-psrpc/generator.go")])

prop("P34", "Identifiers are well-formed and generated safely from many goroutines",
 "Every generated client, server, request and stream id has its kind's own prefix followed by twelve characters drawn from letters and digits, fully written before use, and generating ids concurrently never races. Every request, stream and stream message uses a freshly generated id.",
 ["schedules", "inputs"], "For every number of concurrent callers and every random value.",
 "Races in the generator and reuse of an id across calls do not show in functional tests.",
 ["pkg/rand/id.go", CRPC, CMUL, CSTR, STR], [("format", "pkg/rand/id.go:formatID, readIDChars"), ("source", "pkg/rand/id.go:lockedRandSource")])

prop("P35", "Options take effect with documented precedence and defaults",
 "A per-request option overrides the client-wide one, which overrides the default; the request timeout is the client timeout bounded by the context deadline, or the three-second default when none is set. Each option sets exactly its own setting and list options append. Methods with affinity wait for the best claim within the selection timeout, others accept the first.",
 ["configurations", "inputs"], "For every combination of options.",
 "Tests combine two or three options.",
 ["client.go", "server.go", "request.go", "stream.go", "pkg/client/options.go", "pkg/server/options.go", "internal/stream/options.go"], [("request options", "pkg/client/options.go:getRequestOpts"), ("client options", "client.go, pkg/client/options.go:getClientOpts"), ("server options", "server.go, pkg/server/options.go"), ("stream options", "internal/stream/options.go")])

prop("P36", "Tracing spans are linked across the wire and always ended",
 "With the tracing middleware the client injects its span's context into the outgoing metadata of the very call it wraps and the server starts its span from the incoming metadata's context. Every started span is ended exactly once on every path, including panics, and records the call's error. The call's result is passed through unchanged and existing outgoing metadata is kept.",
 ["inputs", "histories"], "For every call outcome and metadata.",
 "One test covers one successful call.",
 ["pkg/middleware/otelpsrpc/otel.go"], [("client", "pkg/middleware/otelpsrpc/otel.go:ClientOptions"), ("server", "pkg/middleware/otelpsrpc/otel.go:ServerOptions")])

prop("P37", "A method's registered routing flags decide how its requests are routed",
 "The affinity, multi, claim and queue flags a method was registered with are the ones every later request, subscription and channel for that method uses, together with its own service, method and topic. Claims are exchanged exactly for methods registered as requiring them, and queue subscription is used exactly for methods registered as queues.",
 ["configurations"], "For every combination of flags and every method.",
 "Generated fixtures use few flag combinations, and swapped flags often still work on one bus.",
 ["pkg/info/info.go", SRV, SSTR, CRPC, CSTR], [("lookup", "pkg/info/info.go:RegisterMethod, GetInfo"), ("claim branch", CRPC + ":newRPC"), ("queue branch", SRV + ":newRPCHandler")])

# not applicable to static analysis
prop("P38", "Random identifiers do not collide",
 "Two identifiers generated anywhere in a deployment are different.",
 ["histories"], "For every set of processes and every number of generated ids.",
 "Collisions are improbable events.", ["pkg/rand/id.go"], [("random ids", "pkg/rand/id.go:formatID")])
prop("P39", "Load is spread evenly over equal servers",
 "Over many requests, servers of equal affinity serve a similar share.",
 ["histories", "schedules"], "For every long run of requests.",
 "A statistical property of runs.", [CRPC, LOC, RED], [("selection", CRPC + ":selectServer"), ("round robin", LOC + ":dispatch")])
prop("P40", "No message is lost while the bus connection stays up",
 "Every message published while connection and subscriptions are up reaches its subscribers, and reconnecting restores delivery.",
 ["fault_sequences", "histories"], "For every fault sequence of the external broker.",
 "Depends on the external Redis or NATS server.", [RED, NATS], [("redis", RED), ("nats", NATS)])
prop("P41", "Timeouts fire on time",
 "A call ends within a small bounded delay of its timeout.",
 ["schedules"], "For every load of the machine.", "A real-time property of the runtime scheduler.", [CRPC], [("timers", CRPC + ":newRPC")])

prop("P42", "A message arrives as it was published",
 "What a bus publishes is a fresh encoding of the message it was given, naming that message's own type and local channel, and what a subscription hands to its user is the new message decoded from the very bytes received, once per delivery and in place of no other. No encoding or decoding failure is reported as success, and no message or payload shares memory with another one.",
 ["inputs", "schedules", "histories"], "For every message, payload, bus and interleaving of publishers and readers.",
 "Tests use the local bus with a few small messages, never a failing encoding, a foreign type or concurrent reuse of buffers.",
 ["internal/bus/serialization.go", SUB, LOC, RED, NATS], [("codec", "internal/bus/serialization.go:serialize, deserialize, SerializePayload, DeserializePayload"), ("publish", "Publish of bus_local.go, bus_redis.go, bus_nats.go"), ("receive", SUB + ":newSubscription, read of each bus")])

prop("P43", "Errors keep cause, code and details and are classified by them",
 "An error built from a code, a cause and details has exactly these: its text and its unwrapping yield that cause, unwrapping also yields its code, and it returns every detail given that can be encoded, in order. Classifying an error reports the code of the psrpc error it is or wraps, else that of its gRPC status, else none. An error rebuilt without a code is unknown, never a success, and each predefined error has its documented code.",
 ["inputs"], "For every error value, wrapping depth, code and list of details.",
 "Tests build a few errors without details and classify none that wrap others or are gRPC statuses.",
 ["errors.go"], [("constructors", "errors.go:NewError, NewErrorf, NewErrorFromResponse"), ("classification", "errors.go:GetErrorCode, (psrpcError).Unwrap, As, DetailsProto"), ("predefined", "errors.go:ErrRequestCanceled .. ErrSlowConsumer")])
prop("P44", "Interceptors on a bus run once each, in order, around the bus",
 "A bus built with interceptors passes every message published through each publish interceptor exactly once, the first given outermost, and then to the bus it wraps; every subscription reads through each subscribe interceptor exactly once, in the same order, made for that subscription's own channel around that subscription's own reader. Errors of the wrapped bus and closing a subscription pass through unchanged. Queue subscriptions stay queue subscriptions.",
 ["inputs", "histories"], "For every number of interceptors, message, channel and subscription.",
 "Tests install one interceptor at a time and never observe the order, a failing bus or two subscriptions.",
 ["internal/bus/bus_interceptor.go", "testutils/bus.go"], [("wrapping", "internal/bus/bus_interceptor.go:NewTestBus, (testBus).Publish, Subscribe, SubscribeQueue, chainSubscribeInterceptors"), ("options", "testutils/bus.go")])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
