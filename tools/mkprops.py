#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only so the text is easy to edit).
import json,os
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":obs or [],"hook_needed":None}})
p("C01","Messages survive the wire unchanged",
 "Whatever message one side puts on the wire, the other side decodes with exactly the same namespace, room, event, body bytes, request token and no-op flag, with ';' allowed anywhere in those fields and in the body. The only texts excluded are namespaces, rooms and events that contain the library's own reserved marker \"@%!\" and an empty body versus a nil one. The transport form is the documented one: seven fields separated by ';' in the order token, namespace, room, event, error flag, no-op flag, body.",
 ["inputs"],"all namespaces, rooms, events, bodies, tokens and flags, both message types",
 "TestMessageSerialization samples a dozen messages; the claim is over all strings, including ';' at every position and bodies that look like headers.",
 ["message.go"],[("escape/unescape, serializeMessage/serializeOutput, DeserializeMessage/deserializeInput, genEmptyReplyToWait","message.go")],
 obs=["Message.Serialize","DeserializeMessage"])
p("C02","Errors and replies cross the wire faithfully",
 "An error put on an outgoing message arrives as an error with the same text (the very same value when it was registered as a known error or recognises the text itself), with no body; Reply(body) arrives as that body and no error. A message without an error never arrives as an error, and an error with non-empty text never arrives as a body.",
 ["inputs","configurations"],"all error values and texts, all sets of registered known errors",
 "Tests send two fixed errors; lookup order, registration and the separation of error and body hold for every text and registry.",
 ["message.go","event.go"],[("serializeOutput, deserializeInput, resolveError, RegisterKnownError, isReply","message.go, event.go")],
 obs=["Message.Err and Message.Body of decoded messages"])
p("C03","Malformed incoming data is contained",
 "No byte sequence received from a peer makes decoding or message handling panic. A payload that is not a well-formed message, on a connection where raw messages are not enabled, fires no handler, changes no namespace or room membership, completes no pending request and sends nothing back.",
 ["inputs"],"all byte sequences and message types, server and client side",
 "Tests only feed well-formed payloads.",
 ["message.go","conn.go"],[("deserializeInput, DeserializeMessage, IsWait, handleMessage","message.go, conn.go")],
 obs=["HandlePayload","startReader"])
p("C04","Raw (native) messages only where enabled",
 "A raw websocket payload is delivered as a native message, with its bytes untouched as the body, only if the connection's handler registers the native-message event on the empty namespace; if that is the only registered handler every payload is delivered that way and nothing else happens on that connection. A message marked native and without a request token is written as exactly its body bytes.",
 ["inputs","configurations"],"all payloads and all handler configurations",
 "Tests use one native-only and one mixed configuration with fixed payloads.",
 ["message.go","conn.go"],[("newConn, deserializeInput, DeserializeMessage, handleMessage, serializeMessage","message.go, conn.go")],
 obs=["OnNativeMessage handler"])
p("C05","Nothing is sent outside joined namespaces and rooms",
 "A message is sent to the peer only while the connection is open, and, except for the namespace connect/disconnect exchange itself, only if this side is connected to the message's namespace, and, when it names a room, only if this side has joined that room (room join and left notices excepted). A message that passes is written exactly once, as one frame of the requested text or binary kind; a message excluded for this very connection is not written, and the call reports whether the write happened.",
 ["inputs","histories","schedules"],"all messages, membership states and interleavings",
 "Tests cover a few permitted sends; refusal has to hold for every message and every membership state.",
 ["conn.go","conn_namespace.go","conn_room.go"],[("canWrite, Write, write, Emit, EmitBinary, Room.Emit","conn.go")],
 state=[("connected namespaces","namespaces this side is connected to","conn.go"),("rooms","rooms joined per namespace","conn_namespace.go")],
 obs=["Socket.WriteText/WriteBinary"])
p("C06","Broadcast reaches exactly the addressed connections",
 "For every connection and every message of a broadcast, independently of the other messages in the same call, the message is handed to that connection's writer once if it is addressed to it, and never if it carries another connection's id in To or the connection is the excluded sender. Excluding by connection, namespace connection or room value, or by id, excludes that sender and nobody else, and the messages are otherwise unchanged and in order, except that a received request that is broadcast is no request any more (its token is not forwarded); the caller's own list is neither modified nor kept.",
 ["inputs","histories"],"all message lists, ids, exclusions, server modes (sync, async, exchange)",
 "Tests broadcast single messages to at most a few clients; lists mixing addressed and unaddressed messages are not covered.",
 ["server.go","broadcaster.go"],[("Broadcast, Exclude, publishMessages, start, waitMessages","server.go")],
 obs=["Conn.Write per connection"])
p("C07","Each event runs exactly one matching handler",
 "An incoming event for a connected namespace runs exactly the handler registered for that event name in that namespace, or, if there is none, the catch-all handler of that namespace if there is one, or nothing; never more than one handler, and always with that namespace's connection and the received message marked as remote. An event for a namespace this side is not connected to runs no handler.",
 ["inputs","configurations"],"all events, namespaces, handler maps",
 "Tests register a few handlers; selection must hold for every map and name, including system event names.",
 ["conn_handler.go","conn.go"],[("fireEvent, handleMessage, tryNamespace, HandlePayload","conn_handler.go, conn.go")],
 obs=["MessageHandlerFunc invocations"])
p("C08","A handler's result answers the request once",
 "When a handler returns a non-nil error (or Reply), exactly one answer goes back to the sender carrying the same request token, namespace, room and event with that error or reply body, and when it returns nil nothing is sent. A request to a namespace this side is not connected to is answered once with the bad-namespace error instead of being left unanswered.",
 ["inputs","configurations"],"all messages and handler results",
 "Tests check a few replies; token, room and error must match for all messages and results.",
 ["conn.go","event.go"],[("handleMessage, tryNamespace, Reply","conn.go")],
 obs=["Conn.Write","Socket.WriteText"])
p("C09","A reply reaches only its own pending request",
 "An incoming reply is handed to the request with the same token that is still pending on that connection (or on its server), and to no other; it never runs an event handler, and late, duplicate or unknown replies are dropped. Delivering a reply never blocks the connection's reader. (A request made from inside an event handler of a client has to read the connection itself while it waits; there the reply is the next message that is one, see the known findings.)",
 ["inputs","histories","schedules"],"all tokens, all orders of replies, timeouts and requests",
 "Tests make one request at a time and never produce a late or duplicate reply.",
 ["conn.go","server.go","message.go"],[("handleMessage, IsWait, waiting message tables","conn.go")],
 state=[("pending requests","token to waiting caller, per connection and per server","conn.go, server.go")],
 obs=["Conn.Ask/Server.Ask results","handler invocations"])
p("C10","Ask registers before sending and always cleans up",
 "A request is registered as pending before it is sent, so no reply can be missed, and by the time Ask returns, for whatever reason, it is no longer pending. Ask returns the reply and its error, or an error as soon as the context ends, the connection closes or the send is refused; it never waits forever on a closed connection.",
 ["schedules","histories","fault_sequences"],"all interleavings of reply, timeout, close and send failure",
 "Tests only see the reply arriving in time.",
 ["conn.go","server.go"],[("Conn.ask, Server.Ask, Close","conn.go, server.go")],
 obs=["Conn.Ask","Server.Ask"])
p("C11","Request tokens are unique and tell their side",
 "No two requests made by one process ever carry the same token, however many are made concurrently. A token made by a client is recognisable as such by both sides and one made by a server never is, so a reply is never mistaken for a request of the other side.",
 ["schedules","histories"],"all numbers and interleavings of requests",
 "Uniqueness over all concurrent calls cannot be sampled.",
 ["message.go"],[("genWait, genWaitStackExchange, IsWait","message.go")],
 obs=["tokens on the wire"])
p("C12","Namespace connect is agreed by both sides",
 "Connect returns a namespace connection only if the namespace is declared locally, the local connect handler allowed it and the peer confirmed; only then does the side count as connected and fire the connected event, once. A connect request from the peer is answered exactly once, with success only if the namespace is declared and the local connect handler allowed it, and with the reason otherwise; a refused or failed connect leaves the side not connected. Connecting twice is idempotent and fires nothing, and a connect whose context ends returns in bounded time.",
 ["inputs","histories","fault_sequences"],"all namespaces, handler decisions, peer answers and prior states",
 "Tests cover the success path and one refusal.",
 ["conn.go"],[("Connect, askConnect, replyConnect, notifyNamespaceConnected","conn.go")],
 obs=["Conn.Connect","Conn.Namespace","OnNamespaceConnect(ed)"])
p("C13","Namespace disconnect is agreed and complete",
 "A local disconnect takes effect only after the peer accepted it, and then the side has left all rooms of that namespace, no longer counts as connected, and fires its disconnect event once; if the peer refuses, nothing changes and the error is returned. A disconnect request from the peer is answered exactly once; on a server the local handler can refuse it, in which case membership is unchanged and the refusal is sent. Other namespaces are untouched.",
 ["inputs","histories","fault_sequences"],"all namespaces, handler decisions, peer answers, both roles",
 "Tests cover one successful disconnect.",
 ["conn.go","conn_namespace.go"],[("askDisconnect, replyDisconnect, Disconnect, DisconnectAll, forceLeaveAll","conn.go")],
 obs=["NSConn.Disconnect","Conn.DisconnectAll","Conn.Namespace"])
p("C14","Room join is agreed by both sides",
 "JoinRoom returns a room only if it was already joined, or the peer confirmed and the local join handler allowed it; then the room is joined and the joined event fires once. A join request from the peer is answered exactly once, with success only if the local join handler allowed it (or it was already joined), and with the handler's error otherwise; a refused join leaves the room not joined and fires no joined event.",
 ["inputs","histories","fault_sequences"],"all room names, handler decisions and peer answers",
 "Tests cover the success path.",
 ["conn_namespace.go","conn_room.go"],[("JoinRoom, askRoomJoin, replyRoomJoin","conn_namespace.go")],
 obs=["NSConn.JoinRoom","NSConn.Room","OnRoomJoin(ed)"])
p("C15","Room leave is agreed and complete",
 "Leaving a room takes effect only after the peer accepted and the local leave handler allowed it: then the room is no longer joined and the left event fires once, after the removal; a refusal leaves it joined and returns the error, and leaving a room that is not joined is an error that sends nothing. A leave request from the peer is answered exactly once, and on a server the handler's refusal keeps the room joined and is sent back. LeaveAll leaves every joined room or reports the first error; other rooms are untouched.",
 ["inputs","histories","fault_sequences"],"all rooms, handler decisions, peer answers, both roles",
 "Tests cover one successful leave.",
 ["conn_namespace.go","conn_room.go"],[("Room.Leave, askRoomLeave, replyRoomLeave, LeaveAll, forceLeaveAll","conn_namespace.go")],
 obs=["Room.Leave","NSConn.LeaveAll","OnRoomLeave/OnRoomLeft"])
p("C16","Close tears everything down exactly once",
 "However many times and from however many goroutines a connection is closed, its teardown runs once: every joined room is left and every connected namespace is disconnected, each firing its forced local events exactly once, pending requests are dropped, waiters on the close notification are released, the server is told once and the network connection is closed. After that nothing is sent on the connection. A connect or join that is still being decided when the connection closes does not take effect afterwards.",
 ["schedules","histories"],"all membership states and all concurrent closers",
 "Tests close idle connections once.",
 ["conn.go","conn_namespace.go","client.go"],[("Close, forceLeaveAll, IsClosed, Client.Close","conn.go")],
 obs=["OnNamespaceDisconnect, OnRoomLeave, OnRoomLeft","Client.NotifyClose","Socket.NetConn().Close"])
p("C17","The server's connection accounting is exact",
 "A connection counts as connected from its admission until its disconnect, exactly once each way, and the total always equals the number of such connections. On the disconnect of a counted connection the disconnect callback fires once (unless the connection was refused at connect and the always-fire option is off) and the message exchange, if any, is told once in every case. Do applies the function once to every counted connection and, when synchronous, returns only afterwards; Close closes them all, once.",
 ["schedules","histories"],"all orders of connects, disconnects, broadcasts and actions",
 "Tests connect a handful of clients and never disconnect a refused one with an exchange.",
 ["server.go"],[("start, Do, Close, GetTotalConnections","server.go")],
 state=[("connections/count","admitted connections","server.go")],
 obs=["GetTotalConnections","OnDisconnect","StackExchange.OnDisconnect","Server.Do"])
p("C18","Admission and handshake",
 "A closed server, a HEAD request and any other non-GET request are refused without upgrading, each with its documented HTTP status and error. A client's Dial succeeds, with the id the server assigned, only after the server's connect callback and exchange accepted the connection; if they refuse, Dial returns an error with their text and the connection is closed. A peer cannot change a server-side connection's id or mark it accepted itself, and the library sends nothing but the handshake answer before that answer (a connect callback that itself sends or connects a namespace thereby accepts). Connections whose only handler is the native one have no handshake.",
 ["inputs","schedules","fault_sequences"],"all requests, callbacks' decisions and peer byte sequences during the handshake",
 "Tests use well-behaved clients and one refusal.",
 ["server.go","client.go","conn.go"],[("Upgrade, Dial, sendClientACK, startReader, handleACK","server.go, client.go, conn.go")],
 obs=["Server.Upgrade","Dial","Client.ID"])
p("C19","Messages before the handshake are kept, in order",
 "Messages that arrive before a connection has completed its handshake are neither dropped nor handled early: once the handshake succeeds each one is handled exactly once, in order of arrival and before any later message, with the message type it arrived with. If the handshake fails none of them is handled. This holds on both sides.",
 ["schedules","histories"],"all sequences of early messages of both types",
 "Tests never send before the handshake.",
 ["conn.go"],[("handleACK, handleQueue, startReader","conn.go")],
 obs=["handler invocations"])
p("C20","Readiness is decided once and seen by every waiter",
 "The readiness verdict of a connection is set once, by the first decision; later decisions change nothing. Every waiter, whether it started before or after the decision and however many there are, returns after the decision with that verdict, and no decision blocks or panics.",
 ["schedules"],"all interleavings of waits and decisions",
 "The losing interleavings are a few instructions wide.",
 ["waiter_once.go"],[("wait, unwait, isReady","waiter_once.go")],
 obs=["Dial return","server handshake answer"])
p("C21","Per-connection store operations are atomic",
 "Set, Get, Increment and Decrement on one connection behave as if executed one at a time: no concurrent increment or decrement is lost. Increment and Decrement add or subtract one to an integer, start from 1 or -1 when the value is absent or not an integer, return the stored value, and touch no other key; Get of an absent key is nil.",
 ["schedules","inputs"],"all keys, values and interleavings",
 "No test runs them concurrently.",
 ["conn.go"],[("Set, Get, Increment, Decrement","conn.go")],
 obs=["Conn.Get"])
p("C22","Shared state is only touched under its lock",
 "Every access to state shared between goroutines (connected namespaces, joined rooms, the store, the early queue, pending requests, processes, the broadcast message, sockets' frame writes) happens while holding the lock that protects it, writes under the exclusive lock, and every lock taken is released on every path, including errors, with no lock taken twice by the same call chain.",
 ["schedules"],"all interleavings",
 "Data races and self-deadlocks depend on schedules; the suite runs a handful.",
 ["conn.go","conn_namespace.go","server.go","process.go","broadcaster.go"],[("mutexes of Conn, NSConn, Server, processes, broadcaster, Socket","conn.go, conn_namespace.go, server.go, process.go, broadcaster.go")],
 obs=["absence of data races and deadlocks"])
p("C23","User callbacks never run under internal locks",
 "Event handlers, server callbacks, functions passed to the library and calls into the socket or the message exchange are made while no internal lock is held that those callbacks could need, so a callback may use any method of the connection, namespace, room and server it was given without deadlocking on that call's own locks.",
 ["schedules","programs"],"all callbacks and all call sites",
 "Tests' callbacks use few methods.",
 ["conn.go","conn_namespace.go","server.go"],[("fireEvent call sites, forceLeaveAll, LeaveAll, DisconnectAll, Close, handleQueue","conn.go, conn_namespace.go")],
 obs=["progress of callbacks"])
p("C24","Handler registration and merging lose nothing",
 "Joining handlers yields, for every namespace, exactly the union of the events of the given handlers, the last registration of an event winning, and modifies none of the given handlers. On registers the callback under exactly that namespace and event and keeps the others, a bare event map serves the empty namespace, and the timeouts of the handler given to New or Dial itself are the ones used for reading and writing.",
 ["inputs","configurations"],"all lists of handlers",
 "Tests join two fixed maps.",
 ["conn_handler.go"],[("JoinConnHandlers, Events.On, Namespaces.On, GetNamespaces, getTimeouts","conn_handler.go")],
 obs=["ConnHandler.GetNamespaces"])
p("C25","Struct handlers register the right events",
 "For a struct handler, a method named like one of the seven namespace and room system events is registered as that system event, any other method under its own name or the name the matcher gives it, and methods the matcher rejects or with another signature are not registered. With an embedded connection field, every namespace connection gets its own instance, holding that connection and the registered value's fields, exported and unexported, before any other of its handlers runs; an injector, if given, makes the instance instead. The events serve the namespace that was set on the handler, else that of its Namespace method, else that of its (or an embedded struct's) Namespace field.",
 ["programs","configurations"],"all struct types and matchers",
 "Tests use three struct types.",
 ["reflect.go","conn_handler.go"],[("makeEventFromMethod, makeEventsFromStruct","reflect.go")],
 obs=["Struct.Events"])
p("C26","Combined exchanges and channels are consistent",
 "With several message exchanges registered, every connect, disconnect, subscribe, unsubscribe and publish reaches each of them, in registration order, with success reported only if all succeeded and the first connect error returned; a request falls back to the next exchange only if the previous one failed. In the bundled exchanges the channel a message is published to is the one the addressed connection, or the connections of its namespace, are subscribed to, exactly that one and no pattern of names, and exchanged messages are written, marked as exchanged, to the subscribed connection (connection ids being names the broker accepts, none of them a namespace's name).",
 ["inputs","fault_sequences"],"all messages, namespaces, ids and failures",
 "No test uses an exchange.",
 ["stackexchange.go","stackexchange/nats/stackexchange_nats.go","stackexchange/redis/stackexchange_redis.go","server.go"],[("stackExchangeWrapper, getSubject/getChannel, UseStackExchange","stackexchange.go")],
 obs=["StackExchange calls"])
p("C27","Server requests work through an exchange",
 "A server request made while an exchange is in use carries a token that marks it as such across the wire, so that the answering client's reply is recognised as belonging to the exchange and is notified under the very token the asking server is waiting on; the bundled exchanges listen for the reply before they publish the request. Without an exchange the request is delivered by broadcast and answered by the first reply.",
 ["inputs","configurations"],"all messages and tokens",
 "No test uses an exchange.",
 ["server.go","message.go","conn.go","stackexchange/nats/stackexchange_nats.go","stackexchange/redis/stackexchange_redis.go"],[("Server.Ask, genWaitStackExchange, DeserializeMessage, serializeMessage, handleMessage","server.go, message.go, conn.go")],
 obs=["StackExchange.Ask/NotifyAsk"])
p("C28","Socket adapters keep frames intact",
 "Both socket adapters write each message as one frame of the requested kind with exactly the given bytes, never two writers at once, under the configured write deadline, and report the write's error. Reading returns only text and binary messages, with their own type and bytes, skips control frames, reports the peer's close and read failures as errors and honours the read deadline; frames that arrive together with the handshake response are not lost.",
 ["schedules","inputs","fault_sequences"],"all bodies, frame sequences, timeouts and concurrent writers",
 "Tests never write concurrently nor receive control frames.",
 ["gorilla/socket.go","gobwas/socket.go"],[("Socket.write, WriteText, WriteBinary, ReadData","gorilla/socket.go, gobwas/socket.go")],
 obs=["frames on the network connection"])
p("C29","Messages wait for a namespace being connected",
 "A message for a namespace whose connect is in progress on this side is not judged until that attempt has ended, whichever way it ended, and it never waits once no attempt is in progress. The same namespace always maps to the same wait point, however many goroutines ask for it at once.",
 ["schedules"],"all interleavings of connects and incoming messages",
 "Tests use one attempt.",
 ["process.go","conn.go"],[("processes.get, process.Start/Done/Wait, askConnect, tryNamespace","process.go, conn.go")],
 obs=["handler invocations during Connect"])
p("C30","Every broadcast is eventually delivered to every connection",
 "With the default asynchronous broadcaster, each broadcast message is eventually handed to every connection that was admitted before the broadcast and stays open, even when broadcasts are made in rapid succession.",
 ["schedules","histories"],"all interleavings of broadcasts and per-connection publishers",
 "Loss needs two broadcasts between two scheduler steps of a publisher goroutine.",
 ["broadcaster.go","server.go"],[("broadcaster","broadcaster.go")],
 obs=["Socket.WriteText per connection"])
p("C31","Query methods report the true membership",
 "Namespace, Room and Rooms report exactly the namespaces and rooms this side is connected to or has joined at that moment, nil for the others; the connection queries on the server, which are documented as not thread safe, list exactly the connected ones, and by namespace exactly those connected to it. Emit, Ask, Disconnect and Leave on a value always concern that value's own namespace and room.",
 ["histories","inputs"],"all membership states",
 "Tests query one namespace and one room.",
 ["conn.go","conn_namespace.go","conn_room.go","server.go"],[("Namespace, Room, Rooms, Emit, Ask, GetConnections, GetConnectionsByNamespace","conn.go, conn_namespace.go, conn_room.go, server.go")],
 obs=["return values"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
