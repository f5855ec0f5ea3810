import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","A serialized request decodes back to an equal request",
 "For every request built through the public API (any id, names up to 65535 bytes, any number of arguments, any mix of integer, string, raw and nested-array values) the bytes produced by serialization are exactly the documented little-endian layout and decode to a request with the same name, id and the same arguments (name, type, value) in the same order. The reported size, the length of the serialized bytes and the number of bytes consumed by decoding are all the same number.",
 ["inputs"],"every request value; every nesting and every boundary value of every type",
 "The tests print one in-range number per integer type and one short string; nested arrays, empty strings, boundary values, several arguments and the request header are never compared after a round trip.",
 ["Request.cpp","Datum.cpp","Value.cpp","values/"],
 [("Request/Datum/Value Serialize, Deserialize, GetSize","Request.cpp, Datum.cpp, Value.cpp"),("per-type codecs","values/*.cpp")],
 obs=["return values and buffers of Serialize/Deserialize/GetSize"])
p("C02","Decoding untrusted bytes is safe, bounded and exact",
 "For every byte buffer, decoding a request, datum or value finishes, never aborts, never touches memory outside the buffer it was given, and returns either 0 (rejected) or a count no larger than the buffer. A header whose declared length or name does not fit is rejected; an argument whose declared lengths do not fit, whose type is unknown, or whose content does not fit its type (including inside arrays) is never accepted; a decoded request carries exactly the well-formed arguments that precede the first malformed one within the declared length, and bytes beyond that length play no part.",
 ["inputs"],"every byte string of every length, including adversarial length fields",
 "The only malformed input the tests decode is one buffer of identical filler bytes; the space of length-field combinations and truncations is untouched.",
 ["Request.cpp","Datum.cpp","Value.cpp","values/"],
 [("length checks before every read","Request::Deserialize, Datum::Deserialize, Value::Deserialize, ValueArr/ValueStr::DeserializeInternal")],
 obs=["Deserialize results, decoded content, address sanitizer"])
p("C03","Requests and arrays are ordered containers with deep-copy semantics",
 "Setting an argument replaces the value of an existing name in place or appends a new name at the end, setting it to a null value deletes it, and reading an absent name or reading with the wrong type yields null; arrays return null or refuse for out-of-range positions and otherwise behave as indexable sequences. A copy of a request, argument or array equals its source in name, id, order and every value (raw values included), replaces what the target held, and is independent: later changes or destruction of either side never affect the other.",
 ["histories","inputs"],"every sequence of set, delete, get, copy, array and destroy operations, including self-assignment",
 "No test performs a sequence of container operations; only one Set per name followed by one Get is executed.",
 ["Request.cpp","Datum.cpp","values/ValueArr.cpp","values/ValueUndefined.cpp","values/ValueStr.cpp"],
 [("Request::Set/Get/CopyFrom","Request.cpp"),("Datum::SetValue","Datum.cpp"),("ValueArr::Set/Push/New/CopyFrom","values/ValueArr.cpp")],
 obs=["Get/GetArguments/GetCount/Serialize results"])
p("C04","Received requests do not depend on how the byte stream is cut",
 "Whatever the positions at which the peer's byte stream is split into segments and whatever the receive block size, the requests delivered by a connection are exactly the well-formed frames of the stream, once each, in stream order, with intact content, and each one is delivered as soon as its last byte has arrived. Keep-alive frames named \"_\" are consumed without ever being delivered.",
 ["inputs","schedules"],"every stream of frames, every segmentation down to single bytes, every block size, every arrival timing",
 "The tests send small frames over loopback which always arrive whole with the default block size.",
 ["Connection.cpp"],[("incremental length then body reception","Connection::Receive")],
 state=[("recv buffer, offset, is_recv_length","partially received frame","Connection.hpp")],
 obs=["recv system calls, handler invocations, Pull results"])
p("C05","Pushed requests leave once each, in push order, with intact content",
 "Every request accepted by a connection is transmitted exactly once and byte-exact, in the order in which the pushes took effect, whatever threads or handlers pushed concurrently, whatever the send block size and however few bytes the socket accepts at a time; frames never interleave. On a live connection with a reading peer an accepted request is transmitted without waiting for further activity, and a request pushed by copy is unaffected by what the caller does to the original afterwards.",
 ["schedules","inputs","fault_sequences"],"every interleaving of pushing threads and the polling thread, every block size and short-write pattern",
 "The tests push a handful of requests from one thread; concurrency, short writes and multi-block frames are not reached.",
 ["Connection.cpp"],[("send queue, send buffer, push event","Connection::Push, PopSendQueue, Send, ConnThreadFunc")],
 obs=["bytes written to the socket"])
p("C06","Frame size limits are enforced and bad frames are contained",
 "A frame whose declared length exceeds the receiver's maximum request size, or is too small to contain its own length field, ends the connection and delivers nothing from that point on; a frame of exactly the maximum size is accepted. A frame of acceptable length whose header does not decode is discarded without delivering anything and without disturbing the frames before or after it, and no frame of any content can crash or stall the receiver.",
 ["inputs","configurations"],"every declared length 0..2^32-1, every maximum size setting, every position in the stream",
 "The tests never send a malformed, oversized or undersized frame.",
 ["Connection.cpp","Request.cpp"],[("length check against the maximum","Connection::Receive"),("SetMaxRequestSize floor","Connection::SetMaxRequestSize")],
 obs=["handler invocations, socket close, crash"])
p("C07","Automatic request ids are unique and the two ends never share one",
 "Within one connection every request pushed with automatic numbering gets a distinct id, increasing by two in transmission order and starting at the first id of its end's half (1 for the connecting end, 2 for the accepting end) on every new connection, even under concurrent pushes; the two ends of a connection never assign the same id. Pushing without automatic numbering transmits the caller's id unchanged and consumes no id, and keep-alives consume none.",
 ["schedules","histories"],"every interleaving of pushing threads and handlers on both ends, every reconnect history",
 "No test looks at a request id.",
 ["Connection.cpp","Client.cpp"],[("free_request_id, even/odd part","Connection::Push, InitializeByFD, SetEvenRequestIdsPart")],
 obs=["ids in transmitted frames"])
p("C08","Each received request goes to exactly one place, in arrival order",
 "Every delivered request is handed exactly once to the handler registered for its name at that moment, else to the default handler, else to the receive queue, in arrival order, with handlers of one connection never running concurrently. A handler that is replaced or removed takes effect for the next request, and handlers may push, disconnect or change handlers on their own connection without losing, duplicating or reordering deliveries.",
 ["schedules","histories"],"every arrival pattern, every handler registration history, every handler action",
 "The tests register three fixed handlers once and receive one request at a time.",
 ["Connection.cpp"],[("PassThroughHandlers and the receive queue","Connection::PassThroughHandlers, Receive, SetHandlerNamed, SetHandlerDefault")],
 obs=["handler invocations, Pull results"])
p("C09","Pull returns queued requests in order and blocks exactly as documented",
 "Pull returns queued requests in arrival order, each to exactly one caller. With a zero timeout it returns at once; with a positive timeout of n seconds it returns as soon as a request is available or the connection ends and otherwise null after n seconds; with a negative timeout it returns only for a request or the end of the connection. Requests received before the end of a connection remain available to Pull afterwards, and a blocked or later Pull on an ended connection never hangs.",
 ["schedules","histories"],"every interleaving of pullers, arrivals and disconnection, every timeout",
 "No test calls Pull.",
 ["Connection.cpp"],[("receive queue and receive event","Connection::Pull, Receive, ConnThreadFunc tail")],
 obs=["Pull return value and (virtual) return time"])
p("C10","Graceful disconnection delivers everything pushed before it, then ends",
 "After a graceful disconnect every request accepted before it is still transmitted completely, no request pushed after it is, and the connection then ends by itself without further activity, whether or not anything was queued. When both ends run this library and the receiving end stays up, every request pushed before the graceful disconnect is delivered at the other end, even if that end has requests of its own to send.",
 ["schedules","histories","fault_sequences"],"every interleaving of pushes, the disconnect and the polling thread; every queue content; slow or closing peers",
 "The tests disconnect gracefully only with one request just queued, and never check what arrived.",
 ["Connection.cpp"],[("is_disconnecting, drain check","Connection::Disconnect, Send, ConnThreadFunc")],
 obs=["bytes written before close, time of close"])
p("C11","Forced disconnection ends the connection promptly from any state",
 "A forced disconnect on a live connection ends it without delay whatever is queued, whatever the peer does or fails to do (not reading, silent, flooding) and whichever thread or handler asks, and also during a graceful disconnect; only a running handler or an outstanding reference holder can postpone the end. Disconnecting with waiting returns only after the end, and repeated or concurrent disconnects and disconnects of an ended connection are harmless.",
 ["schedules","fault_sequences"],"every state and interleaving, every peer behaviour",
 "The tests force a disconnect only on an idle connection from the main thread.",
 ["Connection.cpp"],[("to_stop event","Connection::Disconnect, ConnThreadFunc")],
 obs=["socket close, stopped event, virtual time"])
p("C12","The end of a connection is unique, justified and observed consistently",
 "A connection ends only because of a forced or completed graceful disconnect, the peer closing, a socket error, a protocol size violation or peer silence, and for each of those it does end without delay. When it ends, the socket is closed, every waiter for the end is released, and from then on it reports not connected, not disconnecting and no socket type, the stopped event stays readable until a reconnect, and pushes are refused; before that it reports connected, and disconnecting exactly once a disconnect or end is in progress.",
 ["schedules","histories","fault_sequences"],"every cause of termination in every state, every observer thread",
 "The tests observe two terminations from the main thread only.",
 ["Connection.cpp"],[("thread tail and state flags","Connection::ConnThreadFunc, IsConnected, IsDisconnecting, GetType, WaitForStop")],
 obs=["state queries, WaitForStop, stopped event, socket close"])
p("C13","An idle connection stays alive through invisible keep-alives",
 "Whenever a connection has sent nothing for its keep-alive interval it sends exactly one keep-alive frame and re-arms; any transmission restarts the interval, changing the interval takes effect at once with a one-second minimum, and none are queued once a disconnect has begun. Two library ends whose silence limits exceed the other's keep-alive interval therefore never time each other out while their handlers return in time, and keep-alives are never delivered to the application.",
 ["histories","configurations"],"every interval configuration, every traffic pattern over unbounded time",
 "The tests finish within seconds, before the default ten-second interval ever elapses.",
 ["Connection.cpp"],[("our still-alive timer","Connection::ConnThreadFunc, Send, SetOurSaInterval")],
 obs=["frames written with virtual timestamps"])
p("C14","A silent peer is disconnected exactly at the silence limit",
 "If no byte arrives for the configured limit the connection ends at that moment, including while a graceful disconnect is waiting for the peer to read; any received byte restarts the limit and a peer that keeps sending is never disconnected for silence. Changing the limit takes effect at once with a one-second minimum.",
 ["histories","configurations"],"every limit configuration and arrival pattern",
 "No test waits for the sixty-second limit or changes it.",
 ["Connection.cpp"],[("their not-alive timer","Connection::ConnThreadFunc, Receive, SetTheirNaIntervalLimit")],
 obs=["socket close with virtual timestamps"])
p("C15","A reconnected client starts clean",
 "After a client's connection ended for any reason, connecting again yields a connection on which nothing of the earlier one appears: no earlier request is transmitted, no earlier partially received bytes or unread requests are delivered, no earlier stop or disconnect request applies, ids and timers restart, and waiting for the end waits for the new connection. Handlers, tag, limits, block sizes and intervals persist.",
 ["histories","schedules"],"every way the earlier connection ended, every pending state at that moment, concurrent pushes racing with the end",
 "The tests reconnect up to ten times but only after a clean forced disconnect with empty queues.",
 ["Connection.cpp","Client.cpp"],[("InitializeByFD and the thread tail","Connection::InitializeByFD, ConnThreadFunc")],
 obs=["bytes written on the new socket, deliveries, WaitForStop"])
p("C16","A client's connect call reports the truth and can always be retried",
 "Connecting over TCP or a UNIX socket returns true exactly when a usable connection was established, and false for an unreachable, malformed or overlong address, within the requested timeout even if the server never answers. A connect call while already connected returns false and leaves the existing connection undisturbed, and after any failure the client is not connecting, holds no descriptor and can connect successfully later. Of several connect calls made on one client at the same time at most one is carried out; the others return false at once and disturb nothing.",
 ["fault_sequences","histories","inputs"],"every sequence of connect attempts and server availability",
 "The tests only connect to a server that is up, with a fixed address.",
 ["Client.cpp"],[("ConnectTcp, ConnectUnix and their threads","Client.cpp")],
 obs=["return value, IsConnected, IsConnecting, descriptors"])
p("C17","The server keeps its connection limit and serves waiters as slots free up",
 "With a connection limit set before start, the number of accepted connections that have not ended never exceeds the limit, clients beyond it wait rather than being dropped, and as soon as a connection ends the longest-waiting client is accepted. With a negative limit every client is accepted at once, with limit zero none is.",
 ["schedules","histories","configurations"],"every arrival and departure order of clients, every limit",
 "The tests set a limit of five but never have more than one client.",
 ["Server.cpp"],[("accept_new gate in the server thread","Server::ServerThreadFunc")],
 obs=["accept calls, connected handler, poll on the listening socket"])
p("C18","Each accepted connection is announced once and its end is announced once",
 "For every accepted client the connected handler runs exactly once, before the connection can be looked up and with its final id already set; ids are 1, 2, 3, ... in accept order within a server run and never reused. When a connection ends while the server runs, the disconnected handler runs exactly once for it, after its connected handler and while the connection object is still usable, after which the object is destroyed exactly once; handlers are optional and never run concurrently with each other.",
 ["schedules","histories"],"every arrival and departure order, several connections ending at once, handlers set or not",
 "The tests have one client at a time, always set both handlers, and do not look at ids.",
 ["Server.cpp"],[("AcceptOne and the reaping loop","Server::AcceptOne, ServerThreadFunc")],
 obs=["handler invocations, object destruction"])
p("C19","Looked-up connections stay valid until released",
 "Looking a connection up by id or tag returns that live connection or null if there is none, from any thread at any time. While at least one returned reference (or a copy of one) is held the connection object is not destroyed and no call through it hangs (except waiting for the very end that the reference holds up), even after the connection has ended or several holders release in any order; once the last reference is released an ended connection is cleaned up without delay.",
 ["schedules","histories"],"every interleaving of lookups, releases, pushes through references and connection end",
 "No test calls GetConnection or holds a reference.",
 ["Server.cpp","SafeConnection.hpp","Connection.cpp"],[("reference count and not_needed event","Connection::IncreaseRefs, DecreaseRefs, ConnThreadFunc tail"),("GetConnection","Server.cpp")],
 obs=["object destruction, return of calls through references"])
p("C20","Stopping a server is complete, awaited and repeatable",
 "After a stop has been awaited, every connection of the server has ended and been destroyed, its peers see the close, the listening socket is closed and a UNIX socket path is removed; a waiter for the stop is released exactly when that is so, never before, and the server object may then be destroyed safely. The same server object can be started again, as TCP or UNIX, any number of times with the same guarantees; starting while running or with an unusable or overlong address returns false and changes nothing, and a server keeps running until it is stopped.",
 ["schedules","histories","fault_sequences"],"every interleaving of stop, traffic, accepts and handlers; every start/stop history",
 "The tests stop one server once, at process exit.",
 ["Server.cpp"],[("stop sequence","Server::ServerThreadFunc tail, Stop, WaitForStop, StartTcp, StartUnix, ~Server")],
 obs=["descriptors, path existence, return of Stop/WaitForStop, object destruction"])
p("C21","No call hangs because of a peer, a handler or another caller",
 "Pushing, non-blocking pulling, disconnecting without waiting, state queries, lookups and setting handlers return without waiting for the network, for a running handler of any connection or for other callers that are themselves blocked, from any thread and from inside handlers. In particular handlers of different connections that push to each other never deadlock.",
 ["schedules"],"every interleaving of callers, handlers, polling threads and the server thread",
 "The tests have a single connection and call the API from one thread at a time.",
 ["Connection.cpp","Server.cpp"],[("lock scopes of mutex_cd, mutex_sq, mutex_server","Connection.cpp, Server.cpp")],
 obs=["deadlock detection, virtual time spent in a call"])
p("C22","Every descriptor and object is released exactly once",
 "Once a connection has ended and been destroyed or reconnected, every descriptor it created has been closed exactly once and no call ever reads, writes, re-arms or closes a descriptor that is already closed; the same holds for failed connects and starts and for stopped servers. All memory the library allocated, including unsent, unread and copied requests, is freed after destruction, so connect/disconnect and start/stop cycles do not grow the process.",
 ["histories","schedules","fault_sequences"],"every life-cycle history and interleaving",
 "The tests never inspect descriptors or memory (the valgrind mode only prints).",
 ["Connection.cpp","Server.cpp","Client.cpp","values/"],[("thread tail, destructors, DeleteSendBuffer/DeleteRecvBuffer","Connection.cpp, Server.cpp")],
 obs=["descriptor table and allocation table at the end of each run"])
p("C23","Interrupted and partial system calls change nothing",
 "Signals interrupting a blocking system call of any library thread or caller, sockets accepting or returning fewer bytes than asked, and clients that vanish before being accepted never end a connection or server, lose or duplicate data, release a waiter early or make a connect fail.",
 ["fault_sequences","schedules"],"every placement of interruptions and short transfers",
 "The tests run without signals and with small transfers on loopback.",
 ["Connection.cpp","Server.cpp","Utils.cpp","Client.cpp"],[("poll loops and result checks","Connection::ConnThreadFunc, Server::ServerThreadFunc, Utils::SelectRead")],
 obs=["same observations as the fault-free behaviour"])
p("C24","A push asking for a response waits no longer than asked and returns only it",
 "Pushing with a zero timeout returns null without waiting. Pushing with a non-zero timeout returns the request received with the same id as the pushed one if it arrives within that many seconds (any time if negative), returns null on timeout, refusal or the end of the connection, never returns anything else and never outlasts its timeout.",
 ["schedules","histories"],"every timing of the response, timeouts and disconnection",
 "No test passes a timeout to Push.",
 ["Connection.cpp","README.md"],[("Push timeout parameter","Connection::Push")],
 obs=["Push return value and (virtual) return time"])
p("C25","Running out of descriptors fails the call, not the process",
 "When the process has no file descriptors left, a connect or server start that needs one returns false and a client that can't be given one is turned away or served later; nothing crashes, hangs, leaks or is half set up. Connections that exist keep working and can end, also while they are referenced. Once descriptors are available again, the same clients and servers connect, start and serve as if nothing had happened.",
 ["fault_sequences","schedules","histories"],"every descriptor any call or library thread asks for, refused once or for a while",
 "The tests never run out of descriptors.",
 ["Connection.cpp","Client.cpp","Server.cpp"],[("results of eventfd, timerfd_create, socket, accept","Connection::InitializeByFD, Client::ConnectTcp/ConnectUnix, Server::AcceptOne/StartUnix/StartTcp"),("wait for the last reference","Connection::ConnThreadFunc")],
 obs=["results of the calls, traffic, descriptors, what works afterwards"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
from jsonschema import validate
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    validate(d,s); assert len(d["title"])<=80,d["title"]
    n=d["statement"].replace("...","").count(". ")+1
    print(d["id"],len(d["title"]),n)
