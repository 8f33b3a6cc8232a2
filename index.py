"""What the evidence and the manifest say about each check: harness modules, bounds, what lies outside, assumptions."""
GEN = [
    "CPython's own semantics of the operations the encoding models (integer and byte arithmetic, UTF-8, struct packing, "
    "dict and list order) are as modelled in sx/; sampled paths are re-run on the unmodified code and compared.",
]
INDEX = {}


SHARED = " Threads are interrupted at locks and where the module reads or writes attributes it assigns, and continued by any other."
STATEMENTS = " Threads are interrupted at locks, before any statement and where the module reads or writes attributes it assigns, and " \
             "continued by any other."


def c(pid, modules, bounds, outside, assumptions=(), note=None):
    INDEX[pid] = {"modules": modules, "bounds": bounds, "outside": outside, "assumptions": GEN + list(assumptions), "note": note or bounds}


TXT = ("Texts and contents are either opaque (any contents, any length up to the stated limit) or given character by character "
       "(every code point). ")
c("C01", ["codec"],
  TXT + "Headers of 0, 1 or 2 entries of opaque texts (up to 2^20 characters each, encoded map up to 65535 bytes) or of 1x1 and "
  "(1,0)+(0,1) arbitrary characters; content any bytes of length 0..2^32-1; request id and timeout any int32; every "
  "type/command/codec/status constant. Thorough: 3 opaque entries and up to 2x2 characters.",
  "Headers of more than 3 entries; header texts with lone surrogates.")
c("C02", ["codec"],
  "As C01, plus the frames of every constructor (new_request, response_to, FailResponse, heartbeats) with any id, timeout and "
  "request-id start.",
  "Headers of more than 3 entries.")
c("C03", ["codec"],
  TXT + "Maps of up to 2 opaque entries and of 300 fixed keys with arbitrary values, 1x1, 2x1 and 1x0+1x0 arbitrary characters; null markers at any position of 2 entries. "
  "Thorough: 3 opaque entries, 1000 fixed keys, up to 1x3 characters.",
  "Maps of more than 3 entries with arbitrary keys.")
c("C04", ["codec"],
  "Every byte string of length 0..10 as header map; every 20/22-byte fixed header with a body of any length up to 2^33 and a "
  "header section of 0, 3, 4 or 5 bytes; every proper prefix and every extension of a valid frame. Thorough: header maps up to "
  "17 bytes, header sections up to 14.",
  "Header maps longer than 17 bytes.")
c("C05", ["codec"],
  "Request id and timeout any integer (unbounded), header texts any length up to 2^20, content any length up to 2^34; ill-typed "
  "content, id and timeout from str, None, float, int, bytes, list, dict, bytearray; header texts with any characters including lone "
  "surrogates, ill-typed header names and values; the constructors of requests, responses, failure responses and heartbeats with any integers.",
  "Other ill-typed objects.")
c("C06", ["trace", "threaded"],
  "Random start any value the generator asks for; 3 successive requests of any of three kinds (thorough 5), and two requests at any "
  "of the first 2^34 positions of the id sequence and any distance up to 2147483647 (the iterator state is symbolic when it is an itertools object). "
  "Two threads of 2 requests interrupted up to 2 times, three of 1 interrupted once (thorough 3 and 2)." + STATEMENTS,
  "More threads, requests or interruptions; iterators written in C are atomic under the GIL.")
c("C32", ["trace", "many", "threaded"],
  "Every sequence of 4 derivations (every span and reference API, child-of and follows-from) below a fresh root and of 3 below a root "
  "whose two rpc-id numbers are any in 0..2^40. Thorough: 5 and 4, roots of three numbers. "
  "Two threads of up to 2 derivations from one span or its child interrupted up to 2 times, three of 1 interrupted once (thorough 3)." + SHARED,
  "Follows-from of the root itself (it has no parent to be a further child of).")
c("C33", ["trace", "many"],
  "Contexts with 0..2 baggage items, opaque texts up to 1000 characters (also empty), rpc ids of 1..3 numbers; injected into dicts and headers, also ones that carried another context before, "
  "encoded, decoded, extracted, derived; sent in the header of an encoded request over 1 or 2 hops, with one of twelve odd item names (long, padded, or such that clash with "
  "names in the code), and the caller's own entries named like those of a context. Thorough: 4 items, 4 numbers.",
  "Baggage keys beyond the fixed names used; more than 4 items.")
c("C34", ["trace", "threaded"],
  "3 successive ids (thorough 4) with any clock readings of 13 digits, any pid up to 7 digits; two ids at any distance up to 8000 "
  "anywhere in the sequence. Two threads of up to 2 ids interrupted up to 2 times, three of 1 interrupted once (thorough 3 and 2)." + STATEMENTS,
  "Clock readings outside 2001-09-09..2286-11-20 (13-digit milliseconds).")
c("C35", ["trace", "many"],
  "Operation names up to 1000 characters, up to 3 tags of any text, any start (zero included) and end time, every way of starting a span, a body that "
  "ends or raises any of five kinds of exception.",
  "Log records of spans.")
c("C26", ["pool", "many"],
  "Histories of 5 operations (get, return any, peer drops a free one, next open fails) and of 7 gets/returns, for every max, max_free "
  "<= 3 and min_free, initial <= 2; the default limits with 7 operations; block=True pools with 6. Thorough: 7/9/9/8 operations.",
  "Limits above 3 other than the defaults; blocking checkouts that wait for another thread (C28).",
  ["Sockets and select are stand-ins: connect succeeds unless the scenario makes it fail, a dropped connection is readable."])
c("C27", ["pool", "many"],
  "Histories of 5 (get, return, drop, close, user closes a checked-out connection), 6 (close) and 6 (drop) operations, max and max_free up to 3, min_free up to 1. Thorough: 6/8/8.",
  "Limits above 3; a connection dropped between the check and its use.",
  ["Sockets and select are stand-ins: a dropped connection is readable."])
c("C29", ["pool", "many", "threaded"],
  "Every history of 4 operations (store, look up, delete, clear) over arbitrary integer keys and of 5 (store, look up, delete) over four fixed keys (there no value may be disposed while it is still stored), maxsize "
  "0..3; 5 stores and lookups without a dispose function; values that are falsy, None, equal to each other or not hashable. Thorough: 6 and 7. "
  "Eight pairs of threads of up to 2 operations each over three keys, maxsize 1 or 2, interrupted up to 2 times (thorough 3): some order of "
  "the operations explains all results, contents and disposals." + SHARED,
  "Longer histories; more threads; when a value is disposed relative to other threads' operations.")
c("C30", ["pool", "many", "threaded"],
  "Every history of 4 lookups/clears with any ports, max_pools 1..3 (thorough 6); 2 scoped uses (thorough 3) of pools with 0..2 "
  "connections whose open fails or not, connection dropped or not (before or inside the scope), body ending normally or with any of 4 kinds of exception. Two threads "
  "of up to 2 lookups interrupted up to 2 times, three of 1 interrupted once, two keys, max_pools 1 or 2 (thorough 4 and 2)." + SHARED,
  "Clearing or scopes from several threads; more threads or interruptions.", ["Sockets are stand-ins."])
c("C31", ["pool"],
  "Any request size up to 2^20, stream of any length and content cut into up to 3 pieces of any size (thorough 5), with or without end "
  "of stream after it; the peer silent for any time before a piece.",
  "More pieces than that (the loop treats every piece alike).", ["Sockets and select are stand-ins."])
c("C23", ["mesh", "many", "threaded"],
  "One operation of each kind, any status 100..599, nine kinds of body, connection errors; 4 startup attempts with any outcomes; all "
  "combinations of empty, missing and arbitrary (up to 500 characters) application fields with 2 attempts. Thorough: 7 and 3 attempts. "
  "Two mesh clients starting up 4 times in any order. Two threads starting up at once interrupted up to 2 times, three interrupted once (thorough 4 and 3)." + STATEMENTS,
  "What requests does on the wire.",
  ["The requests session is a stand-in that records the posted JSON object."])
c("C24", ["mesh", "many", "threaded", "clientthreads", "aioclient"],
  "Every history of 3 operations (map to any host and port, map to a bare host (any, or with colons, brackets or blanks), subscribe one or two, unsubscribe) on three interface "
  "names with accepted and refused mesh operations, 2 without a mesh; the address is the one the blocking client connects to. "
  "Thorough: 4 and 3 operations. Two threads mapping one interface, or one of them subscribing it, interrupted up to 2 times, three "
  "interrupted once (thorough 4 and 2)." + STATEMENTS + " Two threads calling through a mapping, or one of them subscribing or unsubscribing, "
  "interrupted up to 2 times (thorough three threads, or 4 times). The asyncio client: two changes of the map (thorough three), a call after "
  "each, with and without a mesh.",
  "dict methods of the map other than item assignment (update, setdefault).",
  ["Sockets and the requests session are stand-ins."])
c("C13", ["blockserver", "longrun", "lifecycle"],
  "One well-formed request with any id, timeout, codec, type and content up to 2^32-1 bytes, four ways of naming its service, whole, cut "
  "at every position or followed by up to 2^20 surplus bytes, service returning anything up to 2^32-1 bytes or failing; five missing, "
  "four unknown names each; requests with any proto, type, command, version, codec byte, damaged class name, header map (any byte or "
  "any length field) or length field. Unbuffered reads get up to 3 (thorough 6) pieces of any size. Two connections served at the same time by "
  "socketserver's threads, interrupted once (thorough twice) at any socket operation, service call or attribute the module assigns, and three "
  "in all orders of their waits.",
  "Header maps other than those forms; more connections or interruptions.",
  ["socketserver's accept loop is a stand-in except for connections served at the same time; its StreamRequestHandler is the real one. Buffered reads return all the bytes "
   "asked for or everything up to the end of the stream, as io.BufferedReader does."])
NET = ["Sockets, selectors and the clock are stand-ins: time is a symbolic real number, pieces arrive when the scenario says."]
c("C20", ["blockclient", "clientthreads"],
  "One call with any request id start; a response with any content up to 2^32-1 bytes cut into up to 4 pieces of any size, followed by "
  "surplus bytes or the end of the stream; any status and id; a header of two opaque texts; five undecodable headers and eleven values "
  "outside the enumerations (2 pieces). A second call after one that succeeded, timed out (its response arriving late) or failed. Two threads "
  "calling through one client, of one interface or two, interrupted once anywhere at socket operations, one response in two pieces. "
  "Thorough: 6 and 3 pieces; two threads interrupted 3 times, three threads once.",
  "More pieces (the loop treats every piece alike); threads interrupted between socket operations.", NET)
c("C21", ["blockclient"],
  "Response in up to 3 pieces of any size arriving at any times, complete, cut anywhere or absent, then nothing, end of stream or reset; "
  "integer timeouts up to 10^9 ms, real ones up to 10^6 ms (2 pieces); sockets that accept the request late or never. Thorough: 5 pieces.",
  "Events within one millisecond of the deadline (float rounding of the clock).", NET)
c("C22", ["blockclient", "clientthreads"],
  "Content of any length up to 2^20, sockets accepting any number of bytes in each of the first 2 sends, any timeout; one to twelve unusable "
  "sockets before a usable one, sending refused or broken after any number of bytes, connections that die while the request is sent; two-way and one-way. Two threads calling through one client, of one interface or "
  "two, interrupted once at socket operations, one send accepting 1, 30 or all bytes. Thorough: 4 sends, 20 sockets; threads interrupted "
  "3 times with two partial sends, three threads twice.",
  "Failures of the connection other than those; threads interrupted between socket operations.", NET)
AIO = ["The event loop, its clock, sockets, dialling, executor and threads are stand-ins (harness/aio.py): the loop runs CPython's own "
       "tasks, futures, streams and locks on virtual time; a submitted job starts at once when a worker is free and completes as an event "
       "of its own. Events (bytes arriving, jobs completing, timers, a full write buffer draining) come in every order."]
c("C07", ["aioserver", "longrun"],
  "One two-way request with any id, timeout (any int32) and content up to 2^32-1 bytes: four ways of naming service and method, five of "
  "leaving one out, four unknown interfaces and methods each, four refusing constructors, four malformed trace contexts; the service "
  "returns any bytes up to 2^32-1, raises one of eight exceptions (CancelledError, StopIteration, SystemExit, ... included), returns one of "
  "seven things that are not bytes or never ends; its end falls anywhere before, after or without the timeout; the write buffer may be full "
  "once. The request arrives in up to 3 pieces of any size (thorough 5), two requests one behind the other in 2 (4) or with an event "
  "handled early. Three requests with any ids on one or two connections that fail in six ways, alike or not.",
  "More than 30 jobs at once (the executor's limit); instants within 1/4096 s of the deadline; malformed numbers in rpc ids other than "
  "those given.", AIO)
c("C08", ["aioserver", "longrun"],
  "One one-way request of every form of C07 and every outcome of its service, followed by nothing, a two-way request, the end of the "
  "stream or a reset at any time relative to the service's end. Two one-way requests with any ids in one stream cut into 2 pieces of any "
  "size (thorough 4), with one event handled early or with executor threads that start late.",
  "One-way requests that the server cannot decode (the property of bad requests, C09, does not say whether they are answered).", AIO)
c("C09", ["aioserver", "longrun"],
  "One bad request between two good ones (or before one), or two bad ones before a good one: response command (three class names), class "
  "name any other 0..65535 bytes or one of five near misses, header map of five undecodable kinds (any negative or excessive length, any "
  "byte above 127, any 1 to 3 bytes). Arriving at once, with one event handled early, or in two pieces cut anywhere (fewer kinds). "
  "Thorough: three pieces, two early events.",
  "Type bytes, protocol and version bytes outside the enumerations (the server closes the connection).", AIO)
c("C10", ["aioserver", "longrun", "blockserver", "lifecycle"],
  "Two or three requests (thorough four) on one or two connections, any ids, contents and trace ids, addressed to two interfaces (one "
  "registered with extra arguments) and two methods each, their services finishing in every order, responses told apart by content, two of them also with one and the same trace context; "
  "up to three requests any of which never end; one event handled early while the write buffer is full once; executor threads that start a job late, once; two requests in one stream cut anywhere (thorough into 3 pieces, on two connections). "
  "Blocking server: two requests one after the other (thorough three, the first in up to 4 pieces) to services registered with positional, "
  "named, both or new arguments, with or without a trace context, one-way or two-way; two connections at once, their threads interrupted "
  "once (thorough twice, or three connections interrupted once). Both: ten near misses of an interface name and seven of a method name.",
  "More requests than that; trace ids above 100 characters.", AIO)
c("C11", ["aioserver", "longrun", "blockserver"],
  "Heartbeats with any id, codec, timeout, type request or one-way; class and header any bytes up to 65535, content up to 2^32-1 or as in a "
  "business request; between two requests on the asyncio server, cut into 2 pieces (thorough 4) or with one event handled early; three (six) "
  "in a row with any ids; on the blocking server in up to 4 pieces, with up to 2^20 surplus bytes, the peer half-closing or resetting.",
  "Heartbeats whose fixed header is malformed.", AIO)
c("C12", ["aioserver", "longrun"],
  "No or one complete request (thorough two), then one request or heartbeat cut at every position by the end of the stream or a reset, "
  "coming at any time relative to the services' ends; a second connection with a request in flight.",
  "More connections; losses the operating system never reports.", AIO)
c("C14", ["aioclient", "longrun"],
  "Two calls (one address) with any first request id, answered in every order with any contents up to 2^32-1 bytes, optionally one answered "
  "twice or accompanied by a response of any other id; three calls without extras; one event of the loop's own handled early or the write "
  "buffer full once. The connection closed right behind any one of the responses. Two responses in one stream cut into up to 3 pieces of any size (thorough 5). One blocking call (thorough two) with "
  "any timeout up to 2^31-1 ms, answered at any time or never.",
  "More calls in flight; events within 1/4096 s of a deadline.", AIO)
c("C15", ["aioclient", "longrun"],
  "One call (future, callback, blocking) answered with any of the twelve error statuses and any content up to 2^20 bytes, or with one of "
  "eleven kinds of response that is none (status, codec, command, type, protocol, version any value outside the enumerations; header cut short, "
  "odd or not UTF-8; request or heartbeat command), beside another call on the same connection that is answered well; callbacks with a doubled response.",
  "Responses whose length fields do not match what follows (they shift the stream for all later responses).", AIO)
c("C16", ["aioclient", "longrun"],
  "One call of each kind (one-way, future, blocking) with any content up to 2^32-1 bytes, any first request id, any timeout up to 2^31-1 ms "
  "(whole or fractional) or none, two names and methods, before or after another call or alone; the write buffer full once. Calls that cannot be sent: three dial errors, "
  "connections that break at once, contents that are not bytes.",
  "More than two calls; timeouts of one-way calls (the API takes none).", AIO)
c("C17", ["aioclient", "longrun"],
  "Two or three concurrent calls (thorough four) to one address and one to another, dialling refused up to once (twice), answered or not; "
  "a connection lost (end of stream, reset) after a call, two calls after it with zero, one or two new connections breaking at once; a "
  "call that cannot be encoded between two others; calls to three other addresses (same host, same port, neither) beside a dial that never ends; events in every order, one handled early.",
  "More than two addresses.", AIO)
c("C18", ["aioclient", "longrun"],
  "Two calls (thorough three) with the connection lost at any time, before and after each is sent or answered, later calls redialling; one "
  "call with a full write buffer. A call that ends in each of eight ways (answered, error, timeout, cancelled, refused, broken, not encoded, "
  "one-way) beside another, with duplicated, late and crossing responses.",
  "Bookkeeping outside the client object's containers; losses the operating system never reports.", AIO)
c("C19", ["aioclient", "longrun"],
  "Two or three intervals (thorough three or four), in each of which dialling succeeds, is refused or hangs and the heartbeat is answered, "
  "refused, left unanswered or its connection lost at any time; one heartbeat call answered with any status, any other id or a business "
  "response, lost or not dialled.",
  "Intervals beyond those; an interval in which dialling hangs or fails is not required to carry a heartbeat.", AIO)
c("C25", ["publish", "many"],
  "Two listeners of any kinds with any ports 1..65535 and application names up to 100 characters, every history of 4 operations (register "
  "with or without arguments one of three names, publish, unpublish on either; thorough 6); one listener with 1..3 interfaces, two of any "
  "names up to 1000 characters; no mesh, or one that refuses the application; one request of any id and content to any of two listeners that "
  "share none, some or all of two interfaces.",
  "Listeners bound to port 0; a mesh that refuses a publication (C23); registrations from several threads.", AIO)
c("C28", ["poolthreads"],
  "Two threads of up to 4 checkouts and returns with up to 2 interruptions (thorough 3), three threads with 1 (2), interrupted at any "
  "acquisition or release of a lock, any read or write of an attribute the pool module assigns, and while a connection is created; every "
  "choice of the next thread; limits up to 2 (any combination) and a pool of 4, free connections dropped by the peer or not, waiting for "
  "free connections with and without a waiting thread.",
  "Interruptions beyond that number; switches inside a single bytecode instruction or inside the standard library's queue other than at its "
  "locks; threads that close the pool while others use it.",
  ["threading.Lock, RLock and Condition behave as documented; CPython's memory is sequentially consistent under the GIL"])
c("C36", ["lifecycle", "longrun"],
  "Blocking server: two connections, one with any request, the other silent, nonsensical, with a failing or never ending service, all orders of "
  "the threads between their waits (thorough also up to 2 interruptions, and three connections); shutdown with one connection being made and "
  "up to 1 interruption (thorough 3) or two connections in all orders. asyncio server: two connections (thorough three) of seven kinds, "
  "events in every order; shutdown at any time relative to two connections, their requests and services, one event handled early.",
  "Shutting down a listener that does not run yet; connections waiting in the backlog at that moment; rebinding the address; more than 30 "
  "hanging services.",
  ["Listening sockets and selectors are stand-ins; the accept loop and its threads are socketserver's own, run under the scheduler of sx/sched.py. "
   "The event loop is a stand-in."])
c("C37", ["blockclient"],
  "45 calls of one client, one after the other, all ending in the same one of 13 ways (any status, foreign id, cut position below 20, timeout) or in "
  "two of them by turns, then one call that is answered. Thorough: 130 calls.",
  "More than two ways in one history; responses that arrive after the call that asked for them has ended (C20).",
  ["Sockets, select and the clock are stand-ins."])

# long runs (harness/longrun.py, harness/many.py): the order of events is fixed there
LONG = {
    "C07": "70 requests of one connection that all fail (or succeed) in one of the ways, then two good ones (thorough 300).",
    "C08": "70 one-way requests that all end alike, then a good one (thorough 300).",
    "C09": "70 bad requests of one kind, then a good one (thorough 300).",
    "C10": "40 requests in flight at once on one or three connections (thorough 200 on up to seven).",
    "C11": "70 heartbeats of one id or of 70 ids, then a request (thorough 300).",
    "C12": "40 connections that all break off at one place beside a good one; 20 complete requests before the incomplete one (thorough 200, 100).",
    "C13": "40 connections one after the other that all end in one of 15 ways, then a good one (thorough 200).",
    "C14": "40 calls in flight at once, answered oldest or newest first, with doubled or unknown responses among theirs (thorough 200).",
    "C15": "40 calls answered with one error status, then a good one (thorough 200).",
    "C16": "40 one-way calls without an answer, then a two-way one (thorough 200).",
    "C17": "20 calls to two addresses by turns, the connection lost after each, or every other dialling refused (thorough 100).",
    "C18": "40 calls that all end in one of nine ways, then a good one (thorough 200).",
    "C19": "40 intervals that all go wrong alike, or by turns, and recover or not (thorough 150).",
    "C22": "40 one-way or answered calls, then one whose first connections are unusable (thorough 150).",
    "C23": "40 refused startups, then an accepted one and 39 more; 40 operations of one kind (thorough 150).",
    "C24": "40 interfaces mapped, subscribed or neither, some unsubscribed (thorough 150).",
    "C25": "40 interfaces on one listener, published and unpublished three times, or requested (thorough 150).",
    "C26": "The default limits: 40 checkouts one after the other, 19 at once in three rounds (thorough 150, 8 rounds).",
    "C27": "The default limits: 15 checkouts at once in three rounds, then closing (thorough 19, 8).",
    "C29": "100 stores into a container of 30 and 160 into one of 100 with lookups, overwriting, deleting or clearing in between (thorough 400 into 100, 300 into 257).",
    "C30": "25 keys and the default 10 pools, 40 and 15 (thorough 60, 100).",
    "C32": "150 children or follow-ups of one span, 60 generations (thorough 1200, 60).",
    "C33": "60 baggage items over 12 hops, in a carrier or in an encoded request header (thorough 200).",
    "C35": "60 tags, 60 children (thorough 300).",
    "C36": "40 connections of one odd kind (20 with hanging services) beside or before a good one (thorough 200, 30).",
}
for k in LONG:
    for _f in ("bounds", "note"):
        INDEX[k][_f] += " Long runs: " + LONG[k]
