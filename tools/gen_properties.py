import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
PB='anthunder/protocol/_package_base.py'; RQ='anthunder/protocol/_request_pkg.py'; RS='anthunder/protocol/_response_pkg.py'; SH='anthunder/protocol/_sofa_header.py'
HB='anthunder/command/heartbeat.py'; FR='anthunder/command/fail_response.py'; RI='anthunder/helpers/request_id.py'
AL='anthunder/listener/aio_listener.py'; BL='anthunder/listener/base_listener.py'; SL='anthunder/listener/sock_listener.py'
AC='anthunder/client/aio_client.py'; CL='anthunder/client/client.py'; CB='anthunder/client/base.py'; MC='anthunder/mesh/mesh_client.py'
CN='mysockpool/connection.py'; CP='mysockpool/connection_pool.py'; PM='mysockpool/pool_manager.py'; LR='mysockpool/recently_used_container.py'; UT='mysockpool/utils.py'
RP='mytracer/_rpc_id.py'; TI='mytracer/_trace_id.py'; SC='mytracer/span_context.py'; TR='mytracer/tracer.py'; SP='mytracer/span.py'; TH='mytracer/helpers.py'

p('C01','Encoded requests and responses decode back to the same message',
 'For every request or response whose fields fit the wire format, decoding the bytes it encodes to yields a message with the same protocol, type, command code, version, request id, codec, timeout (request) or status (response), header map and content. This holds for every header length up to 65535 bytes and every content length up to 4294967295 bytes.',
 ['inputs'],'all field values, header maps and contents that fit the wire widths',
 'The tests round-trip one request and one response with 7-byte contents and a two-entry header; sign, width and length boundaries are never reached.',
 [RQ,RS,PB,SH],[('to_stream',RQ),('to_stream',RS),('from_stream',PB)],['BoltRequest.from_stream(r.to_stream())','BoltResponse.from_stream(r.to_stream())'])
p('C02','Encoded frames follow the documented BOLT v1 byte layout',
 'Every encoded request, response, failure response and heartbeat consists of the documented fixed header (22 bytes for requests, 20 for responses; big-endian fields in the documented order and widths) followed by exactly the class name, the header bytes and the content, whose byte lengths equal the three length fields. Business requests and responses carry the documented SofaRequest/SofaResponse class names, heartbeats carry an empty class name, header and content, and header entries are 4-byte big-endian length-prefixed UTF-8 strings, key then value, in order.',
 ['inputs'],'all field values, header maps and contents that fit the wire widths',
 'Tests compare against two captured frames in the decode direction only; a symmetric change of encoder and decoder passes every round-trip test and breaks interoperability with Java peers and MOSN.',
 [RQ,RS,PB,SH,HB,FR,'anthunder/protocol/__init__.py','anthunder/protocol/constants.py'],[('fmt and to_stream',RQ),('fmt and to_stream',RS),('_str_to_bytes_with_len',SH)],['to_stream() bytes'])
p('C03','Header maps survive encoding; Java nulls read as empty strings',
 'For every map from strings to strings (of characters UTF-8 can encode), decoding its encoded header bytes yields an equal map, and the reported length of the map equals the number of encoded bytes. An encoded entry whose length field is -1 (Java null) decodes as the empty string without disturbing its neighbours.',
 ['inputs'],'all string-to-string maps, including empty strings and characters that take 1 to 4 UTF-8 bytes',
 'The test uses one map with two short ASCII values; empty values, multi-byte characters, boundary lengths and null entries are unbounded in combination.',
 [SH],[('to_bytes / from_bytes',SH),('_str_to_bytes_with_len / _bytes_to_str',SH)],['SofaHeader.from_bytes','SofaHeader.to_bytes','len(SofaHeader)'])
p('C04','Decoding untrusted bytes is exact or raises DecodeError',
 'For every byte string, decoding it as a header map, a request or a response terminates and either raises DecodeError or returns exactly what the bytes spell out, every byte accounted for. Truncated or surplus bytes, negative lengths other than -1, an odd number of header strings, text that is not UTF-8 and field values outside the protocol\'s enumerations are refused with DecodeError and with no other exception.',
 ['inputs'],'all byte strings (header maps up to the stated bound; frames with arbitrary fixed headers and arbitrary body lengths)',
 'Only two well-formed frames are ever decoded by the tests; the malformed space is unbounded.',
 [SH,PB,RQ,RS],[('_bytes_to_str',SH),('bolt_header_from_stream / bolt_content_from_stream',PB)],['SofaHeader.from_bytes','BoltRequest.from_stream','BoltResponse.from_stream'])
p('C05','Messages that do not fit the wire format are refused, never mis-encoded',
 'Encoding a request or response either yields a frame that decodes to the same field values or raises a protocol error (EncodeError or ParamTypeError). A request id or timeout beyond its signed 32-bit field, a header block above 65535 bytes, non-bytes content, header names or values that are not strings UTF-8 can encode, and a missing or non-integer request id are refused with such an error and never truncated, wrapped or silently defaulted; for a header object that is not a SofaHeader no frame is produced.',
 ['inputs'],'all integer field values of any magnitude, header blocks and contents of any length, and the listed ill-typed values',
 'No existing test encodes anything out of range.',
 [RQ,RS,PB,SH],[('validate',PB),('to_stream error wrapping',RQ),('to_stream error wrapping',RS)],['to_stream()'])
p('C06','Request ids are 31-bit non-negative and do not repeat',
 'Each new request gets a request id between 0 and 2147483647, and no two of any 2147483648 consecutive requests of a process share an id, whatever the random starting point, including across the wrap-around and when several threads make requests at once.',
 ['inputs','histories','schedules'],'all starting points, all positions in the sequence, all interleavings (up to the stated number of interruptions)',
 'The test draws one id and checks only its range; wrap-around happens once per two billion requests.',
 [RI,RQ,HB],[('RequestId iterator',RI),('new_request',RQ)],['BoltRequest.new_request().request_id','next(RequestId)'])

p('C07','The asyncio server answers every two-way request once, with its outcome',
 'For every well-formed two-way request whose connection stays up, the asyncio server sends exactly one response, carrying that request\'s id. Its status is SUCCESS with exactly the bytes the service returned (including empty bytes), CLIENT_SEND_ERROR when service or method name is missing, NO_PROCESSOR for an unknown interface or method, SERVER_EXCEPTION when the service object cannot be created or the trace context is malformed, TIMEOUT when the request\'s positive timeout expires first, and a non-success status with empty content when the service method raises or returns something that is not bytes.',
 ['inputs','schedules','fault_sequences'],'all request ids, timeouts, header maps, bodies, results and service outcomes, and every order of completion and timeout',
 'Tests call one method that always returns a short non-empty result; empty results, failing services, missing names and timeouts are never exercised.',
 [AL,BL,FR],[('_dispatch',AL),('handle_request',AL),('FailResponse.response_to',FR)],['bytes written to the connection'])
p('C08','One-way requests run the service once and are never answered',
 'For every one-way request the asyncio server invokes the addressed service method exactly once with the request body when interface and method exist, and writes nothing back on the connection, whatever the outcome of the service or the lookup.',
 ['inputs','fault_sequences'],'all request ids, header maps, bodies and outcomes',
 'No existing test sends a one-way request.',
 [AL],[('PTYPE.ONEWAY branch in _dispatch',AL)],['service invocations','bytes written to the connection'])
p('C09','A bad request does not disturb the other requests on its connection',
 'When a request on an asyncio server connection carries an undecodable header map, a wrong class name or a response command code, the server answers that request\'s id with CODEC_EXCEPTION or CLIENT_SEND_ERROR respectively, never invokes a service for it, and handles every following request on the same connection exactly as if the bad one had not been sent.',
 ['inputs','histories'],'all sequences of good and bad requests (up to the stated number), with arbitrary section lengths and contents',
 'Tests never send a malformed request, let alone one followed by others; the framing fault depends on the lengths in the bad frame.',
 [AL],[('_handler_connection read order and error branches',AL)],['bytes written to the connection','service invocations'])
p('C10','Services receive exactly the request addressed to them',
 'Each dispatched request creates one service object of the class registered for the interface named in the request header, with the request\'s trace context (trace id and rpc id) and the extra arguments given at registration, and invokes the named method exactly once with exactly the request\'s content bytes. With several requests in flight on one or more connections, each response carries the id of the request whose service invocation produced its content, on the connection that request came from, for every order in which services finish.',
 ['inputs','schedules'],'all request contents, ids and interface/method assignments, and every completion order of the requests in flight (up to the stated number)',
 'The ten-thread test only sees orders the scheduler happens to produce, with equal service delays.',
 [AL,BL,TR],[('register_interface / handle_request',AL),('_dispatch',AL)],['service constructor and method arguments','bytes written to each connection'])
p('C11','Servers answer heartbeats with the same id and SUCCESS',
 'For every heartbeat request, whatever its id, class name, header and content, the asyncio and the blocking server reply with exactly one heartbeat response carrying the same request id, SUCCESS status and an empty class name, header and content, and invoke no service. On the asyncio server the requests after it on the connection are still served.',
 ['inputs'],'all request ids and section contents',
 'One test sends a single canonical heartbeat to the asyncio server.',
 [AL,SL,HB],[('CMDCODE.HEARTBEAT branch',AL),('CMDCODE.HEARTBEAT branch',SL),('HeartbeatResponse.response_to',HB)],['bytes written to the connection'])
p('C12','Connection loss never runs partial requests or answers a request twice',
 'Wherever the incoming byte stream of an asyncio server connection ends, no service is invoked for the incomplete request, every complete request before it is dispatched once, the connection is closed on the server side and its task ends. No request id that was already accepted for dispatch is answered with CONNECTION_CLOSED; only a request cut off after its fixed header may be.',
 ['inputs','crash_points','fault_sequences'],'every cut position in a sequence of requests (up to the stated number) with arbitrary lengths',
 'Tests never close a connection in the middle of a frame nor look at what the server writes at end of stream.',
 [AL],[('EOFError branch of _handler_connection',AL)],['bytes written to the connection','service invocations','writer.close'])
p('C13','The blocking server answers faithfully and always terminates',
 'For every byte stream arriving in any fragmentation and ending anywhere, whatever other connections are served at the same time, the blocking server\'s connection handler terminates. It invokes the addressed service method exactly once with exactly the request content when a well-formed business request naming a registered interface and existing method arrived completely, replying to a two-way request with exactly one SUCCESS response carrying its id and the returned bytes and to a one-way request with nothing; missing service or method names of a two-way request are answered with CLIENT_SEND_ERROR. For a request that is cut off, has another class name, a response command code or an undecodable header map, or names an unknown interface or method, no service runs and no success is reported.',
 ['inputs','crash_points','fault_sequences'],'all request fields, section lengths, fragmentations and cut positions',
 'No existing test starts the blocking server.',
 [SL],[('_readexactly',SL),('SockBoltHandler.handle',SL),('SockServiceHandler.handle_request',SL)],['bytes written to the socket','service invocations'])

p('C14','Async client calls get only their own response',
 'With any number of calls in flight on an asyncio client connection, and responses arriving in any order, duplicated, or with ids nobody waits for, each call that returns content returns exactly the content of a SUCCESS response carrying its own request id, and every call whose SUCCESS response arrives while it waits does return. Unknown and duplicate responses are ignored and leave the other calls unaffected.',
 ['inputs','schedules','histories'],'all ids and contents, every arrival order, duplication and interleaving with sending (up to the stated number of calls and frames)',
 'Tests issue ten calls to a well-behaved server; stray, duplicate, early or reordered responses never occur.',
 [AC],[('_recv_response',AC),('_send_request',AC),('invoke',AC)],['results of invoke_sync / invoke_async'],
 [('request_mapping','waiting calls by request id',AC),('response_mapping','responses delivered but not yet picked up',AC)])
p('C15','Error responses reach the async caller as errors',
 'When the response to an asyncio client call has a status other than SUCCESS, the call fails with ServerError naming that status, and never returns content; its callback, if any, is not invoked. Responses that cannot be decoded or carry a request or heartbeat command code never complete any call with content, and other calls on the same connection are unaffected.',
 ['inputs','schedules'],'all statuses, ids and contents, in every position among other responses (up to the stated number)',
 'Tests never receive an error response.',
 [AC,'anthunder/exceptions.py'],[('_recv_response error branches',AC),('ServerError.from_statuscode','anthunder/exceptions.py')],['exception raised by invoke_sync / invoke_async future'])
p('C16','Async client one-way calls send one one-way frame and wait for nothing',
 'Each one-way call of the asyncio client sends exactly one frame, of type one-way, that carries the given content and names the given interface and method, and returns without waiting; a two-way call sends exactly one frame of type request carrying its timeout. A call that failed to be sent is never reported as answered.',
 ['inputs'],'all interfaces, methods, contents and timeouts',
 'No existing test makes a one-way call or looks at the frame the asyncio client sends.',
 [AC,RQ],[('invoke_oneway',AC),('new_request',RQ)],['bytes written to the connection'])
p('C17','The async client shares one live connection per address and recovers from loss',
 'Concurrent calls of an asyncio client to one address dial it once and share the connection. After that connection is lost, a later call re-dials and is sent in full on a live connection unless dialling fails or three connections in a row break while it is being sent, and a failure of one call to be encoded or dialled does not break the connection or the outcome of other calls, nor does a dial that is never answered hold up calls to another address.',
 ['schedules','fault_sequences','inputs'],'every interleaving of concurrent calls with dial completion, write failures and connection loss (up to the stated number)',
 'Tests only count tasks after ten successful calls; write failures and lost connections are never injected.',
 [AC],[('_get_connection',AC),('_send_request retry',AC)],['open_connection calls','bytes written per connection','call results'],
 [('connection_mapping','live connection per address',AC),('_pending_dial','dial lock per address',AC)])
p('C18','Async client calls leave nothing behind and none waits on a dead connection',
 'Once an asyncio client call has ended, by result, error, timeout or failure to send, the client keeps no bookkeeping for its request id. When a connection is lost, every call waiting for a response on it ends with an error rather than waiting forever.',
 ['schedules','fault_sequences'],'every interleaving of responses, timeouts and connection loss (up to the stated number of calls)',
 'Leaks and lost wake-ups are invisible to tests that only look at successful results.',
 [AC],[('request_mapping / response_mapping handling',AC),('_recv_response exit',AC)],['size of the client\'s bookkeeping','state of pending futures'])
p('C19','Client heartbeats keep going and report the truth',
 'With a service mesh present, the asyncio client sends a heartbeat to the mesh address once per interval for as long as it lives, no matter whether earlier heartbeats were answered, refused or could not be sent. A heartbeat is reported successful exactly when a heartbeat response with the same id and SUCCESS status arrives.',
 ['fault_sequences','inputs','schedules'],'every sequence of heartbeat outcomes (up to the stated number of intervals), all ids and statuses',
 'The interval is 30 s; the test suite lasts 2 s and never reaches the first heartbeat of the client.',
 [AC,HB],[('_heartbeat_timer',AC),('invoke_heartbeat',AC)],['frames written to the connection','result of invoke_heartbeat'])
p('C20','The blocking client returns exactly the content of its own response',
 'For every fragmentation of the response stream, a synchronous call of the blocking client returns exactly the content of the response when it is complete, SUCCESS and carries the id of the request sent; it raises ServerError for another status or another id, and a protocol error for an undecodable response. It never returns partial, surplus or foreign content.',
 ['inputs','schedules'],'all ids, statuses, lengths, contents and fragmentations (up to the stated number of fragments)',
 'The loopback test receives one small response in one piece.',
 [CL,PB],[('Client.invoke_sync read loop',CL)],['result or exception of Client.invoke_sync'])
p('C21','Blocking client calls end: at EOF, and by their deadline',
 'A synchronous call of the blocking client ends with an error when the peer closes the connection before the response is complete, and ends with TimeoutError when the response is not complete by timeout plus the documented one-second grace. It never keeps polling after either.',
 ['schedules','fault_sequences'],'every sequence of fragments, silence and close, at all times (up to the stated number of events)',
 'Tests never let the peer close early or answer late.',
 [CL],[('deadline and select loop',CL)],['result or exception of Client.invoke_sync','number of polls after close or deadline'])
p('C22','The blocking client sends each request frame completely',
 'Each call of the blocking client writes the complete encoding of one request (type one-way for one-way calls, otherwise type request with the call\'s timeout) to one connection, however few bytes the socket accepts at a time, and after a connection found unusable retries on another connection at most twice more. If no attempt succeeds the call raises an error.',
 ['inputs','fault_sequences'],'all frame lengths and partial-write patterns, every pattern of unusable connections',
 'Tests send frames far smaller than a socket buffer.',
 [CL,CN],[('_raw_invoke',CL),('SocketConnection.send',CN)],['bytes accepted by the socket','exception of the call'])
p('C23','Mesh operations succeed only when the mesh says so',
 'A mesh operation (register application, subscribe, unsubscribe, publish, unpublish) returns normally exactly when the sidecar answers HTTP 200 with success true, and raises otherwise. The application registration of each mesh client is posted until it succeeds once and not again after that, also when several threads start one mesh client up at once, with falsy application fields left out and all others sent unchanged.',
 ['inputs','histories','schedules'],'all HTTP statuses and answer bodies, every sequence of startup attempts (up to the stated number), all combinations of empty and non-empty fields',
 'The mock always answers 200 and success.',
 [MC],[('_post',MC),('startup',MC)],['HTTP posts made','result or exception of each operation'])
p('C24','Service addresses follow subscriptions and explicit mappings',
 'The address a call goes to is the one explicitly mapped for its interface (a bare host using port 12200), otherwise the mesh address. A mapping once set is never replaced by another assignment or by a subscription, not even when several threads set it at once, a successful unsubscription removes it, and a subscription or unsubscription that the mesh refuses changes nothing and is not raised to the caller.',
 ['histories','inputs','schedules'],'every sequence of map, subscribe and unsubscribe operations with every mesh outcome (up to the stated number)',
 'One test resolves one unknown interface; one assigns a key twice.',
 [CB,'anthunder/helpers/immutable_dict.py','anthunder/__init__.py'],[('_get_address / subscribe / unsubscribe',CB),('ImmutableValueDict','anthunder/helpers/immutable_dict.py')],['address dialled','SERVICE_MAP'])
p('C25','Publishing announces exactly the listener\'s registered interfaces',
 'Publishing a listener announces to the mesh each interface registered on it exactly once, with the listener\'s port, application name and protobuf serialization, and unpublishing revokes each of them exactly once. Interfaces registered on another listener are neither announced nor served by it, and without a mesh neither operation does anything.',
 ['histories','inputs'],'every sequence of registrations on two listeners (up to the stated number), all ports and names',
 'Tests post one hand-made publish request; no listener is ever published.',
 [BL,AL,MC],[('publish / unpublish',BL),('interface_mapping',BL)],['HTTP posts made','services invoked'],
 [('interface_mapping','registered services',BL)])

p('C26','A connection pool never exceeds max_connections and frees discarded slots',
 'In every history of checkouts and returns, the number of connections a pool has open (free or checked out) never exceeds max_connections, and its reported connection count equals that number while the pool is open. A checkout at the limit raises EmptyPoolError, a connection discarded because the free list is full or because it was dropped frees its slot, and a checkout that fails takes no slot.',
 ['histories','inputs','fault_sequences'],'all pool sizes and every sequence of checkout, return, peer drop and connect failure (up to the stated length)',
 'One test plays one fixed sequence with one configuration and with drop detection mocked away.',
 [CP,UT],[('_new_conn / get_conn / put_conn',CP)],['connections created and not closed','num_connections'],
 [('num_connections','open connections of the pool',CP)])
p('C27','Pooled connections are exclusive, live and closed when given up',
 'A pool never hands out a connection that is already checked out, already closed, or known dropped by the peer at the time of checkout; a connection returned when the free list is full or the pool is closed is closed. Closing a pool closes every free connection and may be repeated, and a checkout from a closed pool raises ClosedPoolError.',
 ['histories','fault_sequences'],'every sequence of checkout, return, peer drop and close (up to the stated length), all pool sizes',
 'The single pool test mocks away drop detection and never closes the pool.',
 [CP,UT,CN],[('get_conn drop check',CP),('put_conn',CP),('close',CP)],['connections handed out','close calls'])
p('C28','Pool limits hold under concurrent threads',
 'When several threads check out and return connections of one pool concurrently, the number of open connections never exceeds max_connections, no connection is handed to two threads at once, and the reported count equals the open connections once all threads are done.',
 ['schedules','histories'],'every interleaving (at lock operations and source-line boundaries, up to the stated number of context switches) of the threads\' operations, all pool sizes',
 'Tests use the pool from one thread only.',
 [CP],[('_lock',CP)],['connections created and not closed','connections handed out','num_connections'])
p('C29','The LRU container evicts the oldest key and disposes each value once',
 'In every history of lookups, insertions, overwrites, deletions and clears, the container holds at most maxsize keys, returns for each present key the value last stored under it, evicts exactly the least recently used key (looked up or stored longest ago) when an insertion exceeds the limit, and disposes each evicted, overwritten, deleted or cleared value exactly once and no value still stored. When several threads use it, their operations take effect as if one after the other.',
 ['histories','inputs','schedules'],'every sequence of operations (up to the stated length) over arbitrary keys, all maximum sizes',
 'Only one eviction is tested, through the pool manager.',
 [LR],[('__getitem__ / __setitem__ / __delitem__ / clear',LR)],['dispose_func calls','contents'])
p('C30','One live pool per key, and scoped connections always go back',
 'Asking the pool manager for the same key returns the same open pool as long as fewer than max_pools other keys were used since, also when several threads ask at once, at most max_pools pools are open, and pools that are evicted or cleared are closed. A scoped connection is returned to its pool exactly once, whether the body finishes or raises, and the body\'s exception reaches the caller unchanged.',
 ['histories','fault_sequences','schedules'],'every sequence of key lookups, clears and scopes (up to the stated length), all limits; two threads asking concurrently',
 'One fixed four-step sequence and one successful scope are tested.',
 [PM,LR,CP],[('connection_pool_from_pool_key',PM),('connection_scope',PM)],['pools returned and closed','put_conn calls'])
p('C31','Exact socket reads return exactly the requested bytes or fail',
 'Reading exactly n bytes from a pooled socket connection returns the next n bytes of the stream in order, for every fragmentation, consumes nothing beyond them, and raises an error instead of waiting forever when the peer closes first.',
 ['inputs','schedules','fault_sequences'],'all n and fragmentations (up to the stated number of fragments), every close position',
 'Not tested at all.',
 [CN],[('recvexactly',CN)],['returned bytes','recv calls'])

p('C32','Span ids within a trace are unique and hierarchical',
 'A child span\'s rpc id is its parent\'s id extended by one positive segment, and a span that follows a child span is a further child of the same parent. All spans derived by any sequence of child-of and follows-from operations from spans of one tracer below a common root have distinct rpc ids, children of one parent being numbered consecutively from 1, also when several threads derive them.',
 ['histories','inputs','schedules'],'every derivation sequence (up to the stated length), all root rpc ids including non-numeric inner segments',
 'Two fixed derivation sequences are tested; ids collide only for particular orders.',
 [RP,SC,TR,TH],[('_new_child_of / _new_follows_from',RP)],['sofaRpcId of each span'])
p('C33','Trace context propagates unchanged from caller to service',
 'The trace id, rpc id and every baggage item of a span context are the same after being injected into and extracted from a carrier, and after being sent in a request header, encoded, decoded and extracted by a server. A derived span keeps the trace id and baggage of its reference, and a carrier without trace or rpc id yields a fresh trace id or rpc id 1; a carrier of another format is refused.',
 ['inputs'],'all trace ids, rpc ids (integer and text segments), baggage keys and values',
 'One fixed carrier is tested and the injected carrier is only printed.',
 [TR,SC,'anthunder/protocol/_rpc_trace_context.py',SH],[('inject / extract',TR),('SpanContext.__init__',SC),('build_header',SH)],['extracted SpanContext.baggage','service ctx'])
p('C34','Generated trace ids are unique within a process',
 'Trace ids generated by one process, in any of its threads, are pairwise distinct over any 8001 consecutive generations whatever the clock does, including standing still or going backwards, and each has the documented form: 8 hexadecimal digits of the host\'s IPv4 address, the millisecond timestamp, a four-digit sequence number and the process id.',
 ['inputs','histories','schedules'],'all clock readings, host addresses, process ids and sequence positions',
 'The test compares two ids generated microseconds apart on one host.',
 [TI],[('TraceId.__init__',TI)],['str(TraceId())'])
p('C35','Spans record what they are given and always finish',
 'A started span carries the given operation name (helpers inheriting the referenced span\'s name when none is given), exactly the given tags and the given start time (also inside a with statement), and a span used as a context manager is finished when the body ends, also when it raises, the exception reaching the caller. A context\'s baggage cannot be altered by item assignment.',
 ['inputs','fault_sequences'],'all operation names, tag maps and start times, normal and exceptional exits',
 'Tests never pass tags and check only that some exception escapes.',
 [TR,SP,TH,SC],[('start_span',TR),('__exit__',SP)],['span attributes'])
p('C36','Listeners serve connections independently and stop when shut down',
 'A connection that sends nothing, sends nonsense, breaks off, or whose service fails or never returns does not keep the request of another connection to the same running listener from being answered with its own outcome (on the asyncio server as long as fewer services hang than it has workers). After the shutdown of a running listener has returned its listening socket is closed and no further connection is accepted, the blocking server\'s run_forever ends, and requests that were already being served are still answered.',
 ['schedules','fault_sequences'],'all orders of connections, arrivals, service ends and the shutdown, all interleavings of the blocking server\'s threads (up to the stated number)',
 'Tests shut listeners down only in tearDown, with nothing in flight, and never start the blocking server.',
 [AL,SL,BL],[('run_forever / shutdown',AL),('SockListener',SL),('run_threading',BL)],['responses written','whether connections are accepted','return of run_forever and shutdown'])
p('C37','The blocking client survives any number of failed calls',
 'However many calls of a blocking client ended before, and however they ended (content, one-way, error status, foreign or undecodable response, timeout, connection closed or reset, failed send, refused connections, content that cannot be encoded), a later call to an address whose server answers is sent on a usable connection and returns its own content. Calls made one at a time never leave more sockets open per address than a pool may have (20).',
 ['histories','fault_sequences'],'all endings, alone and by turns, up to the stated number of calls',
 'Tests make single calls that succeed.',
 [CL,CP,PM,CN],[('invoke_sync / _raw_invoke',CL),('get_conn / put_conn',CP)],['returned content or exception of invoke_sync','open sockets'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s)
    assert d['statement'].count('. ')<=2,(d['id'],d['statement'].count('. '))
print(len(P))
