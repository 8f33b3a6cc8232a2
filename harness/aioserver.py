"""C07-C12: the asyncio server on a virtual event loop."""
import asyncio

from harness import aio, meshenv, services, stubs, wire
from harness.aio import EPS, NEVER, Conn
from harness.services import A, B
from harness.stubs import ENV
from sx.scen import scenario

PRE = services.PRE


class Accept(object):
    """A peer connects."""

    def __init__(self, hub, conn):
        self.hub, self.conn = hub, conn
        self.open = lambda: True

    def ready(self):
        return len(self.hub.servers) > 0 and self.conn.t is None and self.open()

    def fire(self):
        self.hub.servers[0].accept(self.conn)


class Peer(Conn):
    """A client of the server under test."""

    def __init__(self, hub, items=(), pieces=0, name="piece"):
        super().__init__(hub, items, pieces, name)
        hub.add(Accept(hub, self))


def setup(S, clocked=False):
    meshenv.install_mesh(S, meshenv.refuse)
    ENV.time = lambda: 1500000000.0
    hub = aio.install(S)
    hub.clocked = clocked
    return hub


def listener(S, world, hub):
    from anthunder import AioListener
    lst = AioListener(("127.0.0.1", 12200), "app")
    lst.handler.register_interface(A, world.service(A))
    lst.handler.register_interface(B, world.service(B))
    return lst


def unfinished(hub):
    """Tasks that still wait for something."""
    return [t for loop in hub.loops for t in asyncio.all_tasks(loop) if not t.done()]


FAILS = {"Boom": services.Boom("x"), "OSError": OSError(2, "no such file"), "CancelledError": asyncio.CancelledError(),
         "TimeoutError": asyncio.TimeoutError(), "EOFError": EOFError("x"), "SystemExit": SystemExit(1),
         "KeyError": KeyError("k"), "StopIteration": StopIteration(3)}
ODD = {"None": None, "text": "text", "number": 5, "list": [b"x"], "zero": 0, "empty text": "", "dict": {}}


def outcomes(S, world, kinds=None):
    """What the service does, and the bytes it returns if it returns bytes."""
    how = S.choice("outcome", kinds or ["bytes", "fails", "odd", "never"])
    result = None
    if how == "bytes":
        result = S.blob("result", 0, 1 << 32)
        S.assume(len(result) <= 0xffffffff)
        world.outcome = lambda obj, m, body: result
    elif how == "fails":
        exc = FAILS[S.choice("exception", sorted(FAILS))]

        def boom(obj, m, body):
            raise exc
        world.outcome = boom
    elif how == "odd":
        odd = ODD[S.choice("value", sorted(ODD))]
        world.outcome = lambda obj, m, body: odd
    else:
        world.outcome = lambda obj, m, body: NEVER
    return how, result


def one_answer(S, got, rid, status, content=None):
    S.check(len(got) == 1, "one response")
    if len(got) != 1:
        return
    f = got[0]
    S.check(f.request_id == rid, "the request's id")
    if status is None:
        S.check(f.status != wire.SUCCESS, "no success is reported")
    else:
        S.check(f.status == status, "status")
    S.check(f.cmdcode == wire.CMD_RESPONSE, "a response frame")
    S.check(f.ptype == wire.RESPONSE, "of type response")
    if content is None:
        S.check(len(f.content) == 0, "no content")
    else:
        S.check(f.content == content, "the returned bytes")


def answers(S, conn):
    return wire.split(S, wire.Resp, conn.t.sent, "answer")


WHY = ["named", "unnamed", "unknown interface", "unknown method", "refused", "bad trace"]


def addressed(S, world, why):
    """Header entries, and the status that an unanswerable request gets."""
    if why == "named":
        return services.named(S.choice("named", services.NAMED), A, S.choice("method", ["say", "shout"])), None
    if why == "unnamed":
        return services.unnamed(S.choice("unnamed", services.UNNAMED)), wire.CLIENT_SEND_ERROR
    if why == "unknown interface":
        return services.named(S.choice("named", services.NAMED), S.choice("which", ["com.x.A", "com.x.C:1.0", "Say", " "])), \
            wire.NO_PROCESSOR
    if why == "unknown method":
        return services.named(S.choice("named", services.NAMED), A, S.choice("which", ["sa", "Say", "none", "say "])), \
            wire.NO_PROCESSOR
    if why == "refused":
        world.refuse = S.choice("refusal", [services.Boom("no"), ValueError("no"), AttributeError("no"), KeyError("no")])
        return services.named("both", A), wire.SERVER_EXCEPTION
    return services.named("both", A) + [(PRE + "sofaTraceId", "x"), (PRE + "sofaRpcId", S.choice("rpc", ["0.x", "", "x", "1.2.y"]))], \
        wire.SERVER_EXCEPTION


@scenario("C07", variants=[{"why": w, "pieces": 0} for w in WHY],
          thorough=[{"why": w, "pieces": 1} for w in WHY], covers=["answered"], hang=True, steps=40000)
def answered(S, why, pieces):
    """One two-way request, arriving in pieces, its service finishing before or after its timeout or never."""
    hub = setup(S, clocked=True)
    world = services.World(S)
    lst = listener(S, world, hub)
    pairs, status = addressed(S, world, why)
    how, result = outcomes(S, world, None if status is None else ["bytes"])
    rid = S.int("rid", *wire.I32)
    timeout = S.int("timeout", *wire.I32)
    body = S.blob("body", 0, 1 << 32)
    S.assume(len(body) <= 0xffffffff)
    peer = Peer(hub, [services.frame(rid, pairs, body, timeout=timeout)], pieces)
    hub.full = 1 if why == "named" and how == "bytes" else 0
    run(hub, lst)
    got = answers(S, peer)
    S.cover("answered")
    S.check(not peer.t.closing, "the connection stays up")
    if status is not None:
        one_answer(S, got, rid, status)
        S.check(len(world.calls) == 0, "no service runs")
        S.observe("status", status)
        return
    S.check(len(world.calls) == 1, "the service method runs once")
    if len(world.calls) != 1:
        return
    S.check(world.calls[0][2] == body, "exactly the request content")
    end = judge(S, peer.arrived[-1][1], hub.jobs[0] if hub.jobs else None, how == "never", timeout)
    S.cover(end)
    if end == "finished":
        if how == "bytes":
            one_answer(S, got, rid, wire.SUCCESS, result)
        else:
            one_answer(S, got, rid, None)
    elif end == "late":
        one_answer(S, got, rid, wire.TIMEOUT)
    else:
        S.check(len(got) == 0, "nothing is answered while the service runs")
    S.observe("sent", peer.t.sent)


def judge(S, arrived, job, forever, timeout):
    """How a request ended: its service finished in time, too late for its timeout, or goes on without one."""
    if job is None:
        done, at = not forever, arrived
    else:
        done, at = job.finished, job.time
    if timeout > 0:
        deadline = arrived + timeout / 1000
        if not done:
            return "late"
        if at <= deadline - EPS:
            return "finished"
        if at >= deadline:
            return "late"
        S.stop()
    return "finished" if done else "running"


@scenario("C07", variants=[{"pieces": 1, "early": 0}, {"pieces": 0, "early": 1}],
          thorough=[{"pieces": 3, "early": 0}, {"pieces": 1, "early": 1}, {"pieces": 0, "early": 2}], covers=["SUCCESS", "NO_PROCESSOR"], hang=True, steps=40000)
def in_pieces(S, pieces, early):
    """Two requests one behind the other, cut anywhere, the second for a method that exists or not."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    known = S.flag("known")
    rids = [S.int("rid", *wire.I32), S.int("rid", *wire.I32)]
    S.assume(rids[0] != rids[1])
    bodies = [S.blob("body", 0, 1 << 32), S.blob("body", 0, 1 << 32)]
    for b in bodies:
        S.assume(len(b) <= 0xffffffff)
    data = services.frame(rids[0], services.named("both", A), bodies[0], timeout=0)
    data = data + services.frame(rids[1], services.named("both", B, "say" if known else "none"), bodies[1], timeout=-1)
    peer = Peer(hub, [data], pieces)
    hub.early = early
    run(hub, lst)
    got = answers(S, peer)
    one_answer(S, [f for f in got if f.request_id == rids[0]], rids[0], wire.SUCCESS, bodies[0])
    last = [f for f in got if f.request_id == rids[1]]
    S.cover("SUCCESS" if known else "NO_PROCESSOR")
    one_answer(S, last, rids[1], wire.SUCCESS if known else wire.NO_PROCESSOR, bodies[1] if known else None)
    S.check(len(got) == 2, "nothing else is written")
    S.check(len(world.calls) == (2 if known else 1), "each service runs once")
    S.observe("sent", peer.t.sent)


FAILING = {"service": wire.CLIENT_SEND_ERROR, "method": wire.CLIENT_SEND_ERROR, "interface": wire.NO_PROCESSOR, "no method": wire.NO_PROCESSOR,
           "trace": wire.SERVER_EXCEPTION, "raises": wire.UNKNOWN}


@scenario("C07", variants=[{"n": 2, "conns": 1}, {"n": 2, "conns": 2}], thorough=[{"n": 3, "conns": 1}, {"n": 3, "conns": 2}], covers=["failed"],
          hang=True, steps=40000)
def several_failures(S, n, conns):
    """Requests with any ids that all fail, the same way or not: each is answered for itself."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)

    def fails(obj, m, body):
        raise services.Boom("x")
    world.outcome = fails
    peers = [Peer(hub) for _ in range(conns)]
    asked = []
    for i in range(n):
        how = S.choice("how", sorted(FAILING)) if i < 2 else asked[0][2]
        rid = S.int("rid", *wire.I32)
        for c, o, _ in asked:
            if c == i % conns:
                S.assume(rid != o)
        asked.append((i % conns, rid, how))
        if how in ("service", "method"):
            names = services.named("both", "" if how == "service" else A, "" if how == "method" else "say")
        elif how == "trace":
            names = services.named("both", A) + [("rpc_trace_context.sofaRpcId", "1.x")]
        else:
            names = services.named("both", "com.x.none" if how == "interface" else A, "none" if how == "no method" else "say")
        peers[i % conns].push(services.frame(rid, names, S.blob("body", 0, 100), timeout=0))
    run(hub, lst)
    S.cover("failed")
    for c in range(conns):
        got = answers(S, peers[c])
        mine = [a for a in asked if a[0] == c]
        S.check(len(got) == len(mine), "one response for each")
        for _, rid, how in mine:
            one_answer(S, [f for f in got if f.request_id == rid], rid, FAILING[how])
        S.check(not peers[c].t.closing, "the connection stays up")
    S.check(len(world.calls) == len([a for a in asked if a[2] == "raises"]), "services invoked")


@scenario("C07", variants=[{"pieces": 2}], thorough=[{"pieces": 4}], covers=["SUCCESS"], hang=True, steps=40000)
def one_in_pieces(S, pieces):
    """One request cut anywhere."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    rid = S.int("rid", *wire.I32)
    body = S.blob("body", 0, 1 << 32)
    S.assume(len(body) <= 0xffffffff)
    peer = Peer(hub, [services.frame(rid, services.named("both", A), body, timeout=S.int("timeout", -1, 0))], pieces)
    run(hub, lst)
    one_answer(S, answers(S, peer), rid, wire.SUCCESS, body)
    S.cover("SUCCESS")
    S.check(len(world.calls) == 1, "the service runs once")
    S.observe("sent", peer.t.sent)


def run(hub, lst):
    lst.run_forever()


# ------------------------------------------------------------------------------------------------------------- C08

@scenario("C08", variants=[{"why": w} for w in WHY], covers=["one-way"], hang=True, steps=40000)
def unanswered(S, why):
    """One one-way request, and what follows it: nothing, a two-way request, the end of the stream or a reset."""
    hub = setup(S, clocked=True)
    world = services.World(S)
    lst = listener(S, world, hub)
    pairs, status = addressed(S, world, why)
    how, result = outcomes(S, world, None if status is None else ["bytes"])
    rid, rid2 = S.int("rid", *wire.I32), S.int("rid", *wire.I32)
    S.assume(rid != rid2)
    body = S.blob("body", 0, 1 << 32)
    S.assume(len(body) <= 0xffffffff)
    after = S.choice("after", ["nothing", "two-way", "eof", "lost"])
    items = [services.frame(rid, pairs, body, wire.ONEWAY, timeout=S.int("timeout", *wire.I32))]
    if after == "two-way":
        items.append(services.frame(rid2, services.named("both", "com.x.none"), b"", timeout=0))
    elif after != "nothing":
        items.append(after)
    peer = Peer(hub, items)
    run(hub, lst)
    S.cover("one-way")
    got = answers(S, peer)
    S.check(len([f for f in got if f.request_id == rid]) == 0, "a one-way request is not answered")
    S.check(peer.t.attempts == (1 if after == "two-way" else 0), "nothing is written for a one-way request")
    if after == "two-way":
        one_answer(S, got, rid2, wire.NO_PROCESSOR)
    if status is None:
        S.check(len(world.calls) == 1, "the service method runs once")
        if len(world.calls) == 1:
            obj, m, arg = world.calls[0]
            S.check(obj.name == A and ("sofa_head_method_name", m) in pairs, "the addressed method")
            S.check(arg == body, "exactly the request content")
    else:
        S.check(len(world.calls) == 0, "no service runs")
    if after in ("nothing", "two-way"):
        S.check(not peer.t.closing, "the connection stays up")
    S.observe("sent", peer.t.sent)


@scenario("C08", variants=[{"pieces": 1, "early": 0}, {"pieces": 0, "early": 1}, {"pieces": 0, "early": 0, "lazy": 2}],
          thorough=[{"pieces": 3, "early": 0}, {"pieces": 1, "early": 1}, {"pieces": 0, "early": 2}, {"pieces": 1, "early": 1, "lazy": 2}],
          covers=["one-way"], hang=True, steps=40000)
def several_oneways(S, pieces, early, lazy=0):
    """Two one-way requests one behind the other, cut anywhere, with any ids, the first one's service failing or never ending."""
    hub = setup(S, clocked=lazy > 0)
    world = services.World(S)
    lst = listener(S, world, hub)
    first = S.choice("first", ["fine", "fails", "never"])

    def outcome(obj, m, body):
        if m == "say" and first != "fine":
            if first == "never":
                return NEVER
            raise services.Boom("x")
        return b"result"
    world.outcome = outcome
    bodies = [S.blob("body", 0, 1 << 32), S.blob("body", 0, 1 << 32)]
    data = b""
    for i in range(2):
        S.assume(len(bodies[i]) <= 0xffffffff)
        data = data + services.frame(S.int("rid", *wire.I32), services.named("both", (A, B)[i], ("say", "shout")[i]), bodies[i], wire.ONEWAY,
                                     timeout=S.int("timeout", *wire.I32) if lazy else -1)
    peer = Peer(hub, [data], pieces)
    hub.early = early
    hub.lazy = lazy
    run(hub, lst)
    S.cover("one-way")
    S.check(peer.t.attempts == 0, "nothing is written for a one-way request")
    S.check(len(world.calls) == 2, "each service method runs once")
    for i in range(2):
        mine = [c for c in world.calls if c[1] == ("say", "shout")[i]]
        S.check(len(mine) == 1 and mine[0][0].name == (A, B)[i], "the addressed method")
        if len(mine) == 1:
            S.check(mine[0][2] == bodies[i], "exactly the request content")
    S.check(not peer.t.closing, "the connection stays up")


# ------------------------------------------------------------------------------------------------------------- C09

def bad_request(S, kind, rid, ptype, few=False):
    """A request the server has to refuse, and the status it refuses it with."""
    pairs = services.named("both", A)
    body = S.blob("badbody", 0, 1 << 20)
    cls, cmd, hb, status = wire.REQ_CLASS, wire.CMD_REQUEST, wire.header_bytes(pairs), wire.CLIENT_SEND_ERROR
    if kind == "command":
        cmd = wire.CMD_RESPONSE
        if not few and S.flag("other class"):
            cls = S.choice("class", [b"", wire.RESP_CLASS])
    elif kind == "class":
        how = S.choice("how", ["any"] if few else ["any", "empty", "longer", "shorter", "response", "one byte"])
        if how == "any":
            cls = S.blob("class", 0, 65535)
            S.assume(cls != wire.REQ_CLASS)
        elif how == "one byte":
            cls = cls[:9] + S.bytes("c", 1) + cls[10:]
            S.assume(cls != wire.REQ_CLASS)
        else:
            cls = {"empty": b"", "response": wire.RESP_CLASS, "longer": cls + b"x", "shorter": cls[:-1]}[how]
    else:
        status = wire.CODEC_EXCEPTION
        how = S.choice("how", ["odd"] if few else ["cut short", "odd", "length", "text", "few bytes"])
        if how == "cut short":
            hb = hb[:-1]
        elif how == "odd":
            hb = hb + wire.entry("key")
        elif how == "length":
            n = S.int("n", *wire.I32)
            S.assume((n < -1) | (n > 3))
            hb = hb + wire.num(n, 4, True) + b"key"
        elif how == "text":
            hb = hb + wire.entry("k") + wire.num(1, 4, True) + wire.num(S.int("c", 128, 255), 1)
        else:
            hb = S.bytes("few", S.choice("n", [1, 2, 3]))
    return services.frame(rid, pairs, body, ptype, cmd, class_name=cls, header=hb), status


BAD = ["header", "class", "command"]


@scenario("C09", variants=[{"kind": k, "pieces": 0, "early": e} for k in BAD for e in (0, 1)] + [{"kind": k, "pieces": 1, "early": 0} for k in BAD],
          thorough=[{"kind": k, "pieces": p, "early": e} for k in BAD for p, e in ((0, 2), (2, 0))], covers=["refused"], hang=True, steps=60000)
def bad_between_good(S, kind, pieces, early):
    """A good request, a bad one and another good one on one connection."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    rids = [S.int("rid", *wire.I32) for _ in range(3)]
    S.assume((rids[0] != rids[1]) & (rids[1] != rids[2]) & (rids[0] != rids[2]))
    bodies = [S.blob("body", 0, 1 << 20) for _ in range(2)]
    bad, status = bad_request(S, kind, rids[1], wire.REQUEST, pieces > 0)
    first = S.flag("first") if pieces == 0 else True
    data = services.frame(rids[0], services.named("both", A), bodies[0]) if first else b""
    data = data + bad + services.frame(rids[2], services.named("service only", B, "shout"), bodies[1])
    hub.early = early
    peer = Peer(hub, [data], pieces)
    run(hub, lst)
    got = answers(S, peer)
    S.cover("refused")
    one_answer(S, [f for f in got if f.request_id == rids[1]], rids[1], status)
    want = []
    if first:
        one_answer(S, [f for f in got if f.request_id == rids[0]], rids[0], wire.SUCCESS, bodies[0])
        want.append((A, "say", bodies[0]))
    one_answer(S, [f for f in got if f.request_id == rids[2]], rids[2], wire.SUCCESS, bodies[1])
    want.append((B, "shout", bodies[1]))
    S.check(len(got) == len(want) + 1, "nothing else is written")
    S.check(len(world.calls) == len(want), "each good request runs its service once, the bad one none")
    if len(world.calls) == len(want):
        for (obj, m, arg), (n, wm, wb) in zip(world.calls, want):
            S.check(obj.name == n and m == wm, "the addressed method")
            S.check(arg == wb, "exactly the request content")
    S.check(not peer.t.closing, "the connection stays up")
    S.observe("sent", peer.t.sent)


@scenario("C09", variants=[{"kinds": [a, b]} for a in BAD for b in BAD], covers=["refused"], hang=True, steps=60000)
def bad_after_bad(S, kinds):
    """Two bad requests in a row, then a good one."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    rids = [S.int("rid", *wire.I32) for _ in range(3)]
    S.assume((rids[0] != rids[1]) & (rids[1] != rids[2]) & (rids[0] != rids[2]))
    body = S.blob("body", 0, 1 << 20)
    items, status = [], []
    for k, r in zip(kinds, rids):
        f, st = bad_request(S, k, r, wire.REQUEST)
        items.append(f)
        status.append(st)
    items.append(services.frame(rids[2], services.named("both", A), body))
    peer = Peer(hub, items)
    run(hub, lst)
    got = answers(S, peer)
    S.cover("refused")
    for i in (0, 1):
        one_answer(S, [f for f in got if f.request_id == rids[i]], rids[i], status[i])
    one_answer(S, [f for f in got if f.request_id == rids[2]], rids[2], wire.SUCCESS, body)
    S.check(len(world.calls) == 1, "only the good request runs a service")
    S.observe("sent", peer.t.sent)


# ------------------------------------------------------------------------------------------------------------- C10

def traced(S, i, same=None):
    """Trace entries of a request: none, any trace id and an rpc id of its own, or those of another request."""
    how = "own" if i == 0 else S.choice("traced", ["none", "own"] + (["same"] if same else []))
    if how == "same":
        return [(PRE + "sofaTraceId", same[0]), (PRE + "sofaRpcId", same[1])], same
    if how == "own":
        rpc = ["0.1.10", "0.2"][i]
        t = S.textblob("trace", 1, 100)
        return [(PRE + "sofaTraceId", t), (PRE + "sofaRpcId", rpc)], (t, rpc)
    return [], None


@scenario("C10", variants=[{"n": 2, "conns": c, "early": e} for c, e in ((1, 0), (1, 1), (2, 0))] + [{"n": 3, "conns": 1, "early": 0}] +
          [{"n": 2, "conns": 1, "early": 0, "pieces": 1}, {"n": 2, "conns": 1, "early": 0, "lazy": 1}] +
          [{"n": 2, "conns": 1, "early": 1, "full": 1}],
          thorough=[{"n": 3, "conns": c, "early": e} for c, e in ((1, 1), (2, 0), (2, 1))] + [{"n": 4, "conns": 2, "early": 0}] +
          [{"n": 2, "conns": c, "early": 1, "pieces": 2} for c in (1, 2)] + [{"n": 3, "conns": 1, "early": 0, "lazy": 2}],
          covers=["out of order", "in order"], hang=True, steps=60000, quick_s=100)
def in_flight(S, n, conns, early, pieces=0, lazy=0, full=0):
    """Several requests in flight whose services finish in any order."""
    hub = setup(S)
    world = services.World(S)
    from anthunder import AioListener
    lst = AioListener(("127.0.0.1", 12200), "app")
    extra = object()
    lst.handler.register_interface(A, world.service(A), "arg", extra, key=extra)
    lst.handler.register_interface(B, world.service(B))
    results = {}

    def outcome(obj, m, body):
        r = "r%d" % len(results)
        results[r] = (obj, m, body)
        return r.encode()
    world.outcome = outcome
    peers = [Peer(hub, pieces=pieces if i == 0 else 0) for i in range(conns)]
    asked = []
    for i in range(n):
        rid = S.int("rid", *wire.I32)
        c = i % conns
        for o in asked:
            if o["conn"] == c:
                S.assume(rid != o["rid"])
        inf = A if i == 0 else S.choice("interface", [A, B])
        m = "shout" if i == 0 else S.choice("method", ["say", "shout"])
        again = asked[0]["ctx"] if i == 1 and n == 2 and not early and not pieces and not lazy else None
        entries, ctx = traced(S, i, again) if i < 2 else ([], None)
        body = S.blob("body", 0, 1 << 20)
        asked.append({"rid": rid, "conn": c, "inf": inf, "m": m, "ctx": ctx, "body": body})
        peers[c].push(services.frame(rid, services.named("both", inf, m) + entries, body, timeout=S.int("timeout", -1, 0)))
    hub.early = early
    hub.lazy = lazy
    hub.full = full
    run(hub, lst)
    S.check(len(world.created) == n, "one service object per request")
    S.check(len(world.calls) == n, "each method runs once")
    order = []
    used = []
    for q in asked:
        got = [f for f in answers(S, peers[q["conn"]]) if f.request_id == q["rid"]]
        S.check(len(got) == 1, "one response")
        if len(got) != 1:
            continue
        f = got[0]
        S.check(f.status == wire.SUCCESS, "SUCCESS")
        k = [r for r in sorted(results) if f.content == r.encode()]
        S.check(len(k) == 1 and k[0] not in used, "content of one service invocation")
        if len(k) != 1:
            continue
        used.append(k[0])
        obj, m, body = results[k[0]]
        S.check(obj.name == q["inf"], "the addressed interface")
        S.check(m == q["m"], "the addressed method")
        S.check(body == q["body"], "exactly the request's content")
        if q["inf"] == A:
            S.check(obj.args == ("arg", extra) and obj.kwargs == {"key": extra}, "the arguments given at registration")
        else:
            S.check(obj.args == () and obj.kwargs == {}, "no arguments")
        if q["ctx"] is not None:
            S.check(str(obj.ctx.baggage["sofaTraceId"]) == q["ctx"][0], "the request's trace id")
            S.check(str(obj.ctx.baggage["sofaRpcId"]) == q["ctx"][1], "the request's rpc id")
        order.append(int(k[0][1:]))
    S.check(sum(len(answers(S, p)) for p in peers) == n, "nothing else is written")
    ends = [r for p in peers[:1] for f in answers(S, p) for r in sorted(results) if f.content == r.encode()]
    S.cover("in order" if ends == sorted(ends) else "out of order")
    if conns > 1:
        S.cover("out of order")
    for p in peers:
        S.observe("sent", p.t.sent)


@scenario("C10", variants=[{"n": 3}], thorough=[{"n": 5}], covers=["answered"], hang=True, steps=60000)
def beside_a_stuck_one(S, n):
    """Requests are answered while others never finish."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    stuck = [S.flag("stuck") for _ in range(n)]
    world.outcome = lambda obj, m, body: NEVER if stuck[len(world.calls) - 1] else body
    rids, bodies = [], []
    peer = Peer(hub)
    for i in range(n):
        r = S.int("rid", *wire.I32)
        for o in rids:
            S.assume(r != o)
        rids.append(r)
        bodies.append(S.blob("body", 0, 1 << 20))
        peer.push(services.frame(r, services.named("both", A), bodies[i]))
    run(hub, lst)
    got = answers(S, peer)
    S.check(len(world.calls) == n, "each method runs once")
    for i in range(n):
        mine = [f for f in got if f.request_id == rids[i]]
        if stuck[i]:
            S.check(len(mine) == 0, "nothing is answered while the service runs")
        else:
            S.cover("answered")
            one_answer(S, mine, rids[i], wire.SUCCESS, bodies[i])
    S.observe("sent", peer.t.sent)


# ------------------------------------------------------------------------------------------------------------- C11

@scenario("C11", variants=[{"pieces": 1, "early": 0}, {"pieces": 0, "early": 1}], thorough=[{"pieces": 3, "early": 0}, {"pieces": 0, "early": 3}],
          covers=["heartbeat"], hang=True, steps=40000)
def heartbeat_between(S, pieces, early):
    """A heartbeat with any class name, header and content between two requests."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    rids = [S.int("rid", *wire.I32) for _ in range(3)]
    S.assume((rids[0] != rids[1]) & (rids[1] != rids[2]) & (rids[0] != rids[2]))
    bodies = [S.blob("body", 0, 1 << 20) for _ in range(2)]
    codec = S.int("codec")
    S.assume((codec == 1) | (codec == 2) | (codec == 11))
    beat = heartbeat(S, rids[1], S.int("ptype", 1, 2) if pieces == 0 else wire.REQUEST, codec)
    data = services.frame(rids[0], services.named("both", A), bodies[0]) if pieces == 0 else b""
    data = data + beat + services.frame(rids[2], services.named("both", B), bodies[1])
    hub.early = early
    hub.full = 1 if pieces == 0 else 0
    peer = Peer(hub, [data], pieces)
    run(hub, lst)
    got = answers(S, peer)
    S.cover("heartbeat")
    check_beat(S, [f for f in got if f.request_id == rids[1]], rids[1])
    for i, r in ((0, rids[0]), (1, rids[2])):
        if i == 1 or pieces == 0:
            one_answer(S, [f for f in got if f.request_id == r], r, wire.SUCCESS, bodies[i])
    S.check(len(world.calls) == (2 if pieces == 0 else 1), "a heartbeat runs no service")
    S.observe("sent", peer.t.sent)


def heartbeat(S, rid, ptype, codec):
    form = S.choice("form", ["empty", "any", "as a request"])
    if form == "empty":
        cls = hdr = body = b""
    elif form == "any":
        cls, hdr, body = S.blob("class", 0, 65535), S.blob("header", 0, 65535), S.blob("content", 0, 1 << 32)
        S.assume(len(body) <= 0xffffffff)
    else:
        cls, hdr, body = wire.REQ_CLASS, wire.header_bytes(services.named("both", A)), S.blob("content", 0, 1 << 20)
    return wire.request(ptype, wire.HEARTBEAT, rid, codec, S.int("timeout", *wire.I32), cls, hdr, body)


def check_beat(S, got, rid):
    S.check(len(got) == 1, "one response")
    if len(got) == 1:
        f = got[0]
        S.check(f.cmdcode == wire.HEARTBEAT, "a heartbeat response")
        S.check(f.request_id == rid, "the request's id")
        S.check(f.status == wire.SUCCESS, "SUCCESS")
        S.check(f.class_len == 0 and f.header_len == 0 and f.content_len == 0, "empty")


@scenario("C11", variants=[{"n": 3}], thorough=[{"n": 6}], covers=["heartbeat"], hang=True, steps=40000)
def many_heartbeats(S, n):
    """Heartbeats one behind the other, equal ids included."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    rids = [S.int("rid", *wire.I32) for _ in range(n)]
    items = [wire.request(wire.REQUEST, wire.HEARTBEAT, r, 11, 0, b"", b"", b"") for r in rids]
    data = b""
    for i in items:
        data = data + i
    peer = Peer(hub, items if S.flag("apart") else [data])
    run(hub, lst)
    got = answers(S, peer)
    S.cover("heartbeat")
    S.check(len(got) == n, "one response each")
    for r in rids:
        S.check(len([f for f in got if f.request_id == r]) == len([o for o in rids if o == r]), "one response with each id")
    for f in got:
        check_beat(S, [f], f.request_id)
    S.check(len(world.calls) == 0, "a heartbeat runs no service")
    S.observe("sent", peer.t.sent)


# ------------------------------------------------------------------------------------------------------------- C12

@scenario("C12", variants=[{"early": 0, "before": b, "end": e} for b in (0, 1) for e in ("eof", "lost")]
          + [{"early": 1, "before": 1, "end": "eof"}],
          thorough=[{"early": x, "before": b, "end": e} for x in (0, 2) for b in (1, 2) for e in ("eof", "lost")],
          covers=["cut in the fixed header", "cut later", "between requests"], hang=True, steps=60000, quick_s=60)
def cut_off(S, early, before, end):
    """Complete requests, then one cut anywhere by the end of the stream or a reset."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: b"r%d" % (len(world.calls) - 1)
    rids = [S.int("rid", *wire.I32) for _ in range(before + 1)]
    for i in range(before + 1):
        for j in range(i):
            S.assume(rids[i] != rids[j])
    bodies = [S.blob("body", 0, 1 << 20) for _ in range(before + 1)]
    ptypes = [S.choice("ptype", [wire.REQUEST, wire.ONEWAY]) for _ in range(before)] + [S.int("last ptype", 1, 2)]
    kind = S.choice("last", ["request", "heartbeat"] if before == 0 else ["request"])
    frames = []
    for i in range(before + 1):
        if i == before and kind == "heartbeat":
            frames.append(heartbeat(S, rids[i], wire.REQUEST, 11))
        else:
            frames.append(services.frame(rids[i], services.named("both", A), bodies[i], ptypes[i], timeout=0))
    last = frames[-1]
    cut = S.int("cut", 0)
    S.assume(cut < len(last))
    data = b""
    for f in frames[:-1]:
        data = data + f
    peer = Peer(hub, [data + last[:cut], end])
    hub.early = early
    run(hub, lst)
    S.cover("between requests" if cut == 0 else "cut in the fixed header" if cut < wire.REQ_SIZE else "cut later")
    S.check(len(world.calls) == before, "complete requests run once, the incomplete one does not run")
    if len(world.calls) == before:
        for i in range(before):
            S.check(world.calls[i][2] == bodies[i], "exactly the request's content")
    got = answers(S, peer)
    for i in range(before):
        mine = [f for f in got if f.request_id == rids[i]]
        S.check(len([f for f in mine if f.status == wire.CONNECTION_CLOSED]) == 0, "a dispatched request is not answered CONNECTION_CLOSED")
        S.check(len(mine) <= (1 if ptypes[i] == wire.REQUEST else 0), "no request is answered twice")
    mine = [f for f in got if f.request_id == rids[-1]]
    S.check(len(got) == len(mine) + sum(1 for f in got for i in range(before) if f.request_id == rids[i]), "only known ids are answered")
    S.check(len(mine) <= 1, "the incomplete request is answered at most once")
    S.check(len([f for f in mine if f.status == wire.SUCCESS]) == 0, "the incomplete request does not succeed")
    S.check(len([f for f in mine if f.status == wire.CONNECTION_CLOSED]) == 0 or cut >= wire.REQ_SIZE,
            "CONNECTION_CLOSED only for a request whose fixed header arrived")
    S.check(peer.t.over, "the connection is closed")
    S.check(len(unfinished(hub)) == 0, "its task ends")
    S.observe("sent", peer.t.sent)


@scenario("C12", variants=[{"end": e} for e in ("eof", "lost")], covers=["other answered"], hang=True, steps=60000)
def other_connections(S, end):
    """One connection breaks while requests of another are in flight."""
    hub = setup(S)
    world = services.World(S)
    lst = listener(S, world, hub)
    world.outcome = lambda obj, m, body: body
    rid, other = S.int("rid", *wire.I32), S.int("rid", *wire.I32)
    body = S.blob("body", 0, 1 << 20)
    f = services.frame(rid, services.named("both", A), S.blob("body", 0, 1 << 20))
    cut = S.int("cut", 0)
    S.assume(cut <= len(f))
    bad = Peer(hub, [f[:cut], end])
    good = Peer(hub, [services.frame(other, services.named("both", B), body)])
    run(hub, lst)
    S.cover("other answered")
    S.check(bad.t.over, "the connection is closed")
    S.check(not good.t.closing, "the other connection stays up")
    one_answer(S, answers(S, good), other, wire.SUCCESS, body)
    S.check(len(world.calls) == (2 if cut == len(f) else 1), "only complete requests run")
    S.check(len(unfinished(hub)) == 1, "the task of the broken connection ends")
    S.observe("sent", good.t.sent)


NEAR = ["com.x.A", "com.x.A:1.0 ", " com.x.A:1.0", "com.x.a:1.0", "com.x.A:2.0", "com.x.A:1.0:", "com.x.A:1.0:x", "A:1.0", "*", "com.x.A:1.00"]
NEAR_METHOD = ["Say", "say ", " say", "sa", "sayy", "say.x", "ctx.say"]


@scenario("C10", variants=[{"server": s} for s in ("asyncio", "blocking")], covers=["interface", "method"], hang=True, steps=40000)
def near_misses(S, server):
    """Requests whose interface or method is not quite a registered one, around one that is."""
    from harness import blockserver
    world = services.World(S)
    world.outcome = lambda obj, m, body: body
    if server == "asyncio":
        hub = setup(S)
        lst = listener(S, world, hub)
    else:
        lst, served = blockserver.listener(S, world)
    inf, m = A, "say"
    if S.flag("interface"):
        S.cover("interface")
        inf = S.choice("near", NEAR)
    else:
        S.cover("method")
        m = S.choice("near", NEAR_METHOD)
    good = S.choice("good", 2)      # which of the two requests is the addressed one
    bodies = [S.blob("body%d" % i, 0, 1 << 20) for i in range(2)]
    rids = [S.int("rid%d" % i, *wire.I32) for i in range(2)]
    S.assume(rids[0] != rids[1])
    if S.flag("one-way"):
        types = [wire.ONEWAY, wire.ONEWAY]
    else:
        types = [wire.REQUEST, wire.REQUEST]
    frames = [services.frame(rids[i], services.named("both", A if i == good else inf, "say" if i == good else m), bodies[i], types[i])
              for i in range(2)]
    if server == "asyncio":
        peer = Peer(hub)
        for f in frames:
            peer.push(f)
        run(hub, lst)
    else:
        for f in frames:
            served.accept(blockserver.FakeRequest(blockserver.Source(S, f, 0)))
    S.check(len(world.calls) == 1, "only what the header names is run")
    if len(world.calls) == 1:
        obj, called, got = world.calls[0]
        S.check(obj.name == A and called == "say", "the addressed service and method")
        S.check(got == bodies[good], "exactly the request's content")
    S.observe("calls", len(world.calls))
