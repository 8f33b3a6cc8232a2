"""Long runs: many operations of one kind one after the other (or at once), so that what a single one leaves behind adds up.
The kind, the ids and the contents are arbitrary; the order of events is fixed (the oldest or the newest first)."""
import errno

from harness import aio, aioclient, aioserver, meshenv, services, stubs, wire
from harness.aio import NEVER
from harness.aioserver import FAILING, Peer, answers, listener, one_answer, run, setup
from harness.services import A, B
from harness.stubs import ENV
from sx.scen import scenario


def calm(hub, order, n):
    hub.order = order
    hub.max_events = 40 * n + 200


# ------------------------------------------------------------------------------------------------------------- asyncio server

def server(S, n, order="oldest"):
    hub = setup(S)
    calm(hub, order, n)
    world = services.World(S)
    return hub, world, listener(S, world, hub)


def ids(S, n):
    """n different ids."""
    first = S.int("first id", wire.I32[0], wire.I32[1] - n)
    return [first + i for i in range(n)]


def failing(how, ptype, rid, body, timeout=0):
    """A request that fails, one way or another."""
    if how in ("service", "method"):
        names = services.named("both", "" if how == "service" else A, "" if how == "method" else "say")
    elif how == "trace":
        names = services.named("both", A) + [("rpc_trace_context.sofaRpcId", "1.x")]
    else:
        names = services.named("both", "com.x.none" if how == "interface" else A, "none" if how == "no method" else "say")
    return services.frame(rid, names, body, ptype, timeout=timeout)


def by_method(how):
    """Services of A fail (or answer), those of B answer."""
    def outcome(obj, m, body):
        if obj.name == A and how == "raises":
            raise services.Boom("x")
        if obj.name == A and how == "odd":
            return "text"
        return body
    return outcome


@scenario("C07", variants=[{"n": 70}], thorough=[{"n": 300}], covers=["answered"], hang=True, steps=400000)
def many_requests(S, n):
    """Requests that all end alike, then two good ones."""
    hub, world, lst = server(S, n)
    how = S.choice("how", sorted(FAILING) + ["odd", "good"])
    world.outcome = by_method(how)
    body = S.blob("body", 0, 1 << 20)
    rids = ids(S, n + 2)
    peer = Peer(hub)
    for i in range(n):
        peer.push(failing(how, wire.REQUEST, rids[i], body))
    for i in (n, n + 1):
        peer.push(services.frame(rids[i], services.named("both", B), body))
    run(hub, lst)
    got = answers(S, peer)
    S.check(len(got) == n + 2, "one response for each")
    for i in range(n + 2):
        S.cover("answered")
        if i >= n or how == "good":
            one_answer(S, [f for f in got if f.request_id == rids[i]], rids[i], wire.SUCCESS, body)
        else:
            one_answer(S, [f for f in got if f.request_id == rids[i]], rids[i], FAILING.get(how))
    S.check(not peer.t.closing, "the connection stays up")


@scenario("C08", variants=[{"n": 70}], thorough=[{"n": 300}], covers=["one-way"], hang=True, steps=400000)
def many_oneways(S, n):
    """One-way requests that all end alike, then a good one."""
    hub, world, lst = server(S, n)
    how = S.choice("how", sorted(FAILING) + ["odd", "good"])
    world.outcome = by_method(how)
    body, last = S.blob("body", 0, 1 << 20), S.blob("last", 0, 1 << 20)
    rids = ids(S, n + 1)
    peer = Peer(hub)
    for i in range(n):
        peer.push(failing(how, wire.ONEWAY, rids[i], body))
    peer.push(services.frame(rids[n], services.named("both", B, "shout"), last, wire.ONEWAY))
    run(hub, lst)
    S.cover("one-way")
    S.check(peer.t.attempts == 0, "nothing is written for a one-way request")
    ran = n if how in ("raises", "odd", "good") else 0
    S.check(len(world.calls) == ran + 1, "each service method runs once")
    for obj, m, arg in world.calls[:-1]:
        S.check(obj.name == A and m == "say", "the addressed method")
        S.check(arg == body, "exactly the request content")
    if world.calls:
        obj, m, arg = world.calls[-1]
        S.check(obj.name == B and m == "shout", "the addressed method")
        S.check(arg == last, "exactly the request content")
    S.check(not peer.t.closing, "the connection stays up")


@scenario("C09", variants=[{"n": 70, "kind": k} for k in aioserver.BAD], thorough=[{"n": 300, "kind": k} for k in aioserver.BAD], covers=["refused"], hang=True, steps=400000)
def many_bad(S, n, kind):
    """Bad requests, all alike, then a good one."""
    hub, world, lst = server(S, n)
    world.outcome = lambda obj, m, body: body
    rids = ids(S, n + 1)
    body = S.blob("body", 0, 1 << 20)
    peer = Peer(hub)
    for i in range(n):
        bad, status = aioserver.bad_request(S, kind, rids[i], wire.REQUEST, True) if kind != "class" or i == 0 else \
            (services.frame(rids[i], services.named("both", A), b"", class_name=b"class %d" % i), wire.CLIENT_SEND_ERROR)
        peer.push(bad)
    peer.push(services.frame(rids[n], services.named("both", A), body))
    run(hub, lst)
    S.cover("refused")
    got = answers(S, peer)
    S.check(len(got) == n + 1, "one response for each")
    for i in range(n):
        one_answer(S, [f for f in got if f.request_id == rids[i]], rids[i], status)
    one_answer(S, [f for f in got if f.request_id == rids[n]], rids[n], wire.SUCCESS, body)
    S.check(len(world.calls) == 1, "only the good request runs a service")


@scenario("C10", variants=[{"n": 40, "order": o, "conns": c} for o, c in (("oldest", 1), ("newest", 1), ("newest", 3))], thorough=[{"n": 200, "order": o, "conns": c} for o in ("oldest", "newest") for c in (1, 7)],
          covers=["answered"], hang=True, steps=400000)
def many_in_flight(S, n, order, conns):
    """Requests in flight on one or more connections, more than there are workers, their services finishing oldest or newest first."""
    hub, world, lst = server(S, n, order)
    world.outcome = lambda obj, m, body: body
    rids = ids(S, n)
    bodies = [b"%d" % i + S.blob("body%d" % i, 1, 500) for i in range(n)]
    peers = [Peer(hub) for _ in range(conns)]
    for i in range(n):
        peers[i % conns].push(services.frame(rids[i], services.named("both", (A, B)[i % 2], ("say", "shout")[i // 2 % 2]), bodies[i]))
    run(hub, lst)
    S.check(len(world.calls) == n, "each method runs once")
    for c in range(conns):
        got = answers(S, peers[c])
        S.check(len(got) == len([i for i in range(n) if i % conns == c]), "one response each")
        for i in range(n):
            if i % conns == c:
                one_answer(S, [f for f in got if f.request_id == rids[i]], rids[i], wire.SUCCESS, bodies[i])
    S.cover("answered")


@scenario("C11", variants=[{"n": 70}], thorough=[{"n": 300}], covers=["heartbeat"], hang=True, steps=400000)
def heartbeats_forever(S, n):
    """Heartbeats, all with one id or each with its own, and a request after them."""
    hub, world, lst = server(S, n)
    world.outcome = lambda obj, m, body: body
    rids = ids(S, n + 1)
    if S.flag("one id"):
        rids = [rids[0]] * n + [rids[n]]
    body = S.blob("body", 0, 1 << 20)
    peer = Peer(hub)
    for r in rids[:n]:
        peer.push(wire.request(wire.REQUEST, wire.HEARTBEAT, r, 11, 0, b"", b"", b""))
    peer.push(services.frame(rids[n], services.named("both", A), body))
    run(hub, lst)
    got = answers(S, peer)
    S.cover("heartbeat")
    S.check(len(got) == n + 1, "one response each")
    beats = [f for f in got if f.request_id != rids[n]]
    S.check(len(beats) == n, "one response each")
    for i in range(n):
        if rids[0] is not rids[1]:
            aioserver.check_beat(S, [f for f in beats if f.request_id == rids[i]], rids[i])
        elif i < len(beats):
            aioserver.check_beat(S, [beats[i]], rids[i])
    one_answer(S, [f for f in got if f.request_id == rids[n]], rids[n], wire.SUCCESS, body)
    S.check(len(world.calls) == 1, "a heartbeat runs no service")


@scenario("C12", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["cut off"], hang=True, steps=400000)
def many_cut_off(S, n):
    """Connections that all break off at one place, then one that does not."""
    hub, world, lst = server(S, n)
    world.outcome = lambda obj, m, body: body
    rids = ids(S, n + 1)
    body = S.blob("body", 0, 1 << 20)
    end = S.choice("end", ["eof", "lost"])
    where = S.choice("where", ["at once", "fixed header", "header", "content", "nowhere"])
    peers = []
    for i in range(n):
        f = services.frame(rids[i], services.named("both", A), b"xyz")
        cut = {"at once": 0, "fixed header": 10, "header": 100, "content": len(f) - 1, "nowhere": len(f)}[where]
        peers.append(Peer(hub, [f[:cut], end]))
    good = Peer(hub, [services.frame(rids[n], services.named("both", B), body)])
    run(hub, lst)
    S.cover("cut off")
    S.check(len(world.calls) == 1 + (n if where == "nowhere" else 0), "only complete requests run")
    for p in peers:
        S.check(p.t.over, "the connection is closed")
    one_answer(S, answers(S, good), rids[n], wire.SUCCESS, body)
    S.check(not good.t.closing, "the other connection stays up")
    S.check(len(aioserver.unfinished(hub)) == 1, "the tasks of broken connections end")


@scenario("C12", variants=[{"n": 20}], thorough=[{"n": 100}], covers=["cut off"], hang=True, steps=400000)
def cut_off_after_many(S, n):
    """Many complete requests in one stream that breaks off in the next."""
    hub, world, lst = server(S, n, S.choice("order", ["oldest", "newest"]))
    world.outcome = lambda obj, m, body: body
    rids = ids(S, n + 1)
    bodies = [b"%d" % i + S.blob("body%d" % i, 1, 500) for i in range(n)]
    end = S.choice("end", ["eof", "lost"])
    data = b""
    for i in range(n):
        data = data + services.frame(rids[i], services.named("both", A), bodies[i])
    peer = Peer(hub, [data + services.frame(rids[n], services.named("both", A), b"xyz")[:S.choice("cut", [0, 21, 22, 100])], end])
    run(hub, lst)
    S.cover("cut off")
    S.check(len(world.calls) == n, "complete requests run once, the incomplete one does not run")
    for i, (obj, m, arg) in enumerate(world.calls[:n]):
        S.check(arg == bodies[i], "exactly the request's content")
    got = answers(S, peer)
    for i in range(n):
        mine = [f for f in got if f.request_id == rids[i]]
        S.check(len(mine) <= 1 and len([f for f in mine if f.status == wire.CONNECTION_CLOSED]) == 0, "no request is answered twice or CONNECTION_CLOSED")
    S.check(peer.t.over, "the connection is closed")
    S.check(len(aioserver.unfinished(hub)) == 0, "its task ends")


# ------------------------------------------------------------------------------------------------------------- asyncio client

class Calls(object):
    """A client, and servers that answer every request as the scenario decides."""

    def __init__(self, S, n, order="oldest", clocked=False, wrap=False):
        self.w = w = aioclient.World(S, clocked=clocked, start=S.choice("start", [1000000, 0x7fffffff - 7]) if wrap else 1000000)
        calm(w.hub, order, n)

    def call(self, content, after=None, **kw):
        return aioclient.Call(self.w, content, after=after, **kw)


def returned(S, c, content):
    out = c.outcome()
    S.check(out is not None, "the call ends")
    if out is None:
        return
    S.check(out[0] == "content", "the call returns")
    if out[0] == "content":
        S.check(out[1] == content, "the content of its own response")


@scenario("C14", variants=[{"n": 40, "order": o, "wait": w} for o in ("oldest", "newest") for w in (False, True)],
          thorough=[{"n": 200, "order": o, "wait": w} for o in ("oldest", "newest") for w in (False, True)], covers=["returned"], hang=True, steps=400000)
def many_calls(S, n, order, wait):
    """Calls in flight at once, the oldest or the newest answered first, or only when all are sent; unknown and doubled responses among theirs."""
    cs = Calls(S, n, order, wrap=True)
    w = cs.w
    replies = {}
    extra = S.choice("extra", ["none", "doubled", "unknown"])

    def received(f):
        i = int(f.content)
        replies[i] = b"%d " % i + S.blob("content", 1, 100)
        ready = (lambda: len(replies) == n) if wait else None
        aioclient.Reply(f.remote, aioclient.answer(f.request_id, replies[i]), ready=ready)
        if extra == "doubled":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"again"), ready=lambda: w.calls[i].ended())
        elif extra == "unknown":
            aioclient.Reply(f.remote, aioclient.answer(-1 - i, b"unknown"), ready=ready)
    w.received = received
    for i in range(n):
        cs.call(b"%d" % i)
    w.run()
    S.check(len(w.frames) == n, "each request is sent once")
    S.check(len(w.remotes) == 1, "on one connection")
    for i, c in enumerate(w.calls):
        S.cover("returned")
        returned(S, c, replies.get(i))


ENDS = ["answered", "error", "undecodable", "heartbeat", "cancelled", "refused", "broken", "not encoded", "lost"]


def ending(S, cs, n, how):
    """n calls one after the other that all end alike, and a last one that is answered."""
    w = cs.w
    state = {"tried": 0}

    def dialled(d):
        if w.calls[n].event.fired:
            return aioclient.Remote(w)
        if how == "refused":
            return ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        return aioclient.Remote(w, doomed=how == "broken")
    w.dialled = dialled

    def received(f):
        if f.content == b"last":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"answer"))
        elif how in ("answered", "not encoded"):
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"x"))
        elif how == "error":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"", wire.SERVER_EXCEPTION))
        elif how == "undecodable":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"", header=b"x"))
            k = len(w.frames) - 1
            aioclient.Event(w.hub, lambda: w.calls[k].future.cancel(), lambda: not w.calls[k].ended() and k < n)
        elif how == "heartbeat":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"", cmdcode=wire.HEARTBEAT, cls=b""))
        elif how == "cancelled":
            k = len(w.frames) - 1
            aioclient.Event(w.hub, lambda: w.calls[k].future.cancel())
        elif how == "lost":
            aioclient.Event(w.hub, lambda: f.remote.t.fail(ConnectionResetError(errno.ECONNRESET, "reset")))
    w.received = received
    for i in range(n):
        cs.call("text" if how == "not encoded" else b"q", after=(lambda i=i: i == 0 or w.calls[i - 1].ended()))
    last = cs.call(b"last", after=lambda: w.calls[n - 1].ended())
    w.run()
    return last


@scenario("C18", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["ended"], hang=True, steps=400000)
def many_endings(S, n):
    """Calls that all end alike, in each way a call can end, then one that is answered."""
    cs = Calls(S, n)
    how = S.choice("how", ENDS)
    last = ending(S, cs, n, how)
    S.cover("ended")
    for c in cs.w.calls[:n]:
        S.check(c.ended(), "the call ends")
    returned(S, last, b"answer")
    rids = [f.request_id for f in cs.w.frames]
    S.check(len(aioclient.leftovers(cs.w.client, rids)) == 0, "no bookkeeping for its request id")


@scenario("C15", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["failed"], hang=True, steps=400000)
def many_errors(S, n):
    """Calls that are all answered with one error status, then one that succeeds."""
    cs = Calls(S, n)
    w = cs.w
    status = S.choice("status", [s for s in wire.STATUS if s != wire.SUCCESS])
    seen = []

    def received(f):
        if f.content == b"last":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"answer"))
        else:
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"content", status))
    w.received = received
    for i in range(n):
        cs.call(b"q", callback=seen.append)
    last = cs.call(b"last", after=lambda: w.calls[n - 1].ended(), callback=seen.append)
    w.run()
    from anthunder.exceptions import ServerError
    S.cover("failed")
    for c in w.calls[:n]:
        out = c.outcome()
        S.check(out is not None and out[0] == "error", "the call fails")
        if out is not None and out[0] == "error":
            S.check(isinstance(out[1], ServerError) and aioclient.wire_name(status) in str(out[1]), "ServerError naming the status")
    returned(S, last, b"answer")
    S.check(seen == [b"answer"], "callbacks")


@scenario("C16", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["sent"], hang=True, steps=400000)
def many_oneway_calls(S, n):
    """One-way calls, none of them answered, then a two-way one."""
    cs = Calls(S, n)
    w = cs.w

    def received(f):
        if f.content == b"last":
            aioclient.Reply(f.remote, aioclient.answer(f.request_id, b"answer"))
    w.received = received
    contents = [b"%03d " % i + S.blob("content%d" % i, 1, 100) for i in range(n)]
    sent = [aioclient.OneWay(w, c, after=(lambda i=i: i == 0 or sent[i - 1].user.started)) for i, c in enumerate(contents)]
    last = cs.call(b"last", after=lambda: sent[-1].user.started)
    w.run()
    S.check(len(w.frames) == n + 1, "one frame for each")
    for i in range(n):
        S.cover("sent")
        S.check(sent[i].user.done and sent[i].user.error is None and not sent[i].user.blocked, "it returns without waiting")
        mine = [f for f in w.frames if f.content[:3] == b"%03d" % i]
        S.check(len(mine) == 1 and mine[0].content == contents[i] and mine[0].ptype == wire.ONEWAY, "one one-way frame")
    returned(S, last, b"answer")


@scenario("C17", variants=[{"n": 20}], thorough=[{"n": 100}], covers=["redialled"], hang=True, steps=400000)
def many_losses(S, n):
    """The connection is lost after every call; the calls go to two addresses in turn."""
    from anthunder import SERVICE_MAP
    cs = Calls(S, n)
    w = cs.w
    S.defer(SERVICE_MAP.clear)
    SERVICE_MAP["com.z.Far"] = (aioclient.MESH[0], 12221) if S.flag("one host") else aioclient.FAR
    how = S.choice("how", ["eof", "lost", "refused between", "kept"])
    state = {"refuse": False}

    def dialled(d):
        state["refuse"] = how == "refused between" and not state["refuse"]
        if state["refuse"]:
            return ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        r = aioclient.Remote(w)
        r.dial = d
        return r
    w.dialled = dialled

    def received(f):
        aioclient.Reply(f.remote, aioclient.answer(f.request_id, f.content))
    w.received = received
    ends = []
    for i in range(n):
        def lose(i=i):
            if how != "kept":
                for r in w.remotes:
                    if r.alive():
                        if how == "eof":
                            r.t.eof()
                        else:
                            r.t.fail(ConnectionResetError(errno.ECONNRESET, "reset"))
        c = cs.call(b"%d" % i, after=(lambda i=i: i == 0 or ends[i - 1].fired), name=("com.x.A:1.0", "com.z.Far")[i % 2])
        ends.append(aioclient.Event(w.hub, lose, lambda c=c: c.ended()))
    w.run()
    for i, c in enumerate(w.calls):
        S.cover("redialled")
        out = c.outcome()
        S.check(out is not None, "each call ends")
        if how == "refused between" and i % 2 == 0:
            S.check(out is None or out[0] == "error", "a call whose dialling failed fails")
        else:
            returned(S, c, b"%d" % i)
            mine = w.frame_of(c.content)
            S.check(len(mine) == 1, "sent once")
            want = aioclient.MESH if i % 2 == 0 else SERVICE_MAP["com.z.Far"]
            S.check(len(mine) == 1 and (mine[0].remote.dial.host, mine[0].remote.dial.port) == want, "to its address")
    if how == "kept":
        S.check(len(w.hub.dials) == 2, "every address is dialled once")
    else:
        S.check(len(w.hub.dials) == n, "dialled once for each call")


@scenario("C19", variants=[{"rounds": 40}], thorough=[{"rounds": 150}], covers=["answered"], hang=True, steps=400000)
def heartbeats_for_long(S, rounds):
    """Heartbeats that all go wrong alike, or well, each interval: they are sent on and on."""
    w = aioclient.World(S, mesh=meshenv.accept)
    hub = w.hub
    calm(hub, "oldest", rounds)
    hub.horizon = aioclient.INTERVAL * rounds + 1
    how = S.choice("how", aioclient.ALL + ["dialling refused", "dialling refused by turns"])
    late = S.flag("recovers")
    log = []

    def well():
        return late and hub.loops[-1].now >= aioclient.INTERVAL * (rounds - 2)

    def dialled(d):
        d.failed = not well() and (how == "dialling refused" or how == "dialling refused by turns" and len(hub.dials) % 2 == 0)
        return ConnectionRefusedError(errno.ECONNREFUSED, "refused") if d.failed else aioclient.Remote(w)
    w.dialled = dialled

    def received(f):
        log.append(hub.loops[-1].now)
        r = f.remote
        if well() or how == "answered" or how.startswith("dialling"):
            S.cover("answered")
            aioclient.Reply(r, aioclient.answer(f.request_id, b"", cmdcode=wire.HEARTBEAT, cls=b""))
        elif how == "refused status":
            aioclient.Reply(r, aioclient.answer(f.request_id, b"", wire.UNKNOWN, cmdcode=wire.HEARTBEAT, cls=b""))
        elif how == "lost":
            aioclient.Event(hub, lambda: r.t.fail(ConnectionResetError(errno.ECONNRESET, "reset")), r.alive)
    w.received = received
    w.run()
    for k in range(1, rounds + 1):
        a, b = aioclient.INTERVAL * k, aioclient.INTERVAL * (k + 1)
        sent = [x for x in log if a <= x < b]
        S.check(len(sent) <= 1, "at most one is sent in an interval")
        S.check(len(sent) == 1 or any(aioclient.in_the_way(d, a, b) for d in hub.dials), "one is sent in every interval unless dialling fails or hangs")
    for d in hub.dials:
        S.check((d.host, d.port) == aioclient.MESH, "to the mesh address")


# ------------------------------------------------------------------------------------------------------------- beside each other

@scenario("C36", variants=[{"n": 40}, {"n": 20, "hangs": True}], thorough=[{"n": 200}, {"n": 30, "hangs": True}], covers=["answered"], hang=True, steps=400000)
def asyncio_beside_many(S, n, hangs=False):
    """A connection of the asyncio server with a request, beside or after many of one odd kind."""
    from harness import lifecycle
    hub, world, lst = server(S, n, S.choice("order", ["oldest", "newest"]))
    kind = "hangs" if hangs else S.choice("kind", [k for k in lifecycle.KINDS if k != "hangs"])
    result = S.blob("result", 0, 1 << 20)

    def outcome(obj, m, body):
        if body == b"good":
            return result
        if kind == "fails":
            raise services.Boom("x")
        return NEVER if kind == "hangs" else b"x"
    world.outcome = outcome
    rids = ids(S, n + 1)
    for i in range(n):
        data = services.frame(rids[i], services.named("target only", A), b"odd")
        part = data[:wire.REQ_SIZE + 5]
        Peer(hub, {"silent": [], "garbage": [b"\xff" * 22], "half": [part], "lost": [part, "lost"], "eof": [part, "eof"]}.get(kind, [data]))
    p = Peer(hub, [services.frame(rids[n], services.named("target only", B), b"good")])
    run(hub, lst)
    S.cover("answered")
    one_answer(S, answers(S, p), rids[n], wire.SUCCESS, result)


@scenario("C13", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["good"], hang=True, steps=400000)
@scenario("C36", variants=[{"n": 40}], thorough=[{"n": 200}], covers=["good"], hang=True, steps=400000)
def blocking_after_many(S, n):
    """Connections of the blocking server, one after the other, that all end alike, then a good one."""
    from harness import blockserver as bs
    world = services.World(S)
    lst, srv = bs.listener(S, world)
    how = S.choice("how", sorted(FAILING) + ["odd", "good", "one-way", "at once", "cut", "garbage", "heartbeat", "peer gone"])
    world.outcome = by_method(how)
    body = S.blob("body", 0, 1 << 20)
    rids = ids(S, n + 1)
    for i in range(n):
        data = failing(how, wire.ONEWAY if how == "one-way" else wire.REQUEST, rids[i], body)
        if how == "at once":
            data = b""
        elif how == "cut":
            data = data[:100]
        elif how == "garbage":
            data = b"\xff" * 22
        elif how == "heartbeat":
            data = wire.request(wire.REQUEST, wire.HEARTBEAT, rids[i], 11, 0, b"", b"", b"")
        req = bs.FakeRequest(bs.Source(S, data, 0))
        req.broken = how == "peer gone"
        before = len(world.calls)
        srv.accept(req)
        S.check(len(world.calls) - before == (1 if how in ("good", "one-way", "peer gone", "raises", "odd") else 0), "only complete requests run a service, once")
        if how == "good":
            one_answer(S, wire.split(S, wire.Resp, req.sent, "answer"), rids[i], wire.SUCCESS, body)
        elif how == "heartbeat":
            aioserver.check_beat(S, wire.split(S, wire.Resp, req.sent, "answer"), rids[i])
        elif how == "one-way":
            S.check(len(req.sent) == 0, "a one-way request is not answered")
    before = len(world.calls)
    req = bs.FakeRequest(bs.Source(S, services.frame(rids[n], services.named("both", B, "shout"), body), 0))
    srv.accept(req)
    S.cover("good")
    S.check(len(world.calls) == before + 1, "the service method runs once")
    one_answer(S, wire.split(S, wire.Resp, req.sent, "answer"), rids[n], wire.SUCCESS, body)
