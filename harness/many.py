"""Long runs of the parts below the servers and the asyncio client: mesh, mappings, publication, pools, spans."""
from harness import aio, blockserver, meshenv, net, publish, services, wire
from harness.aioserver import Peer, run
from harness.mesh import BASE, MESH
from harness.meshenv import Answer
from harness.pool import PoolPeer, live
from harness.stubs import ENV
from harness.trace import PREFIX
from sx.scen import scenario


# ------------------------------------------------------------------------------------------------------------- mesh

@scenario("C23", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["started"])
def startup_after_many(S, n):
    """Startup attempts that all fail alike, then one that is accepted, then more."""
    how = S.choice("how", ["status", "failure", "down", "not json"])
    status = S.int("status", 100, 599)
    S.assume(status != 200)
    state = {"good": False}

    def http(url, json):
        if state["good"]:
            return Answer(200, {"success": True})
        if how == "down":
            raise OSError("down")
        if how == "not json":
            return Answer(200, None, True)
        return Answer(status, {"success": True}) if how == "status" else Answer(200, {"success": False})
    meshenv.install_mesh(S, http)
    from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient
    client = MeshClient(ApplicationInfo("app"))
    for i in range(n):
        try:
            client.startup()
            S.fail("a refused startup is reported")
        except Exception:
            S.reraise()
    S.check(len(ENV.posts) == n, "posted until it succeeds")
    state["good"] = True
    for i in range(n):
        try:
            client.startup()
        except Exception:
            S.reraise()
            S.fail("returns normally")
    S.cover("started")
    S.check(len(ENV.posts) == n + 1, "not posted again after success")


@scenario("C23", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["returned", "raised"])
def many_operations(S, n):
    """Operations of one kind, those before the last all answered alike."""
    op = S.choice("op", ["subscribe", "unsubscribe", "publish", "unpublish"])
    before = S.choice("before", ["success", "failure", "status", "down"])
    last = S.choice("last", ["success", "failure", "status", "down"])
    state = {"how": before}

    def http(url, json):
        if state["how"] == "down":
            raise OSError("down")
        return {"success": Answer(200, {"success": True}), "failure": Answer(200, {"success": False}), "status": Answer(500, {"success": True})}[state["how"]]
    meshenv.install_mesh(S, http)
    from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient, ProviderMetaInfo, PublishServiceRequest
    client = MeshClient(ApplicationInfo("app"))
    same = S.flag("one service")
    for i in range(n):
        if i == n - 1:
            state["how"] = last
        name = "com.x.Service" if same else "com.x.Service%d" % i
        made = len(ENV.posts)
        raised = False
        try:
            if op == "publish":
                client.publish(PublishServiceRequest(serviceName=name, port="12200", providerMetaInfo=ProviderMetaInfo(
                    protocol="1", version="4.0", serializeType="protobuf", appName="app")))
            else:
                getattr(client, op)(name)
        except Exception:
            S.reraise()
            raised = True
        S.check(raised == (state["how"] != "success"), "returns normally exactly on HTTP 200 with success true")
        S.cover("raised" if raised else "returned")
        posts = ENV.posts[made:]
        S.check(len(posts) == 1, "one post per operation")
        for method, url, json in posts:
            S.check(url == BASE + "services/" + op and json["serviceName"] == name, "the operation's own service")


# ------------------------------------------------------------------------------------------------------------- C24

@scenario("C24", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["mesh address", "mapped"])
def many_addresses(S, n):
    """Interfaces mapped, subscribed, or neither, by turns; some unsubscribed; then a call of each."""
    meshenv.install_mesh(S, meshenv.accept)
    net.install_sockets(S, net.Peer())
    from anthunder import SERVICE_MAP, Client
    from mytracer.helpers import tracer
    S.defer(SERVICE_MAP.clear)
    client = Client("app")
    span = tracer.start_span("op")
    first = S.int("first port", 1, 65535 - n)
    name = "com.x.S%d"
    model = {}
    for i in range(n):
        if i % 3 == 0:
            SERVICE_MAP[name % i] = model[i] = ("10.0.0.%d" % i, first + i)
        elif i % 3 == 1:
            client.subscribe(name % i)
    gone = S.choice("unsubscribed", ["none", "mapped", "subscribed"])
    for i in range(n):
        if gone != "none" and i % 6 == (0 if gone == "mapped" else 1):
            client.unsubscribe(name % i)
            model.pop(i, None)
    for i in range(n):
        want = model.get(i, MESH)
        before = len(ENV.sockets)
        client.invoke_oneway(name % i, "m", b"", spanctx=span.context)
        used = ENV.sockets[before:]
        S.cover("mapped" if i in model else "mesh address")
        S.check(len(used) > 0, "a connection is opened")
        for s in used:
            S.check(s.address[0] == want[0], "host")
            S.check(s.address[1] == want[1], "port")


# ------------------------------------------------------------------------------------------------------------- C25

@scenario("C25", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["published", "unpublished"])
def many_interfaces(S, n):
    """Many interfaces on one listener, published and unpublished again and again."""
    meshenv.install_mesh(S, publish.mesh_of(S, "accepts"))
    blockserver.install(S)
    aio.install(S)
    port, text = publish.digits(S, "port")
    app = S.textblob("app", 1, 100)
    lst = publish.listeners(S, [S.choice("kind", ["blocking", "asyncio"])], [port], [app])[0]
    names = ["com.x.S%d:1.0" % i for i in range(n)]
    for name in names:
        lst.handler.register_interface(name, publish.Quiet)
    for i in range(3):
        for op, done in (("publish", "published"), ("unpublish", "unpublished")):
            before = len(ENV.posts)
            getattr(lst, op)()
            S.cover(done)
            publish.told(S, ENV.posts[before:], op, names, text, app)


@scenario("C25", variants=[{"n": 40, "kind": k} for k in ("blocking", "asyncio")], thorough=[{"n": 150, "kind": k} for k in ("blocking", "asyncio")],
          covers=["served"], hang=True, steps=60000)
def many_served(S, n, kind):
    """Many interfaces on one listener; a request for any of some reaches its own service."""
    meshenv.install_mesh(S, meshenv.refuse)
    ENV.time = lambda: 1500000000.0
    blockserver.install(S)
    hub = aio.install(S)
    world = services.World(S)
    world.outcome = lambda obj, m, body: body
    lst = publish.listeners(S, [kind], [12200], ["app"])[0]
    for i in range(n):
        lst.handler.register_interface("com.x.S%d:1.0" % i, world.service(i))
    k = S.choice("to", [0, 1, n // 2, n - 2, n - 1])
    body = S.blob("body", 0, 1 << 20)
    data = services.frame(S.int("rid", *wire.I32), services.named("both", "com.x.S%d:1.0" % k), body)
    if kind == "blocking":
        req = blockserver.FakeRequest(blockserver.Source(S, data, 0))
        ENV.servers[0].accept(req)
        sent = req.sent
    else:
        peer = Peer(hub, [data])
        run(hub, lst)
        sent = peer.t.sent
    S.cover("served")
    S.check(len(world.calls) == 1 and world.calls[0][0].name == k, "the service registered under that name")
    good = [f for f in wire.split(S, wire.Resp, sent, "answer") if f.status == wire.SUCCESS]
    S.check(len(good) == 1 and good[0].content == body, "one SUCCESS response")


# ------------------------------------------------------------------------------------------------------------- C26, C27

def default_pool(S, block=False):
    peer = PoolPeer()
    net.install_sockets(S, peer)
    from mysockpool.connection import SocketConnection
    from mysockpool.connection_pool import ConnectionPool
    key = SocketConnection.PoolKeyCls("127.0.0.1", 12200)
    return peer, ConnectionPool(key, block=block) if block else ConnectionPool(key)


@scenario("C26", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["returned"])
def pool_rounds(S, n):
    """Checkouts and returns of a pool of the default size, one after the other, the free connections dropped by the peer or not."""
    peer, pool = default_pool(S)
    dropping = S.choice("dropped", ["never", "free", "in use"])
    held = S.choice("held", [0, 1, 3])
    kept = [pool.get_conn() for _ in range(held)]
    for i in range(n):
        c = pool.get_conn()
        S.check(pool.num_connections == len(live()), "reported count equals open connections")
        if dropping == "in use":
            peer.dropped.append(c.sock)
        pool.put_conn(c)
        if dropping == "free":
            peer.dropped = [s for s in live() if s not in [k.sock for k in kept]]
        S.check(pool.num_connections == len(live()), "reported count equals open connections")
        S.check(len(live()) <= 20, "open connections within the limit")
        S.cover("returned")
        c = None
    for c in kept:
        pool.put_conn(c)
    S.check(pool.num_connections == len(live()), "reported count equals open connections")


@scenario("C26", variants=[{"rounds": 3}], thorough=[{"rounds": 8}], covers=["returned"])
def pool_drained(S, rounds):
    """All but one of a pool's connections out at once, and returned, oldest or newest first, several times."""
    peer, pool = default_pool(S)
    newest = S.flag("newest first")
    failing = S.flag("failing opens")
    for r in range(rounds):
        out = []
        for i in range(19):
            if failing and i % 5 == 4:
                n = len(live())
                peer.fail_next = True
                c = None
                try:
                    c = pool.get_conn()
                except OSError:
                    S.reraise()
                if c is not None:
                    out.append(c)
                peer.fail_next = False
                if len(live()) < n:
                    S.stop()        # the listed finding: a free connection lost by a failing replenishment
            else:
                out.append(pool.get_conn())
            S.check(pool.num_connections == len(live()), "reported count equals open connections")
            S.check(len(live()) <= 20, "open connections within the limit")
        while out:
            pool.put_conn(out.pop() if newest else out.pop(0))
            S.check(pool.num_connections == len(live()), "reported count equals open connections")
        S.cover("returned")
        c = None


@scenario("C27", variants=[{"n": 15, "rounds": 3}], thorough=[{"n": 19, "rounds": 8}], covers=["returned", "closed"])
def many_checkouts(S, n, rounds):
    """Connections out at once, returned oldest or newest first, their peer gone or not; then the pool closes."""
    peer, pool = default_pool(S)
    from mysockpool.exceptions import ClosedPoolError
    newest = S.flag("newest first")
    dropping = S.choice("dropped", ["none", "every other", "all"])
    for r in range(rounds):
        out = []
        for i in range(n):
            c = pool.get_conn()
            S.check(not c.sock.closed and c.sock not in peer.dropped, "live")
            for o in out:
                S.check(c is not o and c.sock is not o.sock, "exclusive")
            out.append(c)
        returned = 0
        while out:
            c = out.pop() if newest else out.pop(0)
            free = len(live()) - len(out) - 1
            pool.put_conn(c)
            S.cover("returned")
            S.check(c.sock.closed == (free >= 5), "returned to a full free list: closed, otherwise not")
        free = live()
        S.check(len(free) <= 5, "free connections within their limit")
        if dropping != "none":
            peer.dropped += free if dropping == "all" else free[::2]
        c = None
    out = [pool.get_conn() for _ in range(S.choice("out at the end", [0, 3, 15]))]
    pool.close()
    S.cover("closed")
    S.check(len(live()) == len(out), "closing closes every free connection and no other")
    for i in range(n):
        try:
            pool.get_conn()
            S.fail("checkout from a closed pool")
        except ClosedPoolError:
            pass
    for c in out:
        pool.put_conn(c)
        S.check(c.sock.closed, "returned to a closed pool: closed")


# ------------------------------------------------------------------------------------------------------------- C29, C30

@scenario("C29", variants=[{"n": 100, "cap": 30}, {"n": 160, "cap": 100}], thorough=[{"n": 400, "cap": 100}, {"n": 300, "cap": 257}], covers=["evicted"])
def big_container(S, n, cap):
    """A container of many keys, used in one of several orders."""
    from mysockpool.recently_used_container import RecentlyUsedContainer
    disposed = []
    c = RecentlyUsedContainer(cap, dispose_func=disposed.append)
    how = S.choice("how", ["store", "store and read first", "store twice", "store and delete", "store and clear"])
    first = S.int("first key", 0, 1 << 40)
    model, gone = [], []     # [key, value], least recently used first

    def store(k, v):
        c[k] = v
        for m in model:
            if m[0] == k:
                gone.append(m[1])
                model.remove(m)
                break
        model.append((k, v))
        if len(model) > cap:
            gone.append(model.pop(0)[1])
            S.cover("evicted")
    for i in range(n):
        store(first + i, i)
        if how == "store and read first":
            m = model.pop(0)
            S.check(c[m[0]] == m[1], "value last stored")
            model.append(m)
        elif how == "store twice":
            store(first + i, n + i)
        elif how == "store and delete" and i % 3 == 0:
            m = model.pop(len(model) // 2)
            del c[m[0]]
            gone.append(m[1])
        elif how == "store and clear" and i % 37 == 36:
            c.clear()
            gone += [m[1] for m in model]
            del model[:]
        S.check(len(c) == len(model), "number of keys")
        S.check(len(disposed) == len(gone), "each value that left is disposed once")
    S.check(sorted(disposed) == sorted(gone), "each value that left is disposed once")
    for k, v in list(model):
        S.check(c.get(k) == v, "value last stored")


@scenario("C30", variants=[{"n": 25, "cap": None}, {"n": 40, "cap": 15}], thorough=[{"n": 60, "cap": None}, {"n": 100, "cap": 40}], covers=["same", "evicted"])
def many_pools(S, n, cap):
    """A manager of the default size, or a larger one, asked for many keys."""
    peer = PoolPeer()
    net.install_sockets(S, peer)
    from mysockpool import PoolManager
    man = PoolManager() if cap is None else PoolManager(cap)
    cap = 10 if cap is None else cap
    Key = PoolManager.PoolCls.ConnectionCls.PoolKeyCls
    first = S.int("first port", 1, 65535 - n)
    how = S.choice("how", ["each once", "each twice", "first again", "cleared"])
    known, closed = [], []

    def ask(i):
        pool = man.connection_pool_from_pool_key(Key("h%d" % (i % 2), first + i))
        old = [m for m in known if m[0] == i]
        if old:
            S.cover("same")
            S.check(pool is old[0][1], "same pool again")
            known.remove(old[0])
        else:
            for _, p in known:
                S.check(p is not pool, "another key has another pool")
            for p in closed:
                S.check(p is not pool, "a new pool")
        known.append((i, pool))
        if len(known) > cap:
            closed.append(known.pop(0)[1])
            S.cover("evicted")
    for i in range(n):
        ask(i)
        if how == "each twice":
            ask(i)
        elif how == "first again":
            ask(0)
        elif how == "cleared" and i == n - 5:
            man.clear()
            closed += [p for _, p in known]
            del known[:]
    S.cover("same")
    from mysockpool.exceptions import ClosedPoolError
    for _, p in known:
        with man.connection_scope(p.pool_key) as c:
            S.check(not c.sock.closed, "known pools are open")
    for p in closed:
        try:
            p.get_conn()
            S.fail("evicted and cleared pools are closed")
        except ClosedPoolError:
            pass
    c = None
    S.check(len(live()) == sum(p.num_connections for _, p in known), "no connection of a closed pool stays open")


# ------------------------------------------------------------------------------------------------------------- C32, C33, C35

@scenario("C32", variants=[{"n": 150}], thorough=[{"n": 1200}], covers=["wide", "deep", "both"])
def many_spans(S, n):
    """One span with many children or follow-ups, a long line of descent, or both in turns."""
    import opentracing
    from mytracer import helpers
    tracer = helpers.tracer
    seg = str(S.int("segment", 0, 1 << 40))
    root = tracer.extract(opentracing.Format.TEXT_MAP, {PREFIX + "sofaRpcId": seg, PREFIX + "sofaTraceId": "t"})
    shape = S.choice("shape", ["wide", "follow", "deep", "both"])
    S.cover(shape if shape != "follow" else "wide")
    kept = []
    span, want = tracer.start_span("op", child_of=root), seg + ".1"
    S.check(str(span.context.baggage["sofaRpcId"]) == want, "rpc id of the derived span")
    kids = 1
    for i in range(n if shape != "deep" else min(n, 60)):
        if shape in ("wide", "follow"):
            kids += 1
            if shape == "wide":
                s = tracer.start_span("op", child_of=root)
            else:
                s = helpers.follows_span_from(span, "op")
            S.check(str(s.context.baggage["sofaRpcId"]) == "%s.%d" % (seg, kids), "rpc id of the derived span")
            kept.append(s)
        elif shape == "deep":
            span, want = helpers.child_span_of(span, "op"), want + ".1"
            S.check(str(span.context.baggage["sofaRpcId"]) == want, "rpc id of the derived span")
        else:
            s = helpers.child_span_of(span, "op")
            S.check(str(s.context.baggage["sofaRpcId"]) == "%s.%d" % (want, i + 1), "rpc id of the derived span")
            if i % 50 == 49:
                g = helpers.child_span_of(s, "op")
                S.check(str(g.context.baggage["sofaRpcId"]) == "%s.%d.1" % (want, i + 1), "rpc id of the derived span")
            s.finish()
    for i, s in enumerate(kept):
        S.check(str(s.context.baggage["sofaRpcId"]) == "%s.%d" % (seg, i + 2), "rpc ids stay as they were given")


@scenario("C33", variants=[{"n": 60}], thorough=[{"n": 200}], covers=["carried"])
def many_items(S, n):
    """A context of many items, carried on by many spans and hops."""
    import opentracing
    from anthunder.protocol import SofaHeader
    from mytracer import tracer
    fmt = opentracing.Format.TEXT_MAP
    rpc = str(S.int("segment", 0, 9999))
    items = {PREFIX + "sofaTraceId": "7f000001", PREFIX + "sofaRpcId": rpc}
    for i in range(n):
        items[PREFIX + "item%d" % i] = S.textblob("v%d" % i, 1, 100) if i in (0, n - 1) else "value %d" % i
    ctx = tracer.extract(fmt, dict(items))
    hops = S.choice("hops", [0, 1, 12])
    for i in range(hops):
        ctx = tracer.start_span("op", child_of=ctx).context
        rpc = rpc + ".1"
        ctx = tracer.extract(fmt, tracer.inject(ctx, fmt, {}))
    carrier = {}
    tracer.inject(ctx, fmt, carrier)
    how = S.choice("how", ["carrier", "encoded", "request header"])
    if how == "encoded":
        carrier = SofaHeader.from_bytes(SofaHeader(carrier).to_bytes())
    elif how == "request header":
        h = SofaHeader.from_bytes(SofaHeader.build_header(ctx, "com.x.A:1.0", "say", target_app="app", uid="").to_bytes())
        carrier = {k: h[k] for k in [k for k in h] if k.startswith(PREFIX)}
    S.cover("carried")
    S.check(len([k for k in carrier]) == len(items), "exactly the items")
    for k in items:
        S.check(k in carrier and carrier[k] == (rpc if k == PREFIX + "sofaRpcId" else items[k]), "item")


@scenario("C35", variants=[{"n": 60}], thorough=[{"n": 300}], covers=["tagged"])
def many_tags(S, n):
    """Spans with many tags, given at once and one by one."""
    from harness.trace import span_fields
    from mytracer import helpers
    f_tags, f_start, f_finish = span_fields(helpers.tracer)
    tags = dict(("k%d" % i, S.textblob("v%d" % i, 0, 100)) for i in range(n))
    span = helpers.new_span("op", **tags)
    later = S.choice("later", [0, 1, n])
    for i in range(later):
        span.set_tag("l%d" % i, i)
    others = [helpers.child_span_of(span, a=i) for i in range(n)]
    got = getattr(span, f_tags)
    S.cover("tagged")
    S.check(len(got) == n + later, "exactly the tags given")
    for k in tags:
        S.check(k in got and got[k] == tags[k], "tag value")
    for i in range(later):
        S.check(got.get("l%d" % i) == i, "tag value")
    for i, o in enumerate(others):
        S.check(getattr(o, f_tags) == {"a": i} and o.operation_name == "op", "its own tags and the inherited name")
        o.finish()
        S.check(getattr(o, f_finish) is not None, "finished")
    S.check(getattr(span, f_finish) is None, "the referenced span is not finished by it")
