"""C25: what listeners announce to the mesh, and what they serve."""
from harness import aio, blockserver, meshenv, services, wire
from harness.aioserver import Peer, run
from harness.meshenv import Answer
from harness.stubs import ENV
from sx.scen import scenario

BASE = "http://127.0.0.1:13330/services/"
NAMES = ["com.x.A:1.0", "com.x.a:1.0", "com.x.A:2.0:DEFAULT"]


def listeners(S, kinds, ports, apps, hub=None):
    from anthunder import AioListener, SockListener
    return [(SockListener if k == "blocking" else AioListener)(("127.0.0.1", p), a) for k, p, a in zip(kinds, ports, apps)]


def mesh_of(S, how):
    def http(url, json):
        if url.endswith("configs/application"):
            if how == "refused":
                return Answer(200, {"success": False, "errorMessage": "no"})
            if how == "status":
                return Answer(503, {"success": True})
            if how == "none":
                return meshenv.refuse(url, json)
        return Answer(200, {"success": True})
    return http


def told(S, posts, op, names, port, app):
    """The posts of one publish or unpublish."""
    S.check(len(posts) == len(names), "one post per registered interface")
    seen = []
    for method, url, json in posts:
        S.check(method == "post" and url == BASE + op, "endpoint")
        name = json["serviceName"]
        S.check(name in names, "only interfaces registered on this listener")
        S.check(name not in seen, "each exactly once")
        seen.append(name)
        if op == "publish":
            S.check(json["port"] == port, "the listener's port")
            info = json["providerMetaInfo"]
            S.check(info["appName"] == app, "the listener's application name")
            S.check(info["serializeType"] == "protobuf", "protobuf serialization")


def digits(S, name):
    """A port number and its decimal form."""
    n = S.int(name, 1, 65535)
    return n, str(n)


class Quiet(object):
    def __init__(self, ctx, *args):
        pass


PAIRS = (["blocking", "blocking"], ["blocking", "asyncio"], ["asyncio", "blocking"], ["asyncio", "asyncio"])


@scenario("C25", variants=[{"n": 4, "kinds": k} for k in PAIRS], thorough=[{"n": 6, "kinds": k} for k in PAIRS],
          covers=["published", "unpublished", "nothing registered"], thorough_s=1200)
def announced(S, n, kinds):
    """Histories of registering, publishing and unpublishing on two listeners."""
    meshenv.install_mesh(S, mesh_of(S, "accepts"))
    blockserver.install(S)
    aio.install(S)
    ports, apps, texts = [], [], []
    for i in range(2):
        p, t = digits(S, "port%d" % i)
        ports.append(p)
        texts.append(t)
        apps.append(S.textblob("app%d" % i, 1, 100))
    lst = listeners(S, kinds, ports, apps)
    model = [[], []]
    for i in range(n):
        op = S.choice("op%d" % i, ["register", "publish", "unpublish"] if i < n - 1 else ["publish", "unpublish"])
        who = S.choice("listener%d" % i, 2) if i > 0 else 0
        before = len(ENV.posts)
        if op == "register":
            name = NAMES[S.choice("name%d" % i, min(i + 1, 3))]
            if i % 2:
                lst[who].handler.register_interface(name, Quiet)
            else:
                lst[who].handler.register_interface(name, Quiet, 5)
            if name not in model[who]:
                model[who].append(name)
            S.check(len(ENV.posts) == before, "registering announces nothing")
            continue
        getattr(lst[who], op)()
        S.cover(op + "ed")
        if not model[who]:
            S.cover("nothing registered")
        told(S, ENV.posts[before:], op, model[who], texts[who], apps[who])
    S.observe("posts", len(ENV.posts))


@scenario("C25", covers=["published", "unpublished"])
def any_name(S):
    """Interfaces of any names."""
    meshenv.install_mesh(S, mesh_of(S, "accepts"))
    blockserver.install(S)
    aio.install(S)
    port, text = digits(S, "port")
    app = S.textblob("app", 0, 1000)
    lst = listeners(S, [S.choice("kind", ["blocking", "asyncio"])], [port], [app])[0]
    names = []
    for i in range(S.choice("interfaces", [1, 2, 3])):
        name = S.textblob("name%d" % i, 1, 1000) if i < 2 else NAMES[0]
        lst.handler.register_interface(name, Quiet)
        if name not in names:
            names.append(name)
    for op, done in (("publish", "published"), ("unpublish", "unpublished")):
        before = len(ENV.posts)
        getattr(lst, op)()
        S.cover(done)
        told(S, ENV.posts[before:], op, names, text, app)


@scenario("C25", covers=["no mesh"])
def no_mesh(S):
    """Without a mesh, or with one that does not accept the application."""
    how = S.choice("mesh", ["none", "refused", "status"])
    meshenv.install_mesh(S, mesh_of(S, how))
    blockserver.install(S)
    aio.install(S)
    lst = listeners(S, [S.choice("kind", ["blocking", "asyncio"])], [12200], ["app"])[0]
    for name in NAMES[:S.choice("interfaces", 3)]:
        lst.handler.register_interface(name, Quiet)
    lst.publish()
    lst.unpublish()
    lst.publish()
    S.cover("no mesh")
    for method, url, json in ENV.posts:
        S.check(url.endswith("configs/application"), "nothing is announced")


@scenario("C25", variants=[{"kinds": k} for k in PAIRS],
          covers=["served", "not served"], hang=True, steps=60000)
def served(S, kinds):
    """Two listeners with interfaces of their own; a request reaches the service registered on the listener it came to, if any."""
    meshenv.install_mesh(S, meshenv.accept if S.flag("mesh") else meshenv.refuse)
    ENV.time = lambda: 1500000000.0
    blockserver.install(S)
    hub = aio.install(S)
    world = services.World(S)
    world.outcome = lambda obj, m, body: body
    lst = listeners(S, kinds, [12200, 12201], ["one", "two"])
    plan = [[S.flag("first on %d" % i), S.flag("second on %d" % i)] for i in range(2)]
    for i in (0, 1):
        for k in range(2):
            if plan[i][k]:
                lst[i].handler.register_interface(NAMES[k], world.service((i, NAMES[k])))
    if S.flag("published"):
        for l in lst:
            l.publish()
    to = S.choice("to", 2)
    k = S.choice("which", 2)
    body = S.blob("body", 0, 1 << 20)
    data = services.frame(S.int("rid", *wire.I32), services.named("both", NAMES[k]), body)
    if kinds[to] == "blocking":
        server = ENV.servers[len([x for x in kinds[:to] if x == "blocking"])]
        S.check(server.server_address == ("127.0.0.1", 12200 + to), "its own address")
        req = blockserver.FakeRequest(blockserver.Source(S, data, 0))
        server.accept(req)
        sent = req.sent
    else:
        peer = Peer(hub, [data])
        run(hub, lst[to])
        sent = peer.t.sent
    out = wire.split(S, wire.Resp, sent, "answer")
    good = [f for f in out if f.status == wire.SUCCESS]
    if plan[to][k]:
        S.cover("served")
        S.check(len(world.calls) == 1, "the service method runs once")
        for obj, m, got in world.calls:
            S.check(obj.name == (to, NAMES[k]), "the service registered on this listener")
            S.check(got == body, "exactly the request content")
        S.check(len(good) == 1, "one SUCCESS response")
    else:
        S.cover("not served")
        S.check(len(world.calls) == 0 and len(world.created) == 0, "an interface of another listener is not served")
        S.check(len(good) == 0, "no success is reported")
