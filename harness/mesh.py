"""C23, C24: the mesh client and the address map."""
from harness import meshenv, net
from harness.meshenv import Answer
from harness.stubs import ENV
from sx.scen import scenario

BODIES = ["success", "failure", "no success", "success 1", "success text", "success null", "empty", "list", "not json"]


def answer(S, name):
    """Any answer of the sidecar. Returns it and whether it says success."""
    import requests
    how = S.choice(name + ".how", ["answer", "connection error", "timeout"])
    if how == "connection error":
        return requests.ConnectionError("refused"), False
    if how == "timeout":
        return requests.Timeout("timeout"), False
    status = S.int(name + ".status", 100, 599)
    body = S.choice(name + ".body", BODIES)
    value = {"success": {"success": True}, "failure": {"success": False, "errorMessage": "no"},
             "no success": {"errorMessage": None}, "success 1": {"success": 1}, "success text": {"success": "true"},
             "success null": {"success": None}, "empty": {}, "list": [], "not json": None}[body]
    return Answer(status, value, body == "not json"), status == 200 and body == "success"


FIELDS = ["appName", "dataCenter", "zone", "registryEndPoint", "accessKey", "secretKey", "antShareCloud"]
BASE = "http://127.0.0.1:13330/"


@scenario("C23", covers=["returned", "raised"])
def mesh_operations(S):
    """One operation of any kind, any answer."""
    result, good = answer(S, "answer")

    def http(url, json):
        if isinstance(result, Exception):
            raise result
        return result
    meshenv.install_mesh(S, http)
    from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient, ProviderMetaInfo, PublishServiceRequest
    client = MeshClient(ApplicationInfo("app"))
    name = S.textblob("service", 0, 1000)
    port = S.textblob("port", 0, 10)
    op = S.choice("op", ["startup", "subscribe", "unsubscribe", "publish", "unpublish"])
    raised = None
    try:
        if op == "startup":
            client.startup()
        elif op == "publish":
            client.publish(PublishServiceRequest(serviceName=name, port=port, providerMetaInfo=ProviderMetaInfo(
                protocol="1", version="4.0", serializeType="protobuf", appName="app")))
        else:
            getattr(client, op)(name)
    except Exception as e:
        raised = e
    S.check((raised is None) == good, "returns normally exactly on HTTP 200 with success true")
    S.cover("returned" if raised is None else "raised")
    S.check(len(ENV.posts) == 1, "one post per operation")
    if len(ENV.posts) == 1:
        method, url, json = ENV.posts[0]
        S.check(method == "post", "posted")
        S.check(url == BASE + ("configs/application" if op == "startup" else "services/" + op), "endpoint")
        if op == "startup":
            S.check(len(json) == 1 and json["appName"] == "app", "application information")
        else:
            S.check(json["serviceName"] == name, "service name")
            if op == "publish":
                S.check(json["port"] == port, "port")
                S.check(json["providerMetaInfo"] == {"protocol": "1", "version": "4.0", "serializeType": "protobuf",
                                                     "appName": "app"}, "provider information")
    S.observe("raised", raised is not None)


@scenario("C23", variants=[{"n": 4, "few": True}, {"n": 2, "few": False}], thorough=[{"n": 7, "few": True}, {"n": 3, "few": False}],
          covers=["started", "refused"])
def registration(S, n, few):
    """Sequences of startup attempts, any fields, any answers."""
    state = {"good": False, "n": 0}

    def http(url, json):
        state["n"] += 1
        kind = S.choice("outcome", ["accepted", "not accepted", "status", "raises"] if few else ["accepted", "not accepted"])
        state["good"] = kind == "accepted"
        if kind == "raises":
            raise OSError("down")
        if kind == "status":
            st = S.int("status", 100, 599)
            S.assume(st != 200)
            return Answer(st, {"success": True})
        return Answer(200, {"success": kind == "accepted"})
    meshenv.install_mesh(S, http)
    from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient
    kinds = ["text", "empty", "none"]
    given = {}
    for f in FIELDS:
        if f == "antShareCloud":
            given[f] = S.flag(f)
        elif few and f != "zone":
            given[f] = f
        elif f in ("appName", "zone"):
            kind = S.choice(f, kinds)
            given[f] = {"text": S.textblob(f + ".text", 1, 500), "empty": "", "none": None}[kind]
        else:
            given[f] = S.textblob(f, 0, 500)
    client = MeshClient(ApplicationInfo(**given))
    want = {}
    for f in FIELDS:
        if given[f]:
            want[f] = given[f]
    done = False
    posts = 0
    for i in range(n):
        raised = None
        state["good"] = False
        before = len(ENV.posts)
        try:
            client.startup()
        except Exception as e:
            raised = e
        made = len(ENV.posts) - before
        if done:
            S.check(made == 0, "not posted again after success")
            S.check(raised is None, "returns normally once registered")
        else:
            S.check(made == 1, "posted until it succeeds")
            S.check((raised is None) == state["good"], "returns normally exactly on success")
            done = state["good"]
        S.cover("started" if done else "refused")
        if made:
            method, url, json = ENV.posts[-1]
            S.check(method == "post" and url == BASE + "configs/application", "endpoint")
            S.check(len(json) == len(want), "exactly the non-empty fields")
            for f in want:
                S.check(f in json and json[f] == want[f], "field unchanged")
    S.observe("posts", len(ENV.posts))


@scenario("C23", covers=["both"])
def two_mesh_clients(S):
    """Each mesh client registers its own application, whatever became of the other's registration."""
    def http(url, json):
        return Answer(200, {"success": S.flag("accepted")})
    meshenv.install_mesh(S, http)
    from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient
    names = [S.textblob("app%d" % i, 1, 500) for i in range(2)]
    clients = [MeshClient(ApplicationInfo(n)) for n in names]
    done = [False, False]
    for i in range(4):
        k = S.choice("who", 2)
        before = len(ENV.posts)
        try:
            clients[k].startup()
            raised = False
        except Exception:
            raised = True
        made = ENV.posts[before:]
        S.check(len(made) == (0 if done[k] else 1), "posted until it succeeds, and not again")
        for method, url, json in made:
            S.check(json["appName"] == names[k], "its own application")
        if not raised:
            done[k] = True
    if done[0] and done[1]:
        S.cover("both")
    S.observe("posts", len(ENV.posts))


# ------------------------------------------------------------------------------------------------------------- C24

MESH = ("127.0.0.1", 12220)
NAMES = ["com.x.A:1.0", "com.x.a:1.0", "com.x.A:2.0"]


ODD_HOSTS = ["host:1", "2001:db8::1", "[::1]:80", " Host.example. ", ""]
OPS = ["map", "map host", "subscribe", "unsubscribe", "subscribe two"]


@scenario("C24", variants=[{"n": 3, "mesh": True, "first": o} for o in OPS] + [{"n": 2, "mesh": False}],
          thorough=[{"n": 4, "mesh": True, "first": o} for o in OPS] + [{"n": 3, "mesh": False}],
          covers=["mesh address", "mapped"], quick_s=100, thorough_s=1800)
def addresses(S, n, mesh, first=None):
    """Histories of mappings, subscriptions and unsubscriptions; afterwards and in between, calls."""
    plan = []

    def http(url, json):
        if url.endswith("configs/application"):
            if mesh:
                return Answer(200, {"success": True})
            raise OSError("no mesh")
        good = plan.pop(0)
        if good == "yes":
            return Answer(200, {"success": True})
        if good == "no":
            return Answer(200, {"success": False, "errorMessage": "x"})
        if good == "status":
            return Answer(500, {"success": True})
        raise OSError("down")
    meshenv.install_mesh(S, http)
    net.install_sockets(S, net.Peer())
    from anthunder import SERVICE_MAP, Client
    from mytracer import SpanContext
    from mytracer.helpers import tracer
    client = Client("app")
    span = tracer.start_span("op")
    model = {}

    def call(name):
        before = len(ENV.sockets)
        client.invoke_oneway(name, "m", b"", spanctx=span.context)
        want = model.get(name, MESH)
        S.cover("mapped" if name in model else "mesh address")
        used = ENV.sockets[before:]
        S.check(len(used) > 0, "a connection is opened")
        for s in used:
            S.check(s.address[0] == want[0], "host")
            S.check(s.address[1] == want[1], "port")
        return want

    for i in range(n):
        op = S.choice("op%d" % i, OPS if i or not first else [first])
        k = S.choice("name%d" % i, min(i + 1, 3)) if op != "subscribe two" else 0
        name = NAMES[k]
        if op == "map":
            addr = (S.textblob("host%d" % i, 1, 100), S.int("port%d" % i, 0, 65535))
        elif op == "map host":
            odd = S.choice("host form", [None] + ODD_HOSTS) if i == 0 else None
            addr = S.textblob("host%d" % i, 0, 100) if odd is None else odd
        if op in ("map", "map host"):
            try:
                SERVICE_MAP[name] = addr
            except KeyError:
                S.check(name in model, "a first mapping is accepted")
            if name not in model:
                model[name] = addr if op == "map" else (addr, 12200)
        elif op == "subscribe two":
            a, b = S.choice("outcome%d" % i, ["yes", "raises"]), S.choice("outcome%db" % i, ["yes", "no"])
            plan[:] = [a, b]
            client.subscribe(NAMES[0], NAMES[1])
            if mesh:
                for m, o in ((NAMES[0], a), (NAMES[1], b)):
                    if o == "yes" and m not in model:
                        model[m] = MESH
        else:
            o = S.choice("outcome%d" % i, ["yes", ["no", "status", "raises"][(i + k) % 3]])
            plan[:] = [o]
            before = len(ENV.posts)
            getattr(client, op)(name)
            if mesh:
                S.check(len(ENV.posts) == before + 1, "asks the mesh")
                if o == "yes" and op == "subscribe" and name not in model:
                    model[name] = MESH
                elif o == "yes" and op == "unsubscribe":
                    model.pop(name, None)
            else:
                S.check(len(ENV.posts) == before, "no mesh, nothing asked")
        if i == 0:
            call(name)
    got = []
    for name in NAMES:
        got.append(call(name))
    S.observe("addresses", got)
