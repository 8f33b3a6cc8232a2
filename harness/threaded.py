"""Several threads at once: C06, C23, C24, C29, C30, C32, C34."""
import itertools
from collections import OrderedDict

from harness import meshenv, net, stubs
from harness.stubs import ENV
from harness.trace import MAX, drawers
from sx import sched as threads
from sx.scen import scenario


def together(S, fns, switches):
    sched = threads.Sched(S, switches)
    for f in fns:
        sched.spawn(f)
    S.check(sched.run(), "no thread waits for ever")
    S.cover("ended")


# ------------------------------------------------------------------------------------------------------------- C06

@scenario("C06", variants=[{"counts": [2, 2], "switches": 2}, {"counts": [1, 1, 1], "switches": 1}],
          thorough=[{"counts": [2, 2], "switches": 3}, {"counts": [3, 1], "switches": 3}, {"counts": [1, 1, 1], "switches": 2}],
          covers=["ended"])
def ids_of_threads(S, counts, switches):
    """Requests made by several threads, from any starting point."""
    threads.install(S)
    start = S.int("start", 0, MAX)

    def randint(a, b):
        S.assume(start >= a)
        S.assume(start <= b)
        return start
    ENV.randint = randint
    ds = drawers()
    import anthunder.command.heartbeat as heartbeat
    import anthunder.helpers.request_id as request_id
    import anthunder.protocol._request_pkg as request
    threads.watch(request_id, lines=True)
    threads.watch(request, heartbeat)
    ids = []

    def drawing(n, first):
        def run():
            for i in range(n):
                ids.append(ds[(first + i) % 3]())
        return run
    together(S, [drawing(n, i) for i, n in enumerate(counts)], switches)
    S.check(len(ids) == sum(counts), "every thread gets its ids")
    for i in range(len(ids)):
        S.check(ids[i] >= 0 and ids[i] <= MAX, "31-bit id")
        for j in range(i):
            S.check(ids[i] != ids[j], "distinct ids")
    S.observe("ids", ids)


# ------------------------------------------------------------------------------------------------------------- C23

@scenario("C23", variants=[{"n": 2, "switches": 2}, {"n": 3, "switches": 1}],
          thorough=[{"n": 2, "switches": 4}, {"n": 3, "switches": 3}], covers=["ended", "refused"])
def startup_by_threads(S, n, switches):
    """Threads that start one mesh client up at the same time; the mesh refuses some of them."""
    threads.install(S)
    good = []

    def http(url, json):
        threads.point()
        ok = S.flag("accepted") if len(good) < 3 else True
        threads.point()
        if not ok:
            S.cover("refused")
            return meshenv.Answer(200, {"success": False, "errorMessage": "no"})
        good.append(url)
        return meshenv.Answer(200, {"success": True})
    meshenv.install_mesh(S, http)
    from anthunder.mesh import mesh_client
    threads.watch(mesh_client, lines=True)
    client = mesh_client.MeshClient(mesh_client.ApplicationInfo("app"))
    failed = []

    def start():
        try:
            client.startup()
        except Exception:
            S.reraise()
            failed.append(1)
    together(S, [start] * n, switches)
    S.check(len(good) == (1 if len(failed) < n else 0), "posted until it succeeds once")
    S.check(len(ENV.posts) == len(good) + len(failed), "posted by those that failed and the one that succeeded")
    S.observe("posts", len(ENV.posts))


# ------------------------------------------------------------------------------------------------------------- C24

@scenario("C24", variants=[{"n": 2, "switches": 2, "sub": False}, {"n": 3, "switches": 1, "sub": False},
                           {"n": 1, "switches": 2, "sub": True}, {"n": 2, "switches": 1, "sub": True}],
          thorough=[{"n": 2, "switches": 4, "sub": False}, {"n": 3, "switches": 2, "sub": False},
                    {"n": 1, "switches": 4, "sub": True}, {"n": 2, "switches": 3, "sub": True}], covers=["ended", "refused"])
def mapping_by_threads(S, n, switches, sub):
    """Threads that map one interface to different addresses, or subscribe it, at the same time."""
    threads.install(S)
    meshenv.install_mesh(S, lambda url, json: threads.point() or meshenv.accept(url, json))
    import anthunder
    import anthunder.client.base as base
    import anthunder.helpers.immutable_dict as immutable_dict
    client = base._BaseClient("app") if sub else None
    threads.watch(immutable_dict, base, lines=True)
    known = anthunder.SERVICE_MAP
    won = []

    def mapping(i):
        def run():
            host = "h%d" % i
            try:
                known["inf"] = host
            except KeyError:
                S.cover("refused")
                return
            won.append(host)
            S.check(known["inf"] == host, "a mapping that was set stays")
        return run

    def subscribing():
        client.subscribe("inf")
        S.check("inf" in known, "subscribed or mapped")
        S.cover("refused")
    together(S, [mapping(i) for i in range(n)] + ([subscribing] if sub else []), switches)
    S.check(len(won) <= 1 and (sub or len(won) == 1), "one assignment is accepted")
    if won:
        S.check(known["inf"] == won[0], "the accepted assignment is not replaced")
    else:
        S.check(known["inf"] == ("127.0.0.1", 12220), "the subscription stays")
    S.observe("winner", str(known["inf"]))


# ------------------------------------------------------------------------------------------------------------- C29

class Op(object):
    """One operation on the container: what it was, when it ran, how it ended."""

    def __init__(self, kind, key, value=None):
        self.kind, self.key, self.value = kind, key, value
        self.begin = self.end = self.result = None


def apply(model, cap, op, gone):
    """The operation on a sequential container; its result."""
    if op.kind == "get":
        if op.key not in model:
            return KeyError
        model.move_to_end(op.key)
        return model[op.key]
    if op.kind == "set":
        if op.key in model:
            gone.append(model.pop(op.key))
        model[op.key] = op.value
        if len(model) > cap:
            gone.append(model.popitem(last=False)[1])
        return None
    if op.kind == "del":
        if op.key not in model:
            return KeyError
        gone.append(model.pop(op.key))
        return None
    if op.kind == "clear":
        gone.extend(model.values())
        model.clear()
        return None
    return len(model)


def explained(cap, first, ops, left, gone):
    """Whether some order of the operations, each within its time, has these results and leaves this content."""
    for order in itertools.permutations(ops):
        if any(a.begin > b.end for i, a in enumerate(order) for b in order[i + 1:]):
            continue
        model, lost = OrderedDict(first), []
        if all(apply(model, cap, o, lost) == o.result for o in order) and model == left and sorted(lost) == sorted(gone):
            return True
    return False


PROGRAMS = [(["set"], ["set"]), (["get"], ["set"]), (["get", "get"], ["get"]), (["set", "get"], ["set"]), (["del"], ["get", "set"]),
            (["del"], ["del", "set"]), (["clear"], ["set", "get"]), (["set"], ["len", "set"])]


@scenario("C29", variants=[{"p": p, "switches": 2} for p in range(len(PROGRAMS))],
          thorough=[{"p": p, "switches": 3} for p in range(len(PROGRAMS))], covers=["ended"], quick_s=200, thorough_s=1800)
def lru_of_threads(S, p, switches):
    """Two threads using one container: some order of their operations explains everything they see."""
    threads.install(S)
    from mysockpool import recently_used_container as mod
    threads.watch(mod)
    cap = S.choice("maxsize", [1, 2])
    gone = []
    c = mod.RecentlyUsedContainer(cap, dispose_func=lambda v: (threads.point(), gone.append(v)))
    keys = ["a", "b", "c"]
    first = OrderedDict()
    for k in keys[:S.choice("stored", cap + 1)]:
        c[k] = first[k] = "first " + k
    clock = [0]
    ops = []

    def tick():
        clock[0] += 1
        return clock[0]

    def program(who, kinds):
        mine = [Op(k, S.choice("key%d%d" % (who, i), keys) if k not in ("clear", "len") else None, "v%d%d" % (who, i))
                for i, k in enumerate(kinds)]
        ops.extend(mine)

        def run():
            for o in mine:
                o.begin = tick()
                try:
                    if o.kind == "get":
                        o.result = c[o.key]
                    elif o.kind == "set":
                        c[o.key] = o.value
                    elif o.kind == "del":
                        del c[o.key]
                    elif o.kind == "clear":
                        c.clear()
                    else:
                        o.result = len(c)
                except KeyError:
                    o.result = KeyError
                o.end = tick()
        return run
    together(S, [program(i, ks) for i, ks in enumerate(PROGRAMS[p])], switches)
    got = gone[:]
    left = OrderedDict()
    S.check(len(c) <= cap, "at most maxsize keys")
    for k in c.keys():
        left[k] = c[k]
    S.check(sorted(got) == sorted(gone), "lookups dispose nothing")
    S.check(explained(cap, first, ops, left, got), "the operations took place one after the other")
    S.observe("left", [str(k) + "=" + v for k, v in left.items()])


# ------------------------------------------------------------------------------------------------------------- C30

@scenario("C30", variants=[{"n": [1, 1], "switches": 2}, {"n": [2, 1], "switches": 2}, {"n": [1, 1, 1], "switches": 1}],
          thorough=[{"n": [1, 1], "switches": 4}, {"n": [2, 2], "switches": 2}, {"n": [1, 1, 1], "switches": 2}],
          covers=["ended", "same", "evicted"], quick_s=200, thorough_s=1800)
def manager_of_threads(S, n, switches):
    """Threads asking one manager for pools."""
    threads.install(S)
    ENV.peer = net.Peer()
    net.install_sockets(S, ENV.peer)
    from mysockpool import pool_manager, recently_used_container
    from mysockpool.exceptions import ClosedPoolError
    cap = S.choice("max_pools", [1, 2])
    man = pool_manager.PoolManager(cap, initial_connections=0, min_free_connections=0)
    threads.watch(pool_manager, recently_used_container)
    Key = pool_manager.PoolManager.PoolCls.ConnectionCls.PoolKeyCls
    asked = []

    def asking(who, m):
        ports = [S.choice("port%d%d" % (who, i), [1, 2]) for i in range(m)]

        def run():
            for p in ports:
                pool = man.connection_pool_from_pool_key(Key("h", p))
                S.check(pool.pool_key.port == p, "pool of the key asked for")
                asked.append((p, pool))
        return run
    together(S, [asking(i, m) for i, m in enumerate(n)], switches)
    used = set(p for p, _ in asked)
    pools = []
    for _, pool in asked:
        if not any(pool is q for q in pools):
            pools.append(pool)
    if len(used) <= cap:
        S.check(len(pools) == len(used), "one pool per key")
        S.cover("same")
    else:
        S.cover("evicted")
    open_ones = []
    for q in pools:
        try:
            q.put_conn(q.get_conn())
            open_ones.append(q)
        except ClosedPoolError:
            pass
    S.check(len(open_ones) == min(cap, len(used)), "as many open pools as keys, up to max_pools")
    S.check(len(set(q.pool_key.port for q in open_ones)) == len(open_ones), "one open pool per key")
    for q in open_ones:
        S.check(man.connection_pool_from_pool_key(q.pool_key) is q, "the open pool is the one of its key")
    S.observe("pools", [len(pools), len(open_ones)])


# ------------------------------------------------------------------------------------------------------------- C32

@scenario("C32", variants=[{"n": [1, 1], "switches": 2}, {"n": [2, 1], "switches": 2}, {"n": [1, 1, 1], "switches": 1}],
          thorough=[{"n": [2, 2], "switches": 3}, {"n": [3, 1], "switches": 3}, {"n": [1, 1, 1], "switches": 3}], covers=["ended"],
          quick_s=100)
def spans_of_threads(S, n, switches):
    """Threads deriving spans from one span and from one of its children."""
    threads.install(S)
    from mytracer import _rpc_id, helpers
    threads.watch(_rpc_id)
    root = helpers.new_span("root")
    child = helpers.child_span_of(root)
    got = []

    def deriving(who, m):
        kinds = [S.choice("kind%d%d" % (who, i), ["child", "sibling", "grandchild"]) for i in range(m)]

        def run():
            for k in kinds:
                s = helpers.child_span_of(root) if k == "child" else \
                    helpers.follows_span_from(child) if k == "sibling" else helpers.child_span_of(child)
                got.append((k == "grandchild", str(s.context.baggage["sofaRpcId"])))
        return run
    together(S, [deriving(i, m) for i, m in enumerate(n)], switches)
    S.check(str(child.context.baggage["sofaRpcId"]) == "1.1", "the first child")
    low = sorted(i for deep, i in got if deep)
    top = sorted(i for deep, i in got if not deep)
    S.check(top == ["1.%d" % (i + 2) for i in range(len(top))], "children numbered consecutively")
    S.check(low == ["1.1.%d" % (i + 1) for i in range(len(low))], "grandchildren numbered consecutively")
    S.observe("ids", top + low)


# ------------------------------------------------------------------------------------------------------------- C34

@scenario("C34", variants=[{"n": [2, 1], "switches": 2}, {"n": [1, 1, 1], "switches": 1}],
          thorough=[{"n": [2, 2], "switches": 3}, {"n": [1, 1, 1], "switches": 2}], covers=["ended"], quick_s=100)
def trace_ids_of_threads(S, n, switches):
    """Trace ids generated by several threads, the clock showing any one time."""
    threads.install(S)
    ms = S.int("ms", 10 ** 12, 10 ** 13 - 1)
    ENV.time = lambda: stubs.ms_clock(S, ms)
    import mytracer._trace_id as mod
    threads.watch(mod, lines=True)
    ids = []

    def generating(m):
        def run():
            for _ in range(m):
                ids.append(mod.TraceId())
        return run
    together(S, [generating(m) for m in n], switches)
    ids = [str(i) for i in ids]
    S.check(len(ids) == sum(n), "every thread gets its ids")
    for i in range(len(ids)):
        for j in range(i):
            S.check(ids[i] != ids[j], "distinct trace ids")
    S.observe("ids", ids)
