"""C06, C32-C35: request ids, span ids, trace context, trace ids, spans."""
from harness import stubs
from harness.stubs import ENV
from sx.scen import scenario

MAX = (1 << 31) - 1


# ------------------------------------------------------------------------------------------------------------- C06

def drawers():
    from anthunder.command.heartbeat import HeartbeatRequest
    from anthunder.protocol import BoltRequest, SofaHeader
    from anthunder.protocol.constants import PTYPE
    return [lambda: BoltRequest.new_request(SofaHeader(), b"").request_id,
            lambda: BoltRequest.new_request(SofaHeader(a="b"), b"x", ptype=PTYPE.ONEWAY, timeout_ms=5).request_id,
            lambda: HeartbeatRequest.new_request().request_id]


@scenario("C06", variants=[{"n": 3}], thorough=[{"n": 5}], covers=["drawn"])
def next_ids(S, n):
    """n successive requests of any kind, from any starting point."""
    start = S.int("start", 0, MAX)

    def randint(a, b):
        S.assume(start >= a)
        S.assume(start <= b)
        return start
    ENV.randint = randint
    ds = drawers()
    ids = []
    for i in range(n):
        ids.append(S.choice("kind%d" % i, ds)())
    S.cover("drawn")
    for i in range(n):
        S.check(ids[i] >= 0 and ids[i] <= MAX, "31-bit id")
        for j in range(i):
            S.check(ids[i] != ids[j], "distinct ids")
    S.observe("ids", ids)


@scenario("C06", covers=["drawn"])
def distant_ids(S):
    """Two requests at most 2^31 - 1 apart, the first at any position of the sequence."""
    start = S.int("start", 0, MAX)

    def randint(a, b):
        S.assume(start >= a)
        S.assume(start <= b)
        return start
    ENV.randint = randint
    ds = drawers()
    import anthunder.helpers.request_id as mod
    its = stubs.find_iterators(mod)
    far = len(its) > 0
    S.cover("drawn")
    p = S.int("position", 0, 1 << 34 if far else 3)
    d = S.int("distance", 1, MAX if far else 3)
    if far:
        S.advance(its[0], p)
        a = ds[0]()
        S.advance(its[0], d - 1)
        b = ds[0]()
    else:
        for _ in range(p):
            ds[0]()
        a = ds[0]()
        for _ in range(d):
            b = ds[0]()
    S.check(a >= 0 and a <= MAX and b >= 0 and b <= MAX, "31-bit id")
    S.check(a != b, "distinct ids")
    S.observe("ids", [a, b])


# ------------------------------------------------------------------------------------------------------------- C32

def rpc_of(span):
    return str(span.context.baggage["sofaRpcId"])


def root_span(S, kind):
    """A root span and its rpc id."""
    import opentracing
    from mytracer import helpers
    tracer = helpers.tracer
    if kind == "new":
        return helpers.new_span("root"), "1"
    segs = [str(S.int("seg%d" % i, 0, 1 << 40)) for i in range(kind)]
    rid = ".".join(segs)
    ctx = tracer.extract(opentracing.Format.TEXT_MAP, {"rpc_trace_context.sofaRpcId": rid,
                                                       "rpc_trace_context.sofaTraceId": "t"})
    return ctx, rid


def derive(S, i, base, follow):
    """A child or follow-up of a span or context, through one of the equivalent ways the API offers."""
    import opentracing
    from mytracer import helpers
    tracer = helpers.tracer
    is_span = hasattr(base, "context")
    ctx = base.context if is_span else base
    ways = ["reference", "references"] + ([] if follow else ["child_of"]) + (["helper"] if is_span else [])
    way = S.choice("way%d" % i, ways) if i < 2 else ways[-1]
    ref = opentracing.Reference(
        opentracing.ReferenceType.FOLLOWS_FROM if follow else opentracing.ReferenceType.CHILD_OF, ctx)
    if way == "reference":
        return tracer.start_span("op", references=ref)
    if way == "references":
        return tracer.start_span("op", references=[ref])
    if way == "child_of":
        return tracer.start_span("op", child_of=base)
    if follow:
        return helpers.follows_span_from(base, "op")
    return helpers.child_span_of(base, "op")


@scenario("C32", variants=[{"kind": "new", "n": 4}, {"kind": 2, "n": 3}],
          thorough=[{"kind": "new", "n": 5}, {"kind": 2, "n": 4}, {"kind": 3, "n": 4}], covers=["child", "follow"])
def span_ids(S, kind, n):
    """Every sequence of n derivations below a root whose rpc id has arbitrary numbers."""
    root, rid = root_span(S, kind)
    spans = [root]
    ids = [rid]
    parent = [None]
    count = [0]
    for i in range(n):
        ops = [(b, False) for b in range(len(spans))] + [(b, True) for b in range(1, len(spans))]
        b, follow = S.choice("op%d" % i, ops)
        spans.append(derive(S, i, spans[b], follow))
        p = parent[b] if follow else b
        S.cover("follow" if follow else "child")
        count[p] += 1
        count.append(0)
        parent.append(p)
        got = rpc_of(spans[-1])
        want = "%s.%d" % (ids[p], count[p])
        ids.append(want)
        S.check(got == want, "rpc id of the derived span")
    got = [rid] + [rpc_of(s) for s in spans[1:]]
    for i in range(len(got)):
        S.check(got[i] == ids[i], "rpc ids stay as they were given")
        for j in range(i):
            S.check(got[i] != got[j], "distinct rpc ids")
            if i and j:
                S.check(not (spans[i].context.baggage["sofaRpcId"] == spans[j].context.baggage["sofaRpcId"]),
                        "distinct rpc ids as objects")
    S.observe("ids", got)


# ------------------------------------------------------------------------------------------------------------- C33

PREFIX = "rpc_trace_context."
NAMES = ["sofaCallerApp", "a", "x.y", "sofaPenAttrs"]


def foreign_context(S, segs, names, top=99):
    import opentracing
    from mytracer import tracer
    carrier = {PREFIX + "sofaTraceId": S.textblob("trace", 1 if segs > 1 else 0, 1000),
               PREFIX + "sofaRpcId": ".".join(str(S.int("seg%d" % i, 0, 1 << 70 if segs == 1 else top)) for i in range(segs))}
    for n in names:
        carrier[PREFIX + n] = S.textblob(n, 1 if n != names[0] else 0, 1000)
    want = dict(carrier)
    carrier["service"] = S.textblob("service", 1, 50)
    ctx = tracer.extract(opentracing.Format.TEXT_MAP, carrier)
    return ctx, want


def same_context(S, ctx, want, label, rpc=None):
    b = ctx.baggage
    S.check(len(b) == len(want), label + ": number of items")
    for k in want:
        n = k[len(PREFIX):]
        S.check(n in b, label + ": item present")
        if n not in b:
            continue
        v = want[k] if n != "sofaRpcId" or rpc is None else rpc
        S.check(str(b[n]) == v, label + ": " + n)


@scenario("C33", variants=[{"segs": s, "count": c} for s, c in ((1, 0), (2, 1), (2, 2), (3, 1))], quick_s=100,
          thorough=[{"segs": s, "count": c} for s in (1, 2, 3, 4) for c in (0, 1, 2, 4)], covers=["carried"])
def carried(S, segs, count):
    """Injecting into and extracting from a carrier, a header and a server's header, for contexts, children and follow-ups."""
    import opentracing
    from anthunder.protocol import SofaHeader
    from mytracer import tracer
    fmt = opentracing.Format.TEXT_MAP
    names = NAMES[:count]
    ctx, want = foreign_context(S, segs, names)
    same_context(S, ctx, want, "extracted")
    rpc = want[PREFIX + "sofaRpcId"]
    rel = S.choice("relation", ["self", "child", "grandchild", "follow of child"])
    if rel != "self":
        span = tracer.start_span("op", child_of=ctx)
        rpc = rpc + ".1"
        if rel == "grandchild":
            span = tracer.start_span("op", child_of=span)
            rpc = rpc + ".1"
        elif rel == "follow of child":
            span = tracer.start_span("op", references=opentracing.Reference(opentracing.ReferenceType.FOLLOWS_FROM, span.context))
            rpc = want[PREFIX + "sofaRpcId"] + ".2"
        ctx = span.context
        same_context(S, ctx, want, "derived", rpc)
    how = S.choice("how", ["dict", "existing", "header", "used before"])
    stale = {PREFIX + "sofaTraceId": "7f000001", PREFIX + "sofaRpcId": "9.9", PREFIX + (names[0] if names else "sofaTraceId"): "old"}
    given = {"dict": {}, "existing": {"service": "s", "rpc_other": "o"}, "header": {"service": "s"}, "used before": stale}[how]
    carrier = dict(given)
    got = tracer.inject(ctx, fmt, carrier)
    S.check(got is carrier, "inject returns the carrier")
    extra = {k: given[k] for k in given if k not in want}
    S.check(len(carrier) == len(want) + len(extra), "only the context is added")
    for k in extra:
        S.check(carrier[k] == extra[k], "other entries untouched")
    for k in want:
        S.check(k in carrier, "injected item")
        if k in carrier:
            S.check(carrier[k] == (rpc if k == PREFIX + "sofaRpcId" else want[k]), "injected value")
    if how == "header":
        carrier = SofaHeader.from_bytes(SofaHeader(carrier).to_bytes())
    back = tracer.extract(fmt, carrier)
    S.cover("carried")
    same_context(S, back, want, "carried", rpc)
    S.observe("rpc", rpc)
    other = tracer.start_span("op", child_of=back)
    same_context(S, other.context, want, "continued", rpc + ".1")


ODD = ["prefix", "expand", "__class__", "__dict__", "format", "service", "rpc_trace_context.x", "", ".", " Padded\t", "name" * 40, "sofa_head_method_name"]


@scenario("C33", variants=[{"segs": 2, "count": 2, "odd": 0, "hops": 2}, {"segs": 2, "count": 0, "odd": 1, "hops": 1}],
          thorough=[{"segs": 1, "count": 4, "odd": 0, "hops": 2}, {"segs": 2, "count": 2, "odd": 2, "hops": 2}], covers=["sent"])
def sent(S, segs, count, odd, hops):
    """From a caller to a service and on to the next one, in the headers of encoded requests."""
    import opentracing
    from anthunder.protocol import BoltRequest, SofaHeader
    from mytracer import tracer
    names = NAMES[:count]
    for i in range(odd):
        n = S.choice("odd%d" % i, ODD)
        if n not in names:
            names = names + [n]
    ctx, want = foreign_context(S, segs, names, 9)
    rpc = want[PREFIX + "sofaRpcId"]
    for hop in range(hops):
        if S.flag("derive%d" % hop):
            ctx = tracer.start_span("op", child_of=ctx).context
            rpc = rpc + ".1"
            same_context(S, ctx, want, "derived", rpc)
        extra = {}
        if S.flag("extra%d" % hop):
            # entries of an earlier request passed on do not replace the context
            extra = {"sofa_head_custom": "x", "protocol": "bolt", PREFIX + "sofaRpcId": "9.9", PREFIX + "sofaTraceId": "stale"}
        content = S.blob("content%d" % hop, 0, 1000)
        header = SofaHeader.build_header(ctx, "com.x.A:1.0", "say", target_app="app", uid="", **extra)
        frame = BoltRequest.new_request(header, content, timeout_ms=100).to_stream()
        got = BoltRequest.from_stream(frame)
        h = got.header
        S.check(h.get("service") == "com.x.A:1.0" and h.get("sofa_head_target_service") == "com.x.A:1.0", "the interface")
        S.check(h.get("sofa_head_method_name") == "say", "the method")
        for k in extra:
            if not k.startswith(PREFIX):
                S.check(h.get(k) == extra[k], "the caller's own entry")
        back = tracer.extract(opentracing.Format.TEXT_MAP, h)
        same_context(S, back, want, "received", rpc)
        ctx = back
    S.cover("sent")
    S.observe("rpc", rpc)


@scenario("C33", covers=["fresh", "refused"])
def fresh_and_refused(S):
    import opentracing
    from mytracer import tracer
    now = S.int("now", 10 ** 12, 10 ** 13 - 1)
    ENV.time = lambda: now / 1000
    ENV.pid = S.int("pid", 1, 99999)
    carrier = {"service": "x"}
    t = S.textblob("trace", 0, 1000)
    n = S.int("seg", 0, 1 << 40)
    has_trace, has_rpc, has_item = S.flag("trace"), S.flag("rpc"), S.flag("item")
    if has_trace:
        carrier[PREFIX + "sofaTraceId"] = t
    if has_rpc:
        carrier[PREFIX + "sofaRpcId"] = str(n)
    if has_item:
        carrier[PREFIX + "a"] = t
    ctx = tracer.extract(opentracing.Format.TEXT_MAP, carrier)
    b = ctx.baggage
    S.check(len(b) == (3 if has_item else 2), "number of items")
    S.check(str(b["sofaRpcId"]) == (str(n) if has_rpc else "1"), "rpc id")
    if has_trace:
        S.check(str(b["sofaTraceId"]) == t, "trace id")
    else:
        S.cover("fresh")
        ctx2 = tracer.extract(opentracing.Format.TEXT_MAP, {})
        S.check(str(b["sofaTraceId"]) != str(ctx2.baggage["sofaTraceId"]), "fresh trace ids differ")
        S.check(str(b["sofaTraceId"]).startswith("7f000001"), "fresh trace id has the documented form")
    fmt = S.choice("format", [opentracing.Format.HTTP_HEADERS, opentracing.Format.BINARY, None, "x"])
    for f in (lambda: tracer.extract(fmt, carrier), lambda: tracer.inject(ctx, fmt, carrier)):
        size = len(carrier)
        try:
            f()
            S.fail("other format is refused")
        except opentracing.UnsupportedFormatException:
            S.cover("refused")
        S.check(len(carrier) == size, "refused carrier untouched")


# ------------------------------------------------------------------------------------------------------------- C34

IPS = [("0.0.0.1", "00000001"), ("10.1.2.3", "0a010203"), ("255.255.255.255", "ffffffff"), ("127.0.0.1", "7f000001"),
       ("192.168.0.240", "c0a800f0")]


def check_form(S, tid, hexip, ms, pid, label="form"):
    S.check(tid[:8] == hexip, label + ": address")
    p = str(pid)
    m = str(ms)
    S.check(tid[8:].startswith(m), label + ": timestamp")
    rest = tid[8:].removeprefix(m)
    S.check(rest.endswith(p), label + ": pid")
    seq = rest.removesuffix(p)
    S.check(len(seq) == 4, label + ": four-digit sequence")
    return seq


@scenario("C34", variants=[{"n": 3}], thorough=[{"n": 4}], covers=["made"])
def successive_ids(S, n):
    """n successive ids, the clock showing any time for each."""
    ENV.pid = S.int("pid", 1, 9999999)
    ENV.ip, hexip = S.choice("ip", IPS)
    from mytracer import TraceId
    times, ids = [], []
    for i in range(n):
        ms = S.int("ms%d" % i, 10 ** 12, 10 ** 13 - 1)
        ENV.time = lambda ms=ms: stubs.ms_clock(S, ms)
        times.append(ms)
        ids.append(str(TraceId()))
    S.cover("made")
    for i in range(n):
        check_form(S, ids[i], hexip, times[i], ENV.pid)
        for j in range(i):
            S.check(ids[i] != ids[j], "distinct trace ids")
    S.observe("ids", ids)


@scenario("C34", covers=["made"])
def distant_trace_ids(S):
    """Two ids up to 8000 generations apart, anywhere in the sequence, the clock showing any two times."""
    ENV.pid = S.int("pid", 1, 9999999)
    import mytracer._trace_id as mod
    from mytracer import TraceId
    its = stubs.find_iterators(TraceId, mod)
    far = len(its) > 0
    p = S.int("position", 0, 1 << 40 if far else 2)
    d = S.int("distance", 1, 8000 if far else 3)
    a_ms, b_ms = S.int("ms0", 10 ** 12, 10 ** 13 - 1), S.int("ms1", 10 ** 12, 10 ** 13 - 1)
    ENV.time = lambda: stubs.ms_clock(S, a_ms)
    if far:
        S.advance(its[0], p)
        a = TraceId()
        S.advance(its[0], d - 1)
        ENV.time = lambda: stubs.ms_clock(S, b_ms)
        b = TraceId()
    else:
        for _ in range(p):
            TraceId()
        a = TraceId()
        ENV.time = lambda: stubs.ms_clock(S, b_ms)
        for _ in range(d):
            b = TraceId()
    S.cover("made")
    a, b = str(a), str(b)
    S.check(a != b, "distinct trace ids")
    check_form(S, a, "7f000001", a_ms, ENV.pid)
    check_form(S, b, "7f000001", b_ms, ENV.pid)
    S.observe("ids", [a, b])


# ------------------------------------------------------------------------------------------------------------- C35

def span_fields(tracer):
    """Where a span keeps its tags, start and finish time (they have no accessors): found by setting them on a span."""
    probe = tracer.start_span("probe")
    sizes = dict((k, len(v)) for k, v in vars(probe).items() if isinstance(v, dict))
    probe.set_tag("probe", 1)
    tags = [k for k in sizes if len(getattr(probe, k)) != sizes[k]]
    mark, mark2 = 123456789, 987654321
    probe.set_start_time(mark)
    start = [k for k, v in vars(probe).items() if v is mark]
    ENV.time = lambda: mark2
    probe.finish()
    finish = [k for k, v in vars(probe).items() if v is mark2]
    return (tags + [None])[0], (start + [None])[0], (finish + [None])[0]


@scenario("C35", covers=["given name", "inherited name", "raised", "normal"])
def spans(S):
    import opentracing
    from mytracer import helpers
    tracer = helpers.tracer
    f_tags, f_start, f_finish = span_fields(tracer)
    S.check(f_tags is not None, "set_tag records the tag")
    S.check(f_start is not None, "set_start_time records the time")
    S.check(f_finish is not None, "finish records the time")
    if f_tags is None or f_start is None or f_finish is None:
        return
    t0 = S.real("now", 0, 10 ** 10)
    ENV.time = lambda: t0
    op = S.textblob("op", 1, 1000)
    names = ["k%d" % i for i in range(S.choice("tags", 4))]
    tags = dict((n, S.textblob(n, 0, 100)) for n in names)
    root_tags = {"r": 1}
    base = helpers.new_span("root", **root_tags)
    S.check(base.operation_name == "root", "operation name")
    way = S.choice("way", ["start", "start child", "new_span", "child_span_of", "follows_span_from"])
    start = None
    given = S.flag("name given")
    want = op
    if way in ("start", "start child"):
        if S.flag("start time"):
            start = S.real("start", 0, 10 ** 10)
        args = {} if start is None else {"start_time": start}
        if way == "start child":
            args["child_of"] = base
        if S.flag("no tags argument"):
            tags = {}
        else:
            args["tags"] = dict(tags)
        span = tracer.start_span(op, **args)
    elif way == "new_span":
        span = helpers.new_span(op, **tags)
    else:
        f = helpers.child_span_of if way == "child_span_of" else helpers.follows_span_from
        if given:
            span = f(base, op, **tags)
        else:
            want = "root"
            S.cover("inherited name")
            span = f(base, **tags)
    if want is op:
        S.cover("given name")
    S.check(span.operation_name == want, "operation name")
    got = getattr(span, f_tags)
    S.check(len(got) == len(tags), "exactly the tags given")
    for k in tags:
        S.check(k in got and got[k] == tags[k], "tag value")
    S.check(len(getattr(base, f_tags)) == 1 and getattr(base, f_tags)["r"] == 1, "tags of another span untouched")
    S.check(getattr(span, f_start) == (t0 if start is None else start), "start time")
    S.check(getattr(span, f_finish) is None, "not finished yet")
    t1 = S.real("end", 0, 10 ** 10)

    class Boom(Exception):
        pass
    raised = S.flag("body raises")
    boom = S.choice("what", [Boom, KeyboardInterrupt, GeneratorExit, SystemExit, StopIteration])() if raised else None
    seen = None
    try:
        with span as inner:
            S.check(inner is span, "the context manager gives the span")
            S.check(getattr(span, f_finish) is None, "not finished inside the body")
            ENV.time = lambda: t1
            if raised:
                raise boom
    except (Exception, KeyboardInterrupt, GeneratorExit, SystemExit) as e:
        seen = e
    S.check(seen is boom, "the body's exception reaches the caller")
    if start is not None:
        S.check(getattr(span, f_start) == start, "the given start time stays")
    S.cover("raised" if raised else "normal")
    S.check(getattr(span, f_finish) is not None, "finished")
    S.check(getattr(span, f_finish) == t1, "finish time")
    S.check(getattr(base, f_finish) is None, "the referenced span is not finished by it")
    b = span.context.baggage
    size = len(b)
    rid = str(b["sofaRpcId"])
    try:
        b[S.choice("key", ["sofaRpcId", "sofaTraceId", "new"])] = "x"
        S.fail("baggage cannot be assigned")
    except TypeError:
        pass
    S.check(len(span.context.baggage) == size and str(span.context.baggage["sofaRpcId"]) == rid, "baggage unchanged")
