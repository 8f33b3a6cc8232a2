"""Recording services and the request frames that address them."""
from harness import wire

A, B = "com.x.A:1.0", "com.x.B:1.0"
PRE = "rpc_trace_context."


class Boom(Exception):
    pass


class World(object):
    """What the services under a listener were asked to do."""

    def __init__(self, S):
        self.S = S
        self.created = []       # service objects in order
        self.calls = []         # (object, method, body)
        self.outcome = None     # function(object, method, body) -> result or raises
        self.refuse = None      # exception of the constructor

    def service(self, name, methods=("say", "shout")):
        world = self

        class Service(object):
            def __init__(self, ctx, *args, **kwargs):
                self.name, self.ctx, self.args, self.kwargs = name, ctx, args, kwargs
                world.created.append(self)
                if world.refuse is not None:
                    raise world.refuse

        def method(m):
            def run(self, body):
                world.calls.append((self, m, body))
                return world.outcome(self, m, body)
            return run
        for m in methods:
            setattr(Service, m, method(m))
        return Service


NAMED = ["both", "target only", "service only", "empty target"]


def named(how, interface, method="say"):
    """Header entries that name an interface and a method."""
    m = [("sofa_head_method_name", method)]
    if how == "both":
        return [("sofa_head_target_service", interface)] + m + [("sofa_head_target_app", ""), ("service", interface)]
    if how == "target only":
        return m + [("sofa_head_target_service", interface)]
    if how == "service only":
        return [("service", interface)] + m
    return [("sofa_head_target_service", "")] + m + [("service", interface)]


UNNAMED = ["no service", "empty service", "no method", "empty method", "nothing"]


def unnamed(how):
    if how == "no service":
        return [("sofa_head_method_name", "say"), ("sofa_head_target_app", A)]
    if how == "empty service":
        return [("sofa_head_target_service", ""), ("sofa_head_method_name", "say"), ("service", "")]
    if how == "no method":
        return [("sofa_head_target_service", A), ("service", A)]
    if how == "empty method":
        return [("sofa_head_target_service", A), ("sofa_head_method_name", ""), ("service", A)]
    return []


def frame(rid, pairs, content, ptype=wire.REQUEST, cmdcode=wire.CMD_REQUEST, timeout=0, codec=11, class_name=wire.REQ_CLASS, header=None):
    hb = wire.header_bytes(pairs) if header is None else header
    return wire.request(ptype, cmdcode, rid, codec, timeout, class_name, hb, content)
