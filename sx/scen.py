"""Registry of scenarios. A scenario is a function of a session; harness modules register them with @scenario."""

REG = {}


class Scenario(object):
    def __init__(self, prop, name, fn, variants, covers, steps, decisions, quick_s, thorough_s, tiers, doc, hang, known):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.variants = variants
        self.covers = covers
        self.steps = steps
        self.decisions = decisions
        self.quick_s = quick_s
        self.thorough_s = thorough_s
        self.tiers = tiers
        self.doc = doc
        self.hang = hang
        self.known = known


def scenario(prop, variants=None, thorough=None, covers=(), steps=60000, decisions=2000, quick_s=45, thorough_s=600,
             tiers=("quick", "thorough"), hang=False, name=None, known=()):
    """variants / thorough: lists of keyword dicts (thorough defaults to variants). covers: labels every run of the tier has
    to reach on some path. hang: reaching the step bound is a violation of the property (checked by concrete replay)."""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        for p in props:
            n = name or fn.__name__
            v = variants if variants is not None else [{}]
            REG.setdefault(p, []).append(Scenario(p, n, fn, {"quick": v, "thorough": thorough if thorough is not None else v},
                                                  covers, steps, decisions, quick_s, thorough_s, tiers, (fn.__doc__ or "").strip(),
                                                  hang, known))
        return fn
    return deco


# which harness module holds the scenarios of a property
MODULES = {}
