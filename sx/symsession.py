"""Symbolic side of a harness: declares inputs, poses obligations, evaluates results under a model."""
import z3

from . import common
from . import engine as E
from .values import (Blob, ByteArr, MemView, IntAtom, Seg, Sym, SymBool, SymBytes, SymInt, SymReal, SymStr, is_sym, mk_bool,
                     mk_int, mk_real, zb, zi)


class SymSession(object):
    symbolic = True

    def __init__(self, engine, job):
        self.en = engine
        self.job = job
        self.reset()

    def reset(self):
        self.covers = []
        self.observations = []
        self.cleanups = []
        self.known = []

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        name = self.en.fresh_name(name)
        e = z3.Int(name)
        self.en.inputs.append((name, "int", e))
        self.en.bounds[name] = (lo if isinstance(lo, int) and not is_sym(lo) else None,
                                hi if isinstance(hi, int) and not is_sym(hi) else None)
        if lo is not None:
            self.en.add(e >= zi(lo))
        if hi is not None:
            self.en.add(e <= zi(hi))
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi) and lo > hi:
            raise ValueError("empty range")
        return SymInt(e)

    def real(self, name, lo=None, hi=None):
        name = self.en.fresh_name(name)
        e = z3.Real(name)
        self.en.inputs.append((name, "real", e))
        from .values import zr
        if lo is not None:
            self.en.add(e >= zr(lo))
        if hi is not None:
            self.en.add(e <= zr(hi))
        return SymReal(e)

    def bool(self, name):
        name = self.en.fresh_name(name)
        e = z3.Bool(name)
        self.en.inputs.append((name, "bool", e))
        return SymBool(e)

    def flag(self, name):
        """A boolean decided now."""
        return bool(self.bool(name))

    def choice(self, name, options):
        """One of the options (or of range(n)); case split now."""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if len(opts) == 1:
            return opts[0]
        v = self.int(name, 0, len(opts) - 1)
        for i in range(len(opts) - 1):
            if self.en.fork(v.e == i):
                return opts[i]
        return opts[-1]

    def bytes(self, name, n):
        cells = []
        for i in range(n):
            v = self.int("%s[%d]" % (name, i), 0, 255)
            cells.append(v.e)
        return SymBytes([cells]).simp()

    def text(self, name, n, ascii=False, surrogates=False):
        cells = []
        for i in range(n):
            v = self.int("%s[%d]" % (name, i), 0, 127 if ascii else 0x10ffff)
            if not ascii and not surrogates:
                self.en.add(z3.Or(v.e < 0xd800, v.e > 0xdfff))
            cells.append(v.e)
        return SymStr([cells]).simp()

    def blob(self, name, lo=0, hi=None):
        """bytes of arbitrary length lo..hi and arbitrary contents"""
        name = self.en.fresh_name(name)
        ln = z3.Int(name + ".len")
        self.en.add(ln >= lo)
        if hi is not None:
            self.en.add(ln <= hi)
        self.en.bounds[name + ".len"] = (lo, hi)
        b = Blob(name, "b", ln)
        self.en.inputs.append((name, "blob", b))
        return SymBytes([Seg(b, 0, ln)])

    def textblob(self, name, lo=0, hi=None):
        name = self.en.fresh_name(name)
        ln = z3.Int(name + ".len")
        self.en.add(ln >= lo)
        if hi is not None:
            self.en.add(ln <= hi)
        self.en.bounds[name + ".len"] = (lo, hi)
        b = Blob(name, "s", ln)
        self.en.inputs.append((name, "textblob", b))
        return SymStr([Seg(b, 0, ln)])

    # ---- obligations
    def assume(self, c):
        if is_sym(c):
            self.en.assume(zb(c))
        elif not c:
            self.en.raise_control(E.Infeasible())

    def stop(self):
        self.en.raise_control(E.StopPath())

    def reraise(self):
        """Raise what steers the exploration again if something swallowed it."""
        self.en.check_pending()

    def dead(self, f):
        """Run f with every step of instrumented code refused."""
        p, self.en.pending = self.en.pending, E.StopPath()
        try:
            f()
        except E.Control:
            pass
        finally:
            self.en.pending = p

    def check(self, c, label):
        en = self.en
        en.check_pending()
        self.job.obligations += 1
        self.job.labels[label] = self.job.labels.get(label, 0) + 1
        if not is_sym(c):
            if not c:
                self.job.candidate(self, label, None)
            return bool(c)
        e = z3.simplify(zb(c))
        if z3.is_true(e):
            return True
        if en.pos < len(en.decisions) or en.nadd < len(en.asserted):
            # prefix re-execution: already decided on an earlier path
            en.assume_or_skip(e)
            return True
        neg = z3.Not(e)
        r = en._check(neg)
        if r == z3.sat:
            self.job.candidate(self, label, neg)
        elif r == z3.unknown:
            self.job.unknown_checks += 1
        else:
            self.job.discharged += 1
        en.assume(e)
        return True

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covers.append(label)

    def observe(self, label, value):
        self.observations.append((label, value))

    def known_finding(self, key):
        """The harness recognised the history of a listed finding on this path."""
        self.known.append(key)

    def possible(self, c):
        """Whether the condition is satisfiable here (no case split)."""
        if not is_sym(c):
            return bool(c)
        return not self.en.must(z3.Not(zb(c)))

    def certain(self, c):
        if not is_sym(c):
            return bool(c)
        return self.en.must(zb(c))

    def advance(self, it, d):
        """Skip d elements of an iterator (analytically where the engine models it)."""
        f = getattr(it, "advance", None)
        if f is not None:
            f(d)
            return
        d = self.en.concretise(zi(d), "advance") if is_sym(d) else d
        for _ in range(d):
            self.en.tick()
            next(it)

    def defer(self, f):
        self.cleanups.append(f)


# ------------------------------------------------------------------------------------------------- evaluation

def model_inputs(en, model):
    """Concrete values of the declared inputs under a model."""
    out = {}

    def iv(e):
        if isinstance(e, int):
            return e
        return model.eval(e, model_completion=True).as_long()
    for name, kind, p in en.inputs:
        if kind == "int":
            out[name] = iv(p)
        elif kind == "bool":
            out[name] = z3.is_true(model.eval(p, model_completion=True))
        elif kind == "real":
            v = model.eval(p, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[name] = {"num": v.numerator_as_long(), "den": v.denominator_as_long()}
        else:
            n = iv(p.length)
            d = {"len": n, "reads": {}}
            for idx in p.reads:
                i = iv(idx)
                if 0 <= i < n:
                    d["reads"][str(i)] = iv(z3.Select(p.arr, idx))
            if kind == "textblob" and p.enc is not None:
                d["enclen"] = iv(p.enc.length)
            out[name] = d
    return out


def ev(v, model, en):
    """Native value of a symbolic value under a model."""
    t = type(v)

    def iv(e):
        if isinstance(e, int):
            return e
        return model.eval(e, model_completion=True).as_long()
    if t is SymInt:
        return iv(v.e)
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymReal:
        r = model.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return r.numerator_as_long() / r.denominator_as_long()
    if t in (ByteArr, MemView):
        return ev(v.plain(), model, en)
    if t is SymBytes or t is SymStr:
        text = t is SymStr
        parts = []
        for s in v.segs:
            if isinstance(s, list):
                c = [iv(x) for x in s]
                parts.append("".join(map(chr, c)) if text else bytes(c))
            elif isinstance(s, IntAtom):
                x = ("%x" if s.base == 16 else "%d") % iv(s.e)
                if s.width:
                    x = x.rjust(s.width, s.fill)
                parts.append(x if text else x.encode())
            else:
                b = s.blob
                n = iv(b.length)
                src = b.src
                if src is not None:
                    whole = common.blob_text(src.name, iv(src.length), n, _reads(src, iv, model)).encode("utf-8")
                elif b.kind == "s":
                    enc = iv(b.enc.length) if b.enc is not None else None
                    whole = common.blob_text(b.name, n, enc, _reads(b, iv, model))
                else:
                    whole = common.blob_bytes(b.name, n, _reads(b, iv, model))
                o, l = iv(s.off), iv(s.ln)
                parts.append(whole[o:o + l])
        return ("" if text else b"").join(parts)
    if isinstance(v, (list, tuple)):
        return [ev(x, model, en) for x in v]
    if isinstance(v, dict):
        return dict((ev(k, model, en), ev(x, model, en)) for k, x in v.items())
    return v


def _reads(b, iv, model):
    return dict((iv(i), iv(z3.Select(b.arr, i))) for i in b.reads)


def small_model(en, extra=None, tries=40):
    """A model of the path with short contents and small numbers where possible."""
    s = en.solver
    s.push()
    try:
        if extra is not None:
            s.add(extra)
        if s.check() != z3.sat:
            return None
        best = s.model()
        s.set("timeout", 2000)
        wants = []
        for name, kind, p in en.inputs:
            if kind in ("blob", "textblob") and not isinstance(p.length, int):
                wants.append((p.length, (0, 8, 300, 70000, 1 << 24)))
                if p.enc is not None:
                    wants.append((p.enc.length - p.length, (0,)))
            elif kind == "int" and "[" not in name:
                wants.append((p, (100,)))
        for e, lims in wants[:tries]:
            for lim in lims:
                cur = best.eval(e, model_completion=True).as_long()
                if cur <= lim and (cur >= 0 or lim == 100):
                    s.add(e <= lim)
                    break
                s.push()
                s.add(e <= lim)
                if s.check() == z3.sat:
                    best = s.model()
                    s.pop()
                    s.add(e <= lim)
                    break
                s.pop()
        return best
    finally:
        s.pop()
        s.set("timeout", en.solver_timeout)
