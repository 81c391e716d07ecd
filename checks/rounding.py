"""Reported figures are rounded to the displayed decimals (C28).

Here rounding is not read as exact: every rounding is an atom of the expression, and a reported value must be one such atom
(or a whole number, or a constant with few enough decimals) on every path."""
import time
from contextlib import contextmanager

from .common import *
from .plan_round import DECIMALS
from .values import cols_of


@contextmanager
def roundings():
    k, core.ROUND_EXACT_FROM = core.ROUND_EXACT_FROM, 99
    try:
        yield
    finally:
        core.ROUND_EXACT_FROM = k


def whole(p):
    return core.p_is_int(p)


def shown(p, d):
    """p has at most d decimals, for every value of its variables"""
    if p.is_const():
        return (p.const() * F(10) ** d).denominator == 1
    if whole(p):
        return True
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    rest = []
    for i, e in m:
        a = core._atoms[i]
        if e < 0:
            return False
        if a.kind != 'I':
            rest.append((a, e))
    if len(rest) != 1 or rest[0][1] != 1 or abs(c) != 1:
        return False
    a = rest[0][0]
    if a.kind == 'round':
        return a.args[0] <= d
    if a.kind == 'ite':
        return shown(a.args[1], d) and shown(a.args[2], d)
    if a.kind in ('max', 'min'):
        return all(shown(q, d) for q in a.args)
    if a.kind in ('abs', 'neg'):
        return shown(a.args, d)
    return False


def run(ob):
    with roundings():
        return run_(ob)


def run_(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    d = DECIMALS.get(name, 4)
    cls = getattr(tti().ind, name)
    out, ctx = Outcome(), core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8

    def fn():
        D = Data(cols_of(name), n, **opt)
        try:
            return D, cls(D.frame(), **kw).getTiData(), None
        except core.SymError:
            raise
        except Exception as e:
            return D, None, e

    wit = 0
    for D, t, err in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools, D=D):
            return dict(kind='rounding', indicator=name, kwargs=kw, data=D.concrete(vals, bools), decimals=d)
        if err is not None:
            cl = [Claim('construction raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec)]
        else:
            cl = []
            for j, c in enumerate(t.columns):
                for i, v in enumerate(t.iloc[:, j]._values):
                    v = lift(v)
                    f = TRUE if v.is_nan_const() or shown(v.p, d) else bor(bnot(v.fin), rel('==', psub(core.pround(v.p, d), v.p)))
                    cl.append(Claim('%s[%d] has at most %d decimals' % (c, i, d), f, spec))
        decide(out, ctx, cl, heur=lambda c: D.heuristics(k=12, seed=name), extra=D.bounds(), qbudget=ob.get('budget', 60) / 3)
        if out.violations:
            break
        if wit < 3:
            wit += 1
            for vals, bools in D.heuristics(k=3, seed=(name, n)):
                if run_real(out, spec(vals, bools), 'sampled input'):
                    break
            if out.violations:
                break
    return out.result()


def fallback(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    D = Data(cols_of(name), n, **opt)
    for vals, bools in D.heuristics(k=8, seed=(name, n)):
        yield dict(kind='rounding', indicator=name, kwargs=kw, data=D.concrete(vals, bools), decimals=DECIMALS.get(name, 4))
