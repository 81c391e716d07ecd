"""The numeric type of the input columns does not matter (C27)."""
import time

from .common import *
from .history import closes, sim_claims, sim_of, snap
from .relation import eqv
from .values import cols_of

TYPES = ('uint16', 'int64', 'Int64', 'Float64', 'float32', 'uint64', 'int32', 'UInt16')


def whole(D):
    """the input with every number rounded to a whole one small enough for every type"""
    return {c: [round(x) if isinstance(x, (int, float)) and x == x else 'nan' for x in v] for c, v in D.items()}


def holes(D, k):
    """which of the cells that may be missing are"""
    return {'%s%d?' % (c, i): (k + i + j) % 2 == 0 for j, c in enumerate(D.cols) for i in range(D.conc, D.n)} if D.gaps else {}


def run(ob):
    name, kw, n, opt, odd, sim = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {})), ob['odd'], ob.get('sim')
    T = tti()
    cls = getattr(T.ind, name)
    out, ctx = Outcome(), core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    idx = dates(n)
    core.RAWTYPE = pd.api.types.pandas_dtype(ob['types'][0])

    def raw(x):
        x = lift(x)
        return core.Raw(x.p, x.nan, x.pi, x.ni)

    def fn():
        D = Data(cols_of(name), n, **opt)
        try:
            a = cls(D.frame(), **kw)
            b = cls(pd.DataFrame({c: pd.Series([raw(x) if c in odd else x for x in D.d[c]], index=idx, dtype=object) for c in D.cols}, index=idx), **kw)
            r = dict(D=D, ta=snap(a.getTiData()), tb=snap(b.getTiData()), err=None)
            if ob.get('signal'):
                r.update(sa=a.getTiSignal(), sb=b.getTiSignal())
            if sim:
                cl = pd.DataFrame({'close': pd.Series([raw(x) for x in closes(n)], index=idx, dtype=object)}, index=idx)
                t, s, _ = b.getTiSimulation(cl, 150.0)
                r.update(xa=sim_of(a, n, idx), xb=([list(t[c]._values) for c in t.columns], s))
            return r
        except core.SymError:
            raise
        except Exception as e:
            return dict(D=D, err=e)

    wit = 0
    for r in ctx.explore(fn):
        out.paths += 1
        D = r['D']

        def spec(vals, bools, ty='uint16'):
            return dict(kind='numtype', indicator=name, kwargs=kw, data=whole(D.concrete(vals, bools)), type=ty, odd=list(odd), signal=ob.get('signal'), sim=sim)
        if r['err'] is not None:
            cl = [Claim('raises %s: %s' % (type(r['err']).__name__, str(r['err'])[:100]), FALSE, spec)]
        else:
            cl = [Claim('columns and dates', TRUE if r['ta'][1:] == r['tb'][1:] else FALSE, spec)]
            if cl[0].f is TRUE:
                for c, u, v in zip(r['tb'][2], r['ta'][0], r['tb'][0]):
                    cl += [eqv('%s[%d]' % (c, i), p, q, spec) for i, (p, q) in enumerate(zip(u, v))]
            if 'sa' in r:
                cl.append(Claim('signals %r and %r' % (r['sa'], r['sb']), TRUE if r['sa'] == r['sb'] else FALSE, spec))
            if sim:
                cl += sim_claims('simulation', r['xa'], r['xb'], spec)
        decide(out, ctx, cl, heur=lambda c: D.heuristics(k=8, seed=name), extra=D.bounds(), qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if wit < 1:
            wit += 1
            for i, (vals, bools) in enumerate(D.heuristics(k=len(ob['types']), seed=(name, n))):
                bools = holes(D, i)
                if run_real(out, spec(vals, bools, ob['types'][i % len(ob['types'])]), 'type %s' % ob['types'][i % len(ob['types'])]):
                    break
            if out.violations:
                break
    return out.result()


def fallback(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    D = Data(cols_of(name), n, **opt)
    for i, (vals, bools) in enumerate(D.heuristics(k=2 * len(ob['types']), seed=(name, n))):
        bools = holes(D, i)
        yield dict(kind='numtype', indicator=name, kwargs=kw, data=whole(D.concrete(vals, bools)), type=ob['types'][i % len(ob['types'])], odd=list(ob['odd']),
                   signal=ob.get('signal'), sim=ob.get('sim'))
