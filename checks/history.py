"""The same data on another calendar (C25), and the same data after other uses of the library (C26)."""
import time

from .common import *
from .relation import eqv, series, tables
from .signals import same
from .values import cols_of

CAP = 150.0


def closes(n):
    return [60.0 + (3 * i) % 7 - (i % 4) for i in range(n)]


def close_frame(n, idx):
    return pd.DataFrame({'close': closes(n)}, index=idx)


def snap(df):
    return [list(df[c]._values) for c in df.columns], list(df.index), list(df.columns)


def sim_of(ti, n, idx):
    t, s, _ = ti.getTiSimulation(close_frame(n, idx), CAP)
    return [list(t[c]._values) for c in t.columns], s


def sim_claims(lab, x, y, spec):
    (a, sa), (b, sb) = x, y
    cl = [Claim('%s: shape' % lab, TRUE if len(a) == len(b) and all(len(u) == len(v) for u, v in zip(a, b)) and list(sa) == list(sb) else FALSE, spec)]
    if cl[0].f is not TRUE:
        return cl
    for j, (u, v) in enumerate(zip(a, b)):
        for i, (p, q) in enumerate(zip(u, v)):
            if j < 2:
                cl.append(Claim('%s[%d]: %r and %r' % (lab, i, p, q), TRUE if p == q or (p != p and q != q) else FALSE, spec))
            else:
                cl.append(eqv('%s[%d,%d]' % (lab, i, j), p, q, spec))
    return cl + [eqv('%s %s' % (lab, k), sa[k], sb[k], spec) for k in sa]


def run(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    T = tti()
    cls = getattr(T.ind, name)
    out, ctx = Outcome(), core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    mode, cal, cal0, sim = ob['mode'], ob.get('cal'), ob.get('cal0'), ob.get('sim')
    other = decoy_rows(name, n)
    rel_, kw2 = ob.get('rel', 'other'), ob.get('kw2')
    alone = getattr(fresh_ind(), name) if mode == 'again' else None

    def fn():
        D = Data(cols_of(name), n, **opt)
        ia, ib = calendar(cal0, n), calendar(cal, n)
        try:
            a = cls(D.frame(index=ia), **kw)
            sa = a.getTiSignal()
            ta = snap(a.getTiData())
            xa = sim_of(a, n, ia) if sim else None
            if mode == 'again':
                # another indicator of the same kind, used in every way; and one more simulation of the first
                rows, kd = related(rel_, D.d, kw, kw2, other)
                nd = len(next(iter(rows.values())))
                ic = ib if rel_ == 'other' else ia[:nd]
                mk = lambda k: k(pd.DataFrame({c: pd.Series([lift(x) for x in v], index=ic, dtype=object) for c, v in rows.items()}, index=ic), **kd)
                d = mk(cls)
                sd, td = d.getTiSignal(), snap(d.getTiData())
                xd = sim_of(d, nd, ic) if sim else None
                d.getTiValue(str(ib[-1]))
                d.getTiGraph()
                a.getTiGraph()
                a.getTiValue(str(ia[0]))
                xa2, sa2, ta2 = sim_of(a, n, ia) if sim else None, a.getTiSignal(), snap(a.getTiData())
                d0 = mk(alone)
                two = dict(sd=sd, td=td, xd=xd, se=d0.getTiSignal(), te=snap(d0.getTiData()), xe=sim_of(d0, nd, ic) if sim else None)
                ib = ia
            b = cls(D.frame(index=ib), **kw)
            r = dict(D=D, ta=ta, tb=b.getTiData(), sa=sa, sb=b.getTiSignal(), xa=xa, xb=sim_of(b, n, ib) if sim else None, ib=ib, ia=ia, err=None)
            if mode == 'again':
                r.update(xa2=xa2, sa2=sa2, ta2=ta2, **two)
            return r
        except core.SymError:
            raise
        except Exception as e:
            return dict(D=D, err=e)

    wit = 0
    for r in ctx.explore(fn):
        out.paths += 1
        D = r['D']

        def spec(vals, bools):
            return dict(kind='twin', mode=mode, indicator=name, kwargs=kw, data=D.concrete(vals, bools), cal=cal, cal0=cal0, sim=sim, decoy=other, rel=rel_, kw2=kw2)
        if r['err'] is not None:
            cl = [Claim('raises %s: %s' % (type(r['err']).__name__, str(r['err'])[:100]), FALSE, spec)]
        else:
            tb = snap(r['tb'])
            cl = [Claim('columns %s and %s' % (r['ta'][2], tb[2]), TRUE if r['ta'][2] == tb[2] else FALSE, spec)]
            pa, pb = {d: i for i, d in enumerate(r['ia'])}, {d: i for i, d in enumerate(r['ib'])}
            cl.append(Claim('dates', TRUE if [pa.get(d) for d in r['ta'][1]] == [pb.get(d) for d in tb[1]] else FALSE, spec))
            if all(c.f is TRUE for c in cl):
                for c, u, v in zip(tb[2], r['ta'][0], tb[0]):
                    cl += [eqv('%s[%d]' % (c, i), p, q, spec) for i, (p, q) in enumerate(zip(u, v))]
            cl.append(Claim('signals %r and %r' % (r['sa'], r['sb']), TRUE if r['sa'] == r['sb'] else FALSE, spec))
            if sim:
                cl += sim_claims('simulation', r['xa'], r['xb'], spec)
            if mode == 'again':
                cl.append(Claim('signal, asked again', TRUE if r['sa'] == r['sa2'] else FALSE, spec))
                cl.append(Claim('values, asked again', TRUE if same(r['ta'], r['ta2']) else FALSE, spec))
                if sim:
                    cl += sim_claims('second simulation', r['xa'], r['xa2'], spec)
                    cl += sim_claims('simulation of the other one', r['xe'], r['xd'], spec)
                cl.append(Claim('signal of the other one', TRUE if r['sd'] == r['se'] else FALSE, spec))
                cl.append(Claim('columns and dates of the other one', TRUE if r['td'][1:] == r['te'][1:] else FALSE, spec))
                for c, u, v in zip(r['te'][2], r['te'][0], r['td'][0]):
                    cl += [eqv('other %s[%d]' % (c, i), p, q, spec) for i, (p, q) in enumerate(zip(u, v))]
        decide(out, ctx, cl, heur=lambda c: D.heuristics(k=8, seed=name), extra=D.bounds(), qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if wit < 2:
            wit += 1
            v, m = ctx.query(ctx.assume + ctx.pc + D.bounds(), timeout=800)
            if v == 'sat':
                vb = ctx.model_vals(m)
                if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                    break
    return out.result()


def fallback(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    D = Data(cols_of(name), n, **opt)
    for vals, bools in D.heuristics(k=4, seed=(name, n)):
        yield dict(kind='twin', mode=ob['mode'], indicator=name, kwargs=kw, data=D.concrete(vals, bools), cal=ob.get('cal'), cal0=ob.get('cal0'),
                   sim=ob.get('sim'), decoy=decoy_rows(name, n), rel=ob.get('rel', 'other'), kw2=ob.get('kw2'))
