"""Indicator values equal their reference definitions (C11..C14)."""
from . import layout
from .common import *


def cols_of(name):
    return specs.IND[name][0]


def spec_values(name, kw, rows, extra=None):
    try:
        exp = ref_values(name, rows, kw)
    except (core.SymError, ZeroDivisionError, ValueError):
        return None
    s = dict(kind='values', indicator=name, kwargs=kw, data=rows, expect=exp, tol=tol(name))
    s.update(extra or {})
    return s


def do_split(D, split):
    """case distinction up front: ups and downs of the named columns"""
    for c in split.split('+'):
        x = D.d[c]
        for i in range(1, D.n):
            if not (x[i] - x[i - 1]).is_const():
                if not bool(x[i] > x[i - 1]):
                    bool(x[i] < x[i - 1])


def consistent(D, e, r, t, name):
    """the symbolic result of the code, evaluated at a point, equals the reference there"""
    for j, c in enumerate(r):
        col = t.iloc[:, j]._values
        for i in range(len(t)):
            a, b = lift(col[i]), lift(r[c][i])
            if b.is_nan_const() or e.b(bnot(b.fin)):
                continue
            if e.b(bnot(a.fin)) or abs(e.p(a.p) - e.p(b.p)) > tol(name):
                return '%s[%d]' % (c, i)
    return None


def free_kw(kw, free, ctx):
    """constructor parameters as real variables: free = {name: kind}"""
    out = dict(kw)
    for k, kind in (free or {}).items():
        x = out[k] = core.var('p_' + k, '-' if kind == 'neg' else '+')
        if kind == 'frac':
            ctx.add_assume(x < 1)
    return out


def conc_kw(kw, vals, bools):
    e = core.Env(vals, bools)
    return {k: (float(e.p(v.p)) if isinstance(v, Sym) else v) for k, v in kw.items()}


FREE = {'pos': (F(1, 2), F(7, 4), F(2), F(5, 2), F(3)), 'frac': (F(1, 8), F(3, 4), F(5, 16)), 'neg': (F(-1, 4), F(-1, 8), F(-3, 4))}


def heur(D, free, seed, k=18):
    for i, (vals, bools) in enumerate(D.heuristics(k=k, seed=seed)):
        for p, kind in (free or {}).items():
            vals['p_' + p] = FREE[kind][i % len(FREE[kind])]
        yield vals, bools


def run(ob):
    name, kw0, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    split = opt.pop('split', None)
    free = opt.pop('symkw', None)
    cal = opt.pop('cal', None)
    how = opt.pop('how', None)
    other = decoy_rows(name, n) if opt.pop('decoy', None) else None
    T = tti()
    cls = getattr(T.ind, name)
    out = Outcome()
    ctx = core.Ctx()
    import time
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    state = {}

    def fn():
        D = state['D'] = Data(cols_of(name), n, **opt)
        if split:
            do_split(D, split)
        kw = free_kw(kw0, free, ctx)
        r = refs.REF[name](D.d, **kw)
        try:
            if other:
                state['decoy'] = make_decoy(cls, other, kw0, cal)
            ti = layout.construct(cls, D.frame(index=calendar(cal, n)), kw, how)
            t = ti.getTiData()
            return D, r, t, None, kw
        except Exception as e:
            return D, r, None, e, kw

    wit = 0
    for D, r, t, err, kw in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools, D=D, kw=kw):
            return spec_values(name, conc_kw(kw, vals, bools), D.concrete(vals, bools),
                               dict(cal=cal, decoy=other, decoy_kw=kw0, how=how) if cal or other or how else None)
        claims = []
        if err is not None:
            claims.append(Claim('construction raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec))
        elif list(t.columns) != list(r) or len(t) != len(next(iter(r.values()))):
            claims.append(Claim('columns %s rows %d' % (list(t.columns), len(t)), FALSE, spec))
        else:
            rr = r
            if name in refs.STAGED:
                rr = refs.REF[name](D.d, got={c: [lift(v) for v in t.iloc[:, j]._values] for j, c in enumerate(r)}, **kw)
            for j, c in enumerate(r):
                col = t.iloc[:, j]._values
                for i in range(len(t)):
                    claims.append(close_claim('%s[%d]' % (c, i), col[i], rr[c][i], tol(name), spec))
        decide(out, ctx, claims, heur=lambda c, D=D: heur(D, free, name), extra=D.bounds(), qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        # validate the encoding: path witnesses on the real code
        k = 0
        if wit < ob.get('witness', 8):
            base = ctx.assume + ctx.pc
            for vals, bools in heur(D, free, (name, n), 12):
                e = core.Env(vals, bools)
                if all(e.b(b) for b in base):
                    s = spec(vals, bools)
                    if s is not None:
                        wit += 1
                        k += 1
                        w = None if err is not None else consistent(D, e, r, t, name)
                        if w:
                            out.undecided.append('encoding and reference differ at a sampled point: ' + w)
                        
                        if run_real(out, s, 'witness of path %d' % out.paths):
                            break
                if k >= (8 if out.paths == 1 else 2) or wit >= ob.get('witness', 8):
                    break
        if out.violations:
            break
    return out.result()


def fallback(ob):
    """witness inputs for code that cannot be encoded"""
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    free, cal = opt.pop('symkw', None), opt.pop('cal', None)
    how = opt.pop('how', None)
    opt.pop('split', None)
    other = decoy_rows(name, n) if opt.pop('decoy', None) else None
    D = Data(cols_of(name), n, **opt)
    for i, (vals, bools) in enumerate(D.heuristics(k=8, seed=(name, n))):
        k2 = dict(kw, **{p: float(FREE[kind][i % len(FREE[kind])]) for p, kind in (free or {}).items()})
        s = spec_values(name, k2, D.concrete(vals, bools), dict(cal=cal, decoy=other, decoy_kw=kw, how=how) if cal or other or how else None)
        if s is not None:
            yield s
