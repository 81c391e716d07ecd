"""Trading signals follow their rules (C17..C19) and are total, repeatable and read-only (C16).

The class is constructed on symbolic input (its own calculation runs), then its values are replaced by unconstrained
symbolic ones (any real or missing), so the rule is decided for every combination of values, not only reachable ones."""
import time

from symx import sigrefs

from .common import *
from .values import cols_of

ORDERED = {'BollingerBands': ('upper_band', 'middle_band', 'lower_band'), 'Envelopes': ('upper_band', 'lower_band'),
           'PriceChannel': ('highest_high', 'lowest_low'), 'ProjectionBands': ('upper_band', 'lower_band')}
CONSTCOLS = {'FibonacciRetracement'}
NONAN = {'Momentum': 'period', 'NegativeVolumeIndex': 0, 'PositiveVolumeIndex': 0}


def fresh(name, kw, t, rows, ctx):
    """unconstrained values for the last `rows` rows; the earlier ones from a concrete pattern"""
    n = len(t)
    r = rng('ti', name, n)
    cols = list(t.columns)
    out = {}
    for j, c in enumerate(cols):
        v = []
        for i in range(n):
            if name in NONAN:
                k = NONAN[name]
                k = kw[k] if isinstance(k, str) else k
                if i < k:
                    v.append(NAN)
                    continue
            if i < n - rows:
                v.append(lift(r.randint(-400, 800) / 8) if i > 2 or name in NONAN else NAN)
                continue
            if name in CONSTCOLS:
                v.append(core.var('t%d' % j))
                continue
            x = core.var('t%d_%d' % (j, i))
            v.append(x if name in NONAN else Sym(x.p, core.bvar('tn%d_%d' % (j, i))))
        out[c] = v
    for a, b in zip(ORDERED.get(name, ()), ORDERED.get(name, ())[1:]):
        if a in out and b in out:
            for i in range(n - rows, n):
                x, y = out[a][i], out[b][i]
                ctx.add_assume(bor(x.nan, y.nan, bnot(rel('<', psub(x.p, y.p)))))
    return out


def snapshot(df, cols):
    return [list(df[c]._values) for c in cols], list(df.index), list(df.columns)


def same(a, b):
    return all(len(x) == len(y) and all(u is v or (not isinstance(u, (Sym, SymBool)) and (u == v or u != u and v != v)) or
                                        (isinstance(u, Sym) and isinstance(v, Sym) and u.p == v.p and u.nan is v.nan)
                                        for u, v in zip(x, y)) for x, y in zip(a[0], b[0])) and a[1:] == b[1:]


def run(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    rows = opt.pop('rows', n)
    mode = ob.get('mode', 'rule')
    cal = opt.pop('cal', None)
    other = decoy_rows(name, n) if opt.pop('decoy', None) else None
    T = tti()
    cls = getattr(T.ind, name)
    sigs = T.consts.TRADE_SIGNALS
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    state = {}

    def fn():
        ctx.assume.clear()
        D = state['D'] = Data(cols_of(name), n, **opt)
        state['ti'] = None
        state['err'] = 'construct'
        if other:
            state['decoy'] = make_decoy(cls, other, kw, cal)
        ti = cls(D.frame(index=calendar(cal, n)), **kw)
        t0 = ti.getTiData()
        tv = None
        if mode != 'real':
            tv = fresh(name, kw, t0, rows, ctx)
            ti._ti_data = pd.DataFrame({c: pd.Series(v, index=t0.index, dtype=object) for c, v in tv.items()},
                                       index=t0.index)
        icols = [c for c in ti._input_data.columns if c in D.d]
        before = snapshot(ti._input_data, icols), snapshot(ti._ti_data, list(t0.columns))
        d0, i0 = ti._ti_data, ti._input_data
        res = []
        for k in range(2 if mode != 'rule' else 1):
            try:
                res.append(ti.getTiSignal())
            except core.SymError:
                raise
            except Exception as e:
                res.append(e)
                break
            if mode != 'rule':
                ti.getTiValue()
                ti.getTiValue('2020-01-01')
                ti.getTiValue('1999-01-01')
        cols = list(ti._input_data.columns)
        after = snapshot(ti._input_data, [c for c in icols if c in cols]), snapshot(ti._ti_data, list(ti._ti_data.columns))
        ok = same((before[0][0], before[0][1], 0), (after[0][0], after[0][1], 0)) and same(before[1], after[1])
        return D, tv, res, ok, ti

    wit = 0
    for D, tv, res, ok, ti in ctx.explore(fn):
        out.paths += 1
        spec = mkspec(name, kw, D, tv, mode, dict(cal=cal, decoy=other) if cal or other else {})
        claims = []
        r = res[0]
        if isinstance(r, Exception):
            claims.append(Claim('signal raises %s: %s' % (type(r).__name__, str(r)[:80]), FALSE, spec))
        else:
            kind = [k for k, v in sigs.items() if type(r) is tuple and r == v and type(r[1]) is int]
            if not kind or kind[0] not in ('buy', 'hold', 'sell') or r != dict(buy=('buy', -1), hold=('hold', 0), sell=('sell', 1))[kind[0]]:
                claims.append(Claim('signal is %r' % (r,), FALSE, spec))
            elif mode == 'rule':
                exp = sigrefs.expected(name, D.d, tv, kw)
                claims.append(Claim('signal %s' % kind[0], exp[kind[0]], spec))
            else:
                claims.append(Claim('signal available', TRUE, spec))
            if mode != 'rule':
                claims.append(Claim('asked again: %r then %r' % (res[0], res[-1]),
                                    TRUE if not isinstance(res[-1], Exception) and res[0] == res[-1] else FALSE, spec))
                claims.append(Claim('values and input unchanged by the query', TRUE if ok else FALSE, spec))
        decide(out, ctx, claims, extra=D.bounds() + tbounds(tv), qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        # the same path on the real code
        if wit < ob.get('witness', 4) and mode != 'real':
            v, m = ctx.query(ctx.assume + ctx.pc + D.bounds() + tbounds(tv), timeout=1000)
            if v == 'sat':
                vb = ctx.model_vals(m)
                s = spec(*vb)
                wit += 1
                if s is not None and stable(ctx.pc + [c.f for c in claims], *vb) and \
                        run_real(out, s, 'witness of path %d' % out.paths):
                    break
    return out.result()


def tbounds(tv):
    out = []
    for v in (tv or {}).values():
        for x in v:
            if not x.is_const():
                out += [_le2(F(-10 ** 6), x.p), _le2(x.p, F(10 ** 6))]
    return out


def _le2(a, b):
    a = pconst(a) if isinstance(a, F) else a
    b = pconst(b) if isinstance(b, F) else b
    return rel('<=', psub(a, b))


def mkspec(name, kw, D, tv, mode, extra):
    def spec(vals, bools):
        e = core.Env(vals, bools)
        rows = D.concrete(vals, bools)
        s = dict(kind='signal', indicator=name, kwargs=kw, data=rows, mode=mode, **extra)
        if tv is not None:
            s['ti'] = {c: [fl(e, x) for x in v] for c, v in tv.items()}
            if mode == 'rule':
                I = {c: [lift(x) for x in v] for c, v in rows.items()}
                exp = sigrefs.expected(name, I, {c: [lift(x) for x in v] for c, v in s['ti'].items()}, kw)
                hit = [k for k, b in exp.items() if b is TRUE]
                if len(hit) != 1:
                    return None
                s['expect'] = hit[0]
        return s
    return spec


def fallback(ob):
    """witness inputs for code that cannot be encoded"""
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    mode, cal = ob.get('mode', 'rule'), opt.pop('cal', None)
    opt.pop('rows', None)
    other = decoy_rows(name, n) if opt.pop('decoy', None) else None
    D = Data(cols_of(name), n, **opt)
    r = rng('fallback', name, n)
    for vals, bools in D.heuristics(k=12, seed=(name, n)):
        tv = None
        rows = D.concrete(vals, bools)
        if mode == 'rule':
            try:
                ref = refs.REF[name]({c: [lift(x) for x in v] for c, v in rows.items()}, **kw)
            except ValueError:
                continue            # the lines are undefined for this input
            near = [-101, -50, -39, -0.5, 0, 0.5, 14, 16, 21, 26, 27.5, 31, 39, 45, 55, 65, 71, 81, 86] + [x for c in rows if c != 'volume' for x in rows[c][-2:]]
            tv = {c: [core.NAN if x is core.NAN else lift(F(r.choice(near))) for x in v] for c, v in ref.items()}
        s = mkspec(name, kw, D, tv, mode, dict(cal=cal, decoy=other) if cal or other else {})(vals, bools)
        if s is not None:
            yield s
