"""Translation validation of the symbolic pandas/numpy: every indicator is run on concrete data twice, once by
the real libraries and once by the symbolic ones with constant cells, and the results are compared.
usage: validate.py [n] [seed] [names...]"""
import os, pickle, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np, pandas as pd
from symx import specs
REPO = os.environ.get('SYMX_REPO', '/repo')


def data(n, seed):
    r = np.random.RandomState(seed)
    c = 50 + np.cumsum(np.round(r.randn(n), 2))
    o = c + np.round(r.randn(n), 2)
    h = np.maximum(c, o) + np.round(np.abs(r.randn(n)), 2)
    l = np.minimum(c, o) - np.round(np.abs(r.randn(n)), 2)
    v = np.round(np.abs(1000 + 300 * r.randn(n)))
    d = pd.DataFrame(dict(open=o, high=h, low=l, close=c, volume=v), index=pd.date_range('2020-01-01', periods=n)).round(2)
    if n > 6:
        d.iloc[4] = d.iloc[3]
    return d


def jobs(n, seed, names):
    for nm, (cols, dk, sk) in specs.IND.items():
        if names and nm not in names:
            continue
        kws = [dk] + ([sk] if sk != dk else [])
        if nm == 'MovingAverage':
            kws += [dict(period=4, ma_type=t) for t in ('exponential', 'time_series', 'triangular', 'variable')]
        if nm == 'StochasticOscillator':
            kws += [dict(sk, d_method='exponential')]
        if nm == 'Performance':
            kws += [dict(mode='SHORT', target=-0.02)]
        for k in kws:
            yield nm, cols, k


def run(mod, nm, df, kw):
    try:
        t = getattr(mod, nm)(df, **kw)
        return ('ok', t.getTiData(), t.getTiSignal())
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


def main():
    if sys.argv[1] == '--real':
        sys.path.insert(0, REPO)
        import tti.indicators as m
        n, seed, names = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
        d = data(n, seed)
        out = []
        for nm, cols, k in jobs(n, seed, names):
            r = run(m, nm, d[list(cols)].copy(), k)
            if r[0] == 'ok':
                r = ('ok', list(r[1].columns), r[1].to_numpy().astype(float), r[2])
            out.append(r)
        pickle.dump(out, open(sys.argv[2], 'wb'))
        return
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    names = sys.argv[3:]
    tmp = '/tmp/validate.%d.pkl' % os.getpid()
    subprocess.run([sys.executable, __file__, '--real', tmp, str(n), str(seed)] + names, check=True)
    real = pickle.load(open(tmp, 'rb'))
    os.unlink(tmp)
    from symx import core, loader
    T = loader.SymTTI()
    m = T.load('tti.indicators')
    d = data(n, seed)
    bad = 0
    import time, traceback
    for (nm, cols, k), exp in zip(jobs(n, seed, names), real):
        def fn():
            df = pd.DataFrame({c: pd.Series([core.lift(float(x)) for x in d[c]], index=d.index, dtype=object) for c in cols})
            try:
                t = getattr(m, nm)(df, **k)
                td = t.getTiData()
                return ('ok', list(td.columns), td.to_numpy(), t.getTiSignal())
            except Exception as e:
                if len(names) == 1:
                    traceback.print_exc()
                return ('exc', type(e).__name__, str(e)[:200])
        t0 = time.time()
        try:
            core.reset()
            rs = list(core.Ctx().explore(fn))
        except BaseException as e:
            if len(names) == 1:
                raise
            rs = [('exc', type(e).__name__, str(e)[:300])]
        dt = time.time() - t0
        got = rs[0]
        msg = ''
        if len(rs) != 1:
            msg = 'paths %d' % len(rs)
        elif got[0] != exp[0]:
            msg = 'real %s sym %s' % (exp if exp[0] == 'exc' else 'ok', got if got[0] == 'exc' else 'ok')
        elif got[0] == 'exc':
            if got[:2] != exp[:2]:
                msg = '%s vs %s' % (exp, got)
        else:
            if got[1] != exp[1]:
                msg = 'cols %s %s' % (exp[1], got[1])
            else:
                g = np.array([[(np.nan if x is None else float(x) if not isinstance(x, core.Sym) or x.is_const() else 1e99) for x in r] for r in got[2]])
                if g.shape != exp[2].shape:
                    msg = 'shape %s %s' % (exp[2].shape, g.shape)
                elif not np.allclose(g, exp[2], rtol=1e-3, atol=2e-2, equal_nan=True):
                    w = ~np.isclose(g, exp[2], rtol=1e-3,atol=2e-2, equal_nan=True)
                    i = np.argwhere(w)[0]
                    msg = 'value at %s: real %s sym %s (%d diff)' % (i, exp[2][tuple(i)], g[tuple(i)], w.sum())
            if not msg and got[3] != exp[3]:
                msg = 'signal real %s sym %s' % (exp[3], got[3])
        print('%-34s %-60s %5.1fs %s' % (nm, k, dt, 'OK ' + (exp[0] if exp[0] == 'ok' else str(exp)) if not msg else 'DIFF ' + msg), flush=True)
        bad += bool(msg)
    print('bad', bad)


if __name__ == '__main__':
    main()
