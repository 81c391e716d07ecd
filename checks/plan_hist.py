from symx.specs import IND

from . import plan_values as pv
from .rows import minrows

CALS = ('gaps', 'intraday', 'tz', 'years', 'ticks')
HEAVY = ('ParabolicSAR', 'SwingIndex', 'RangeIndicator', 'KlingerOscillator', 'DirectionalMovementIndex', 'RelativeVolatilityIndex',
         'UltimateOscillator', 'ProjectionOscillator')


def obs_(mode):
    def f(tier):
        from .plan_signals import kws
        out = []
        k = 0
        for nm in IND:
            cols, dk, sk = IND[nm]

            def add(kw, n, c, cal, cal0, sim, rel='other', kw2=None, **more):
                opt = dict(conc=c, **more)
                if nm in ('AccumulationDistributionLine', 'ChaikinOscillator'):
                    opt['strict'] = True
                out.append(dict(id='%s(%s) n=%d %s%s%s %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, cal or 'days', '/' + cal0 if cal0 else '',
                                                              ' simulation' if sim else '', opt if rel == 'other' else '%s %s' % (rel, opt)), fn='checks.history:run', mode=mode, ind=nm, kwargs=kw, n=n,
                                opt=opt, cal=cal, cal0=cal0, sim=sim, budget=60, rel=rel, kw2=kw2))
            for kw in [sk] + [x for x in kws(nm)[:3] if x != sk][:(3 if tier == 'thorough' else 1)]:
                m = minrows(nm, kw)
                n = max(m, 3) + (2 if nm == 'DetrendedPriceOscillator' else 0)
                last = 1 if nm in HEAVY else 2
                for cal in CALS if mode == 'calendar' else CALS[k % 5:k % 5 + 1]:
                    add(kw, n + 1, n + 1 - last, cal, None, False)
                cal = CALS[k % 5]
                if n <= 6 and nm not in HEAVY:
                    add(kw, n, n - 1, cal, CALS[(k + 1) % 5], True)
                else:
                    add(kw, n + 2, n + 2, cal, CALS[(k + 1) % 5], True, style=k % 5)
                k += 1
            if mode == 'again':
                m = minrows(nm, sk)
                n = max(m, 3) + (2 if nm == 'DetrendedPriceOscillator' else 0) + 1
                for j, rel in enumerate(('middle', 'first', 'shorter') + (('params',) if len(kws(nm)) > 1 else ())):
                    kw2 = kws(nm)[1] if rel == 'params' else None
                    if kw2 and minrows(nm, kw2) > n:
                        n = minrows(nm, kw2)
                    simple = nm not in HEAVY and n <= 8
                    add(sk, n, n - 1 if simple else n, None, None, j == k % 3 and n <= 16, rel, kw2)
            n = min(130, minrows(nm, dk) + 60)
            add(dk, n, n, 'gaps', None, False, style=k % 5)
            if mode == 'again' and minrows(nm, dk) < 40:
                add(dk, minrows(nm, dk) + 16, minrows(nm, dk) + 16, 'gaps', None, True, style=k % 5)
            add(dk, n, n, ('intraday', 'ticks')[k % 2], None, False, style=(k + 2) % 5)
        return out
    return f


def type_obs(tier):
    out = []
    k = 0
    T = ('uint16', 'Int64', 'int64', 'Float64', 'uint64', 'float32', 'int32', 'UInt16')
    for nm in IND:
        cols, dk, sk = IND[nm]

        def add(kw, n, c, odd, sim, signal=True, types=None, **opt):
            types = types or ([T[(k + j) % 8] for j in range(8)][:3] if tier != 'thorough' and n > 30 else T)
            out.append(dict(id='%s(%s) n=%d %s%s %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, '+'.join(odd), ' simulation' if sim else '', opt),
                            fn='checks.numtype:run', ind=nm, kwargs=kw, n=n, opt=dict(conc=c, **opt), odd=list(odd), sim=sim, signal=signal, types=list(types),
                            budget=60))
        m = minrows(nm, sk)
        n = max(m, 3) + (2 if nm == 'DetrendedPriceOscillator' else 0)
        more = dict(strict=True) if nm in ('AccumulationDistributionLine', 'ChaikinOscillator') else {}
        add(sk, n + 1, n if nm in HEAVY else n - 1, cols, False, **more)
        for c in cols if len(cols) > 1 else ():
            add(sk, n, n - 1, (c,), False, **more)
        add(sk, n + 2, n + 2, cols, n < 16, style=k % 5)
        add(sk, n, n - 1, cols, False, gaps=True, types=('Int64', 'Float64', 'UInt16'))
        n = min(130, minrows(nm, dk) + 40)
        add(dk, n, n, cols, False, style=(k + 1) % 5)
        k += 1
    return out


BND = ('every indicator, two parameter sets (and the default one on a longer concrete history), minimum rows + 1; the last one or two rows any '
       'positive real')
PLANS = {
    'C25': dict(obs=obs_('calendar'), bounds=BND + '; daily, gapped, 17-minute, time-zone (with a clock change), 400-day and sub-second calendars'),
    'C26': dict(obs=obs_('again'), bounds=BND + '; other uses in between: the same indicator on other data, on the same days with one value changed, on one day less, with other parameters; each also compared with a private copy of the library'),
    'C27': dict(obs=type_obs, bounds=BND + '; 8 numeric types, for all columns at once and for each alone; whole numbers, also with missing ones'),
}
