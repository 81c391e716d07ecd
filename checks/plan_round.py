from symx.specs import IND

from .rows import minrows

DECIMALS = {'MarketFacilitationIndex': 10, 'AccumulationDistributionLine': 0}
EXACT = ('OnBalanceVolume',)      # a plain sum of the volumes


def obs(tier):
    from .plan_hist import HEAVY
    from .plan_signals import kws
    out = []
    for k, nm in enumerate(x for x in IND if x not in EXACT):
        dk = IND[nm][1]

        def add(kw, n, c, **more):
            opt = dict(conc=c, **more)
            out.append(dict(id='%s(%s) n=%d %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, opt), fn='checks.rounding:run', ind=nm,
                            kwargs=kw, n=n, opt=opt, budget=60))
        last = 1 if nm in HEAVY else 2
        for kw in kws(nm) + ([dict(period=3, ma_type='variable')] if nm == 'MovingAverage' else []):
            m = minrows(nm, kw)
            if nm == 'DetrendedPriceOscillator':
                m += 1
            for n in (m, m + 2):
                add(kw, n, max(0, n - last))
        n = minrows(nm, dk) + 12
        add(dk, n, n, style=k % 5)
        add(dk, n + 30, n + 29, style=(k + 3) % 5)
    return out


PLANS = {'C28': dict(obs=obs, bounds='every indicator except on-balance volume; all small parameter sets with minimum rows and two more, default parameters on '
                                     'longer histories; the last one or two rows any positive real')}
