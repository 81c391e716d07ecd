from symx.specs import IND

from .params import GREATER, PARAMS
from .rows import minrows

P17 = ['MovingAverage', 'DoubleExponentialMovingAverage', 'TripleExponentialMovingAverage', 'WildersSmoothing', 'MedianPrice',
       'TypicalPrice', 'WeightedClose', 'BollingerBands', 'Envelopes', 'PriceChannel', 'ProjectionBands',
       'FibonacciRetracement', 'IchimokuCloud', 'ParabolicSAR', 'LinearRegressionIndicator', 'TimeSeriesForecast',
       'AverageTrueRange', 'StandardDeviation', 'NegativeVolumeIndex', 'PositiveVolumeIndex']
P18 = ['RelativeStrengthIndex', 'RelativeMomentumIndex', 'IntradayMomentumIndex', 'ChandeMomentumOscillator',
       'CommodityChannelIndex', 'StochasticOscillator', 'StochasticMomentumIndex', 'WilliamsR', 'UltimateOscillator',
       'ProjectionOscillator', 'RangeIndicator', 'RelativeVolatilityIndex', 'VerticalHorizontalFilter', 'MassIndex',
       'SwingIndex', 'DetrendedPriceOscillator', 'MovingAverageConvergenceDivergence', 'Momentum', 'PriceRateOfChange',
       'PriceOscillator', 'Qstick', 'ForecastOscillator', 'LinearRegressionSlope', 'DirectionalMovementIndex',
       'VolatilityChaikins', 'Performance']
P19 = ['AccumulationDistributionLine', 'ChaikinMoneyFlow', 'ChaikinOscillator', 'OnBalanceVolume', 'PriceAndVolumeTrend',
       'EaseOfMovement', 'MarketFacilitationIndex', 'KlingerOscillator', 'VolumeOscillator', 'VolumeRateOfChange',
       'WilliamsAccumulationDistribution']


def ob(name, kw, n, mode='rule', budget=60, **opt):
    return dict(id='%s(%s) n=%d %s%s' % (name, ','.join('%s=%s' % x for x in kw.items()), n, mode,
                                         ' ' + ','.join('%s=%s' % x for x in opt.items()) if opt else ''),
                fn='checks.signals:run', ind=name, kwargs=kw, n=n, opt=opt, mode=mode, budget=budget)


def kws(name):
    cols, dk, sk = IND[name]
    if name == 'MovingAverage':
        return [dict(period=3, ma_type=t) for t in ('simple', 'exponential', 'time_series', 'triangular')]
    if name == 'Performance':
        return [dict(mode='LONG', target=0.05), dict(mode='SHORT', target=-0.1), dict(mode='LONG', target=0.0),
                dict(mode='SHORT', target=0)]
    if name == 'MedianPrice':
        return [dict(period=1), dict(period=3)]
    if name in ('TypicalPrice', 'StandardDeviation'):
        return [dict(period=1), dict(period=3)]
    if name == 'DetrendedPriceOscillator':
        return [dict(period=2), dict(period=4)]
    ints = [(p, lo) for p, r, lo in PARAMS.get(name, ()) if r == 'int']
    low = dict(sk, **dict(ints))
    if name in GREATER:
        a, b = GREATER[name]
        low[a] = low[b] + 1
    return [sk] + ([low] if low != sk else [])


def plan(name, tier, mode='rule'):
    out = []
    th = tier == 'thorough'
    small = 3 if mode == 'rule' else 2
    for kw in kws(name):
        m = minrows(name, kw)
        add = lambda n, **o: out.append(ob(name, kw, n, mode, **o))
        if name in ('NegativeVolumeIndex', 'PositiveVolumeIndex'):
            for n in (m, 254, 255, 256, 257) + ((300,) if th else ()):
                add(n, rows=min(n, 4), conc=max(0, n - 3))
        elif name == 'ChaikinOscillator':
            for n in (m, 89, 90, 91):
                add(n, rows=4, conc=max(0, n - 4))
        elif name == 'UltimateOscillator':
            for n in (28, 29, 30, 31):
                add(n, rows=3 if mode == 'rule' else 2, conc=n - 2)
        elif name == 'WilliamsAccumulationDistribution':
            for n in (1, 2, 29, 30, 31):
                add(n, rows=min(n, 3), conc=max(0, n - 3))
        elif name == 'AverageTrueRange':
            for n in (14, 15):
                add(n, rows=2, conc=4)
        elif name == 'DirectionalMovementIndex':
            for n in (28, 29):
                add(n, rows=4, conc=n - 2)
        elif name == 'KlingerOscillator':
            for n in (55, 56):
                add(n, rows=4, conc=n - 1)
        elif name == 'MassIndex':
            for n in (25, 26):
                add(n, rows=8, conc=n - 4)
        elif name == 'VerticalHorizontalFilter':
            for n in (3, 4, 5, 11, 12, 13, 22, 26):
                add(n, rows=4, conc=max(0, n - 5))
        elif name == 'MovingAverageConvergenceDivergence':
            for n in (26, 36):
                add(n, rows=3, conc=n - 3)
        elif name == 'IchimokuCloud':
            for n in (1, 2, 3):
                add(n)
        elif name == 'ParabolicSAR':
            for n in (2, 3, 5):
                add(n, rows=3, conc=max(n - 2, 0))
        elif name == 'RelativeVolatilityIndex':
            for n in (m, m + 1):
                add(n, rows=3, conc=n - 2)
        elif name == 'Momentum':
            for n in (m, 8, 9, 12, 13):
                add(n)
        elif name in ('WilliamsR', 'RangeIndicator'):
            for n in (m, m + 1, 4, 6) + ((8, 10) if th else ()):
                add(n, conc=max(0, n - 3))
        elif name == 'DetrendedPriceOscillator':
            for n in (m + 2, m + 3, m + 4):
                add(n)
        else:
            need = {'ProjectionOscillator': 4, 'Qstick': 4}.get(name, 3)
            for n in sorted({m, max(m, need - 1), max(m, need), max(m, need) + 2}):
                add(n, conc=max(0, n - 4), rows=min(n, 5))
    if mode == 'rule':
        # default parameters, long series, other calendars, another instance before
        dk = IND[name][1]
        long_ = {'NegativeVolumeIndex': 280, 'PositiveVolumeIndex': 280, 'TypicalPrice': 205}.get(name, 120)
        few = name in ('ParabolicSAR', 'KlingerOscillator', 'DirectionalMovementIndex', 'RelativeVolatilityIndex', 'RangeIndicator', 'ChaikinOscillator',
                       'UltimateOscillator', 'ProjectionOscillator', 'IchimokuCloud')
        for kw in kws(name) + [dk]:
            m = minrows(name, kw)
            for n, cal in ((long_, 'gaps'),) + (((m + 4, 'intraday'),) if kw in (dk, kws(name)[0]) else ()) + (((400, 'years'),) if th else ()):
                if name == 'VerticalHorizontalFilter' and n > 50:
                    n = 40
                out.append(ob(name, kw, n, mode, 240 if th or name == 'IchimokuCloud' else 60, conc=max(0, n - (1 if name == 'IchimokuCloud' else 2 if few else 3)), rows=2 if name in (
                    'UltimateOscillator', 'IchimokuCloud') else 4 if name != 'MassIndex' else 6, cal=cal,
                              decoy=cal != 'intraday'))
    return out


def mk(names, mode='rule'):
    return lambda tier: [o for nm in names for o in plan(nm, tier, mode)]


BND = ('rows n as listed per obligation (around each rule\'s minimum); indicator values of the last rows: any real or missing; '
       'prices of the last rows: any positive real; earlier rows (conc) fixed; parameters as listed')
ASSUME = ['upper >= lower for bands and levels constant over time for Fibonacci (shown by C11 and C15)']
PLANS = {p: dict(obs=mk(names), bounds=BND, assume=ASSUME) for p, names in (('C17', P17), ('C18', P18), ('C19', P19))}


def real_obs(tier):
    from . import plan_values
    out = []
    for nm in P17 + P18 + P19:
        for kw in kws(nm)[:2]:
            m = minrows(nm, kw)
            extra = (0, 1) if nm != 'RangeIndicator' else (0,)
            for e in extra:
                n = m + e
                c = max(0, n - (3 if nm not in ('ParabolicSAR', 'SwingIndex', 'RangeIndicator') else 2))
                out.append(ob(nm, kw, n, 'real', conc=c))
    return out


PLANS['C16'] = dict(obs=lambda tier: mk(P17 + P18 + P19, 'total')(tier) + real_obs(tier), bounds=BND, assume=ASSUME)
