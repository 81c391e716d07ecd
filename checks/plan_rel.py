from symx.specs import IND

from . import plan_values as pv
from .rows import minrows

NOCAUSAL = ('FibonacciRetracement', 'DetrendedPriceOscillator')


def prefix_obs(tier):
    out = []
    for nm in IND:
        if nm in NOCAUSAL:
            continue
        per = 0
        for o in pv.plan(nm, tier):
            m = minrows(nm, o['kwargs'])
            if o['n'] <= m or o['opt'].get('split'):
                continue
            opt = dict(o['opt'])
            opt.pop('decoy', None), opt.pop('how', None)
            if 'symkw' in opt:
                continue
            cuts = {m, o['n'] - 1, (m + o['n']) // 2}
            if o['n'] > 24:
                cuts = {o['n'] - 1, o['n'] - 2}
            cuts = {c for c in cuts if m <= c < o['n']}
            if o['n'] > 100:
                cuts = {o['n'] - 1, 100}
            for c in sorted(cuts):
                out.append(dict(id='%s cut after %d' % (o['id'], c), fn='checks.relation:run', what='prefix', ind=nm, kwargs=o['kwargs'],
                                n=o['n'], m=c, opt=opt, budget=o['budget']))
    return out


def layouts(nm, n, tier):
    """row orders, column orders, names and extra columns; every one differs from the plain layout"""
    cols = list(IND[nm][0])
    rev = cols[::-1]
    rot = cols[1:] + cols[:1]
    C = lambda cs, f=lambda c: c: [[f(c), c] for c in cs]
    order = {'rev': list(range(n))[::-1], 'rot': list(range(1, n)) + [0], 'odd': list(range(0, n, 2)) + list(range(1, n, 2)),
             'swap': [1, 0] + list(range(2, n)) if n > 1 else [0], 'last': [n - 1] + list(range(n - 1))}
    other = [c for c in ('open', 'high', 'low', 'close', 'volume') if c not in cols]
    up = lambda c: c.upper()
    mix = lambda c: c[0].upper() + c[1:-1] + c[-1].upper()
    out = [('rows reversed', dict(order=order['rev'], cols=C(cols))),
           ('rows rotated', dict(order=order['rot'], cols=C(cols))),
           ('odd rows last, columns reversed', dict(order=order['odd'], cols=C(rev))),
           ('first rows swapped, mixed case', dict(order=order['swap'], cols=C(rot, mix))),
           ('last row first', dict(order=order['last'], cols=C(cols, up))),
           ('columns rotated', dict(order=None, cols=C(rot))),
           ('columns reversed', dict(order=None, cols=C(rev))),
           ('upper case', dict(order=None, cols=C(cols, up))),
           ('first column in mixed case', dict(order=None, cols=C(cols[:1], mix) + C(cols[1:]))),
           ('other price columns first', dict(order=None, cols=[[c, 'num'] for c in other] + C(cols))),
           ('other price columns between, upper case', dict(order=order['rev'],
                                                            cols=C(cols[:1], up) + [[c.upper(), 'zero'] for c in other] + C(cols[1:], up))),
           ('odd names first', dict(order=None, cols=[['adj close', 'num'], [7, 'int'], ['close_', 'gaps']] + C(cols))),
           ('text, flags and dates between', dict(order=order['rot'], cols=C(rev[:1]) + [['Symbol', 'text'], ['ok', 'bool'], ['Day', 'date'],
                                                                                         [['t', 'a', 1], 'none']] + C(rev[1:]))),
           ('same extra name twice', dict(order=None, cols=C(cols) + [['X', 'text'], ['x', 'num'], ['signal', 'int'], [0, 'gaps']]))]
    return out


def layout_obs(tier):
    from .plan_inputs import order_obs
    out = order_obs(tier)
    for nm in IND:
        cols, dk, sk = IND[nm]
        from .plan_signals import kws
        sets = [sk] + [k for k in kws(nm)[:3] if k != sk][:(3 if tier == 'thorough' else 1)]
        for kw in sets:
            m = minrows(nm, kw)
            n = max(m, 3) + (1 if m < 20 else 0) + (2 if nm == 'DetrendedPriceOscillator' else 0)
            c = max(0, n - (2 if n > 6 else 3)) if nm not in ('ParabolicSAR', 'SwingIndex', 'RangeIndicator') else n - 1
            for lab, lay in layouts(nm, n, tier):
                opt = dict(conc=c)
                if nm in ('AccumulationDistributionLine', 'ChaikinOscillator'):
                    opt['strict'] = True
                out.append(dict(id='%s(%s) n=%d %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, lab), fn='checks.relation:run',
                                what='layout', ind=nm, kwargs=kw, n=n, lay=lay, opt=opt, signal=True, budget=45))
            if kw == sk:
                cols = list(cols)
                lays = [('simulation, rows reversed, columns reversed', dict(order=list(range(n))[::-1], cols=[['Note', 'text']] +
                                                                             [[c.upper(), c] for c in cols[::-1]]), dict(sim=True))]
                if n <= 6:
                    lays.append(('any row order', dict(order='any', cols=[[c, c] for c in cols]), dict(signal=True)))
                if len(cols) > 2:
                    lays.append(('any column order', dict(order=None, cols=[[c, c] for c in cols] + [['x', 'num']], anycols=True), {}))
                for lab, lay, k in lays:
                    # the row order is decided on few symbolic cells
                    out.append(dict(id='%s(%s) n=%d %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, lab),
                                    fn='checks.relation:run', what='layout', ind=nm, kwargs=kw, n=n, lay=lay,
                                    opt=dict(opt, conc=n - 1 if n > 4 or 'sim' in lab else n - 2), budget=60, **k))
    return out


# degree of the values in (prices, volumes)
DEG = dict(AccumulationDistributionLine=(0, 1), AverageTrueRange=(1, 0), BollingerBands=(1, 0), ChaikinMoneyFlow=(0, 0),
           ChaikinOscillator=(0, 1), ChandeMomentumOscillator=(0, 0), CommodityChannelIndex=(0, 0), DetrendedPriceOscillator=(1, 0),
           DirectionalMovementIndex=(0, 0), DoubleExponentialMovingAverage=(1, 0), EaseOfMovement=(2, -1), Envelopes=(1, 0),
           FibonacciRetracement=(1, 0), ForecastOscillator=(0, 0), IchimokuCloud=(1, 0), IntradayMomentumIndex=(0, 0),
           KlingerOscillator=(0, 1), LinearRegressionIndicator=(1, 0), LinearRegressionSlope=(1, 0), MarketFacilitationIndex=(1, -1),
           MassIndex=(0, 0), MedianPrice=(1, 0), Momentum=(0, 0), MovingAverage=(1, 0), MovingAverageConvergenceDivergence=(1, 0),
           NegativeVolumeIndex=(0, 0), OnBalanceVolume=(0, 1), ParabolicSAR=(1, 0), Performance=(0, 0), PositiveVolumeIndex=(0, 0),
           PriceAndVolumeTrend=(0, 1), PriceChannel=(1, 0), PriceOscillator=(0, 0), PriceRateOfChange=(0, 0), ProjectionBands=(1, 0),
           ProjectionOscillator=(0, 0), Qstick=(1, 0), RangeIndicator=(0, 0), RelativeMomentumIndex=(0, 0),
           RelativeStrengthIndex=(0, 0), RelativeVolatilityIndex=(0, 0), StandardDeviation=(1, 0), StochasticMomentumIndex=(0, 0),
           StochasticOscillator=(0, 0), SwingIndex=(1, 0), TimeSeriesForecast=(1, 0), TripleExponentialMovingAverage=(1, 0),
           TypicalPrice=(1, 0), UltimateOscillator=(0, 0), VerticalHorizontalFilter=(0, 0), VolatilityChaikins=(0, 0),
           VolumeOscillator=(0, 1), VolumeRateOfChange=(0, 0), WeightedClose=(1, 0), WildersSmoothing=(1, 0),
           WilliamsAccumulationDistribution=(1, 0), WilliamsR=(0, 0))


def scale_obs(tier):
    from .plan_signals import kws
    out = []
    for nm in IND:
        cols, dk, sk = IND[nm]
        for kw in [sk] + [k for k in kws(nm)[:3] if k != sk][:(3 if tier == 'thorough' else 1)]:
            m = minrows(nm, kw)
            n = max(m, 3) + (1 if m < 20 else 0) + (2 if nm == 'DetrendedPriceOscillator' else 0)
            heavy = nm in ('ParabolicSAR', 'SwingIndex', 'RangeIndicator', 'KlingerOscillator')
            c = max(0, n - (2 if n > 6 else 3)) if not heavy else n - 1
            for by, j in (('price', 0), ('volume', 1)):
                if nm in ('RangeIndicator', 'SwingIndex') and by == 'price' or by == 'volume' and (nm in (
                        'AccumulationDistributionLine', 'ChaikinOscillator')):
                    continue
                if by == 'volume' and 'volume' not in cols or by == 'price' and cols == ('volume',):
                    continue
                for const in (None, 2) if tier == 'thorough' else (None,):
                    opt = dict(conc=n - 1 if nm in ('DirectionalMovementIndex', 'RelativeVolatilityIndex') else c)
                    if nm in ('AccumulationDistributionLine', 'ChaikinOscillator'):
                        opt['strict'] = True
                    out.append(dict(id='%s(%s) n=%d %s times %s' % (nm, ','.join('%s=%s' % x for x in kw.items()), n, by, const or 'any'),
                                    fn='checks.relation:run_scale', by=by, deg=DEG[nm][j], ind=nm, kwargs=kw, n=n, opt=opt,
                                    signal=nm not in ('StandardDeviation', 'AccumulationDistributionLine', 'RelativeVolatilityIndex'), const=const, budget=45))
    return out


def range_obs(tier):
    from .ranges import CELL, ORDER, WITHIN
    names = {k if isinstance(k, str) else k[0] for k in CELL} | set(ORDER) | set(WITHIN)
    out = []
    for nm in IND:
        if nm not in names:
            continue
        for o in pv.plan(nm, tier):
            opt = dict(o['opt'])
            n = o['n']
            for k in ('decoy', 'cal', 'how'):
                opt.pop(k, None)
            if n > 100 and nm in ('DirectionalMovementIndex', 'RelativeVolatilityIndex', 'ProjectionOscillator', 'RangeIndicator'):
                continue
            if nm == 'ProjectionOscillator' and n > 10 or nm == 'RelativeVolatilityIndex' and o['kwargs'].get('period') != 1 and o['opt'].get('conc'):
                continue        # out of the solver's reach
            if 'symkw' in opt:
                continue
            if nm == 'MovingAverage' and o['kwargs'].get('ma_type') == 'time_series' or opt.pop('split', None):
                continue
            if nm == 'MovingAverage' and o['kwargs'].get('ma_type') == 'variable' and n > 22:
                continue
            if nm == 'DirectionalMovementIndex':
                opt['conc'] = n - 1
            if nm == 'RelativeVolatilityIndex':
                opt['conc'] = n - 1
            if nm == 'NegativeVolumeIndex' and n > 9 or nm == 'RangeIndicator' and opt.get('conc') or \
                    nm == 'ProjectionOscillator' and opt.get('conc') == 11:
                continue
            if nm == 'StochasticMomentumIndex':
                opt['conc'] = max(0, n - 4)
            if o['kwargs'].get('d_method') == 'exponential':
                opt = dict(opt, conc=n - 2)
            out.append(dict(id='%s %s' % (o['id'], opt), fn='checks.relation:run_range', ind=nm, kwargs=o['kwargs'], n=n, opt=opt, budget=o['budget']))
    return out


PLANS = {
    'C15': dict(obs=range_obs, bounds=pv.BND + '; low <= open, close <= high'),
    'C24': dict(obs=scale_obs, bounds='every indicator, 1..3 parameter sets, minimum rows (at least 3) + 1; the last one to three rows and the factor '
                                      'any positive real. Not covered: swing index and range indicator for prices (limit move, clipped '
                                      'and mixed definition), accumulation/distribution and Chaikin oscillator for volumes (truncated to '
                                      'whole numbers), signals of standard deviation, accumulation/distribution and relative volatility'),
    'C05': dict(obs=layout_obs, bounds='every indicator, small parameters (and further ones), 4 rows or the minimum; the last two or three rows any '
                                       'positive real; 14 layouts each (row permutations, column orders, letter cases, extra columns of '
                                       'all types and names); in addition every order of 5 rows and 12 orders of 24 rows on 4 calendars'),
    'C10': dict(obs=prefix_obs, bounds=pv.BND + '; every cut shown (first rows compared)'),
}
