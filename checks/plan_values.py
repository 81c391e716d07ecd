from symx.specs import IND

P11 = ['MovingAverage', 'WildersSmoothing', 'DoubleExponentialMovingAverage', 'TripleExponentialMovingAverage', 'MedianPrice',
       'TypicalPrice', 'WeightedClose', 'BollingerBands', 'Envelopes', 'PriceChannel', 'ProjectionBands',
       'FibonacciRetracement', 'IchimokuCloud', 'ParabolicSAR']
P12 = ['RelativeStrengthIndex', 'RelativeMomentumIndex', 'IntradayMomentumIndex', 'ChandeMomentumOscillator',
       'CommodityChannelIndex', 'StochasticOscillator', 'StochasticMomentumIndex', 'WilliamsR', 'UltimateOscillator',
       'Momentum', 'PriceRateOfChange', 'PriceOscillator', 'MovingAverageConvergenceDivergence', 'Qstick',
       'DetrendedPriceOscillator', 'MassIndex', 'RelativeVolatilityIndex', 'VerticalHorizontalFilter', 'RangeIndicator',
       'ProjectionOscillator', 'SwingIndex']
P13 = ['AccumulationDistributionLine', 'ChaikinMoneyFlow', 'ChaikinOscillator', 'OnBalanceVolume', 'PositiveVolumeIndex',
       'NegativeVolumeIndex', 'PriceAndVolumeTrend', 'EaseOfMovement', 'MarketFacilitationIndex', 'KlingerOscillator',
       'VolumeOscillator', 'VolumeRateOfChange', 'WilliamsAccumulationDistribution']
P14 = ['LinearRegressionIndicator', 'LinearRegressionSlope', 'TimeSeriesForecast', 'ForecastOscillator',
       'DirectionalMovementIndex', 'AverageTrueRange', 'VolatilityChaikins', 'StandardDeviation', 'Performance']


CONCRETE_LARGE = ('RelativeStrengthIndex', 'RelativeVolatilityIndex', 'EaseOfMovement', 'ChaikinMoneyFlow')


def ob(name, kw, n, budget=60, **opt):
    return dict(id='%s(%s) n=%d%s' % (name, ','.join('%s=%s' % x for x in kw.items()), n,
                                      ' ' + ','.join('%s=%s' % x for x in opt.items()) if opt else ''),
                fn='checks.values:run', ind=name, kwargs=kw, n=n, opt=opt, budget=budget)


def plan(name, tier):
    from .rows import minrows
    cols, dk, sk = IND[name]
    th = tier == 'thorough'
    out = []

    def add(kw, *extra, **opt):
        m = minrows(name, kw)
        for e in extra:
            out.append(ob(name, kw, m + e, 240 if th else 60, **opt))
    if name == 'MovingAverage':
        for t in ('simple', 'exponential', 'time_series', 'triangular', 'variable'):
            for p in (2, 3, 5) + ((20,) if t != 'variable' else ()):
                add(dict(period=p, ma_type=t), 0, *((1,) if t == 'variable' else (4,)))
            if t not in ('time_series',):
                add(dict(period=1, ma_type=t), 2)
    elif name == 'ParabolicSAR':
        add({}, 0, 1, 4)
        for s in (0, 1, 2, 3):
            out.append(ob(name, {}, 24, 60, conc=21, style=s))
        out.append(ob(name, {}, 30, 60, conc=27, style=1, seed=5))
        if th:
            add({}, 5, 6)
    elif name == 'KlingerOscillator':
        for s in (0, 4):
            out.append(ob(name, {}, 57, 60, conc=56, style=s))
        out.append(ob(name, {}, 55, 60, conc=54))
        out.append(ob(name, {}, 58, 60, conc=58, free='volume'))
    elif name == 'ChaikinOscillator':
        add({}, 0, 3, strict=True)
    elif name == 'AccumulationDistributionLine':
        add({}, 0, 3, 5)
        add({}, 20, strict=True)
    elif name == 'DirectionalMovementIndex':
        out.append(ob(name, {}, 28, 60, conc=20))
        out.append(ob(name, {}, 30, 60, conc=20))
        out.append(ob(name, {}, 44, 60, conc=38))
        out.append(ob(name, {}, 60, 60, conc=57, style=4))
    elif name == 'IchimokuCloud':
        add({}, 0, 1, 8, 30, 84)
    elif name == 'MovingAverageConvergenceDivergence':
        add({}, 0, 3, 14)
    elif name == 'MassIndex':
        add({}, 0, 3, *((8,) if th else ()))
    elif name == 'SwingIndex':
        add({}, 0, 1, 3, 5)
        out.append(ob(name, {}, 40, 60, conc=38))
    elif name == 'DetrendedPriceOscillator':
        for p in (1, 2, 3, 5, 7):
            add(dict(period=p), 3, 5)
        add(dict(period=20), 12, 15)
    elif name == 'UltimateOscillator':
        add({}, 0, 4)
    elif name == 'AverageTrueRange':
        add({}, 0, 1, 8)
    elif name in ('PositiveVolumeIndex', 'NegativeVolumeIndex'):
        add({}, 0, 3, 8)
        out.append(ob(name, {}, 40, 60, conc=34, style=3))
    elif name == 'Performance':
        for k in (dict(mode='LONG', target=0.05), dict(mode='SHORT', target=-0.1), dict(mode='LONG', target=2)):
            add(k, 0, 6)
    elif name == 'StochasticOscillator':
        for k, s, d in ((14, 1, 3), (3, 3, 2), (2, 1, 3), (4, 3, 1), (5, 1, 4), (1, 1, 2)):
            for m in ('simple', 'exponential'):
                add(dict(k_periods=k, k_slowing_periods=s, d_periods=d, d_method=m), 0, 6, **(dict(strict=True) if m != 'simple' else {}))
    elif name == 'RangeIndicator':
        for a, b in ((2, 2), (3, 1), (1, 3)):
            add(dict(range_period=a, smoothing_period=b), 0, 1, *((2,) if th or b != 2 else ()))
        out.append(ob(name, dict(range_period=5, smoothing_period=3), 16, 60, conc=14))
        out.append(ob(name, dict(range_period=5, smoothing_period=3), 13, 60, conc=11, style=3))
    elif name == 'RelativeVolatilityIndex':
        for p in (1, 2, 3):
            add(dict(period=p), 0, 3)
        out.append(ob(name, dict(period=5), 30, 60, conc=20))
    elif name == 'ProjectionOscillator':
        add(dict(period=2), 0, 2)
        add(dict(period=3), 0, 1)
        out.append(ob(name, dict(period=5), 14, 60, conc=11))
        out.append(ob(name, dict(period=14), 24, 60, conc=22))
    elif not dk:
        add({}, 0, 1, 5)
        add({}, 40)
    else:
        add(dk, 0, *({'EaseOfMovement': (), 'RelativeStrengthIndex': (1,)}.get(name, (3,))))
        add(sk, 0, 4)
        for p1 in (1, 2, 4, 5):
            kw = {k: (v if not isinstance(v, int) or k == 'std_number' else p1) for k, v in dk.items()}
            if name in ('PriceOscillator', 'VolumeOscillator'):
                ks = list(dk)
                kw = {ks[0]: p1 + 2, ks[1]: p1}
            if p1 == 1 and name in ('LinearRegressionIndicator', 'LinearRegressionSlope', 'TimeSeriesForecast',
                                    'ForecastOscillator', 'ProjectionBands', 'ProjectionOscillator'):
                continue
            add(kw, 0, 3)
        ints = [k for k, v in dk.items() if isinstance(v, int) and k != 'std_number']
        if len(ints) == 2 and name not in ('PriceOscillator', 'VolumeOscillator'):
            add(dict(dk, **{ints[0]: 2, ints[1]: 5}), 0, 3)
            add(dict(dk, **{ints[0]: 5, ints[1]: 2}), 0, 3)
        if len(ints) == 3:
            add(dict(dk, **dict(zip(ints, (2, 3, 4)))), 4, 8)
            add(dict(dk, **dict(zip(ints, (4, 2, 1)))), 4, 8)
        if name == 'BollingerBands':
            add(dict(period=4, std_number=1), 2)
            add(dict(period=4, std_number=2.5), 2)
        if name == 'Envelopes':
            add(dict(period=4, shift=0.25), 2)
            add(dict(period=2, shift=0.9), 2)
        if name in ('EaseOfMovement', 'ChaikinMoneyFlow', 'VolumeOscillator', 'VolumeRateOfChange'):
            add(sk, 3, vol0=True)
    per = [k for k, v in dk.items() if isinstance(v, int) and k != 'std_number']
    if name == 'BollingerBands':
        for p, e in ((2, 3), (5, 0), (20, 1)):
            add(dict(period=p, std_number=2), e, symkw=dict(std_number='pos'))
    if name == 'Envelopes':
        for p, e in ((2, 3), (5, 0), (20, 1)):
            add(dict(period=p, shift=0.1), e, symkw=dict(shift='frac'))
    if name == 'Performance':
        for m, t, s in (('LONG', 0.05, 'pos'), ('SHORT', -0.05, 'neg')):
            add(dict(mode=m, target=t), 4, symkw=dict(target=s))
    if per == ['period'] and name not in CONCRETE_LARGE:
        add(dict(dk, period=31), 1)
        add(dict(dk, period=9), 2)
    elif per == ['period']:
        add(dict(dk, period=9), 2)
        m = minrows(name, dict(dk, period=31)) + 4
        out.append(ob(name, dict(dk, period=31), m, 60, conc=m - 3))
    elif per and name not in ('PriceOscillator', 'VolumeOscillator', 'Performance', 'StochasticOscillator'):
        kw = dict(dk, **dict(zip(per, (31, 9, 7))))
        m = minrows(name, kw) + 4
        out.append(ob(name, kw, m, 60, conc=m - 3))
    # long series, other calendars, another instance before
    last = 1 if name in ('KlingerOscillator', 'DirectionalMovementIndex') else 2 if name in ('ProjectionOscillator', 'SwingIndex', 'RangeIndicator') else 3
    st_ = dict(strict=True) if name == 'ChaikinOscillator' else {}
    for kw in [dk] if name != 'MovingAverage' else [dict(period=20, ma_type=t) for t in ('simple', 'exponential', 'time_series', 'triangular',
                                                                                        'variable')]:
        for n, cal, st in ((131, 'gaps', 4),) + (((400, 'intraday', 0),) if th else ()):
            out.append(ob(name, kw, n, 240 if th else 60, conc=n - min(last, 2), style=st, cal=cal, decoy=True, **st_))
    for kw, cal, e, how in ((sk, 'intraday', 2, None), (sk, 'tz', 1, 'position'), (dk, 'years', 1, 'defaults')):
        m = minrows(name, kw) + e
        out.append(ob(name, kw, m, 60, conc=max(0, m - last), cal=cal, decoy=cal != 'years', style=1 if cal == 'years' else 4,
                      **(dict(st_, how=how) if how and dk else st_)))
    if th and not (name in ('ParabolicSAR', 'KlingerOscillator')):
        more = [dict(o) for o in out if not o['opt'].get('conc')]
        for o in more[-4:]:
            out.append(ob(name, o['kwargs'], o['n'] + 6, 240, **o['opt']))
    seen, uniq = set(), []
    for o in out:
        if o['id'] not in seen:
            seen.add(o['id'])
            uniq.append(o)
    return uniq


def mk(names):
    def f(tier):
        return [o for nm in names for o in plan(nm, tier)]
    return f


BND = ('rows: the listed n per obligation (minimum rows .. minimum+20, up to 85, and 131 rows with a concrete prefix; thorough: 400); every input cell an unconstrained positive '
       'real (volumes also zero where stated) except concrete prefixes (conc=k); parameters: the listed values')
PLANS = {p: dict(obs=mk(names), bounds=BND) for p, names in
         (('C11', P11), ('C12', P12), ('C13', P13), ('C14', P14))}
