"""Documented trading-signal rules, over plain lists of `Sym` (comparisons with a missing value are false).

SIG[name] = (rows needed, rule);  rule(I, T, kw) -> ordered [(condition, 'buy' | 'sell')]; no condition: hold.
I: input column -> list, T: indicator column -> list (same length, except where noted), -1 is the latest day.
"""
from . import refs
from .core import FALSE, NAN, TRUE, SymBool, band, bnot, bor, lift, smax, ssum

SIG = {}
EXTRA = {'MassIndex': '9_ema', 'MedianPrice': 'close_ema'}


def sig(need=1):
    def d(f):
        SIG[f.__name__] = (need, f)
        return f
    return d


def bb(x):
    if isinstance(x, SymBool):
        return x.b
    return TRUE if x else FALSE


def al(*xs):
    return SymBool(band(*[bb(x) for x in xs]))


def an(*xs):
    return SymBool(bor(*[bb(x) for x in xs]))


def chain(*xs):
    """x0 < x1 < x2 ..."""
    xs = [lift(x) for x in xs]
    return al(*[a < b for a, b in zip(xs, xs[1:])])


def up(x, level):
    return chain(x[-2], level, x[-1])


def down(x, level):
    return chain(x[-1], level, x[-2])


def crosses(a, b):
    """(a goes above b, a goes below b)"""
    return al(a[-2] < b[-2], a[-1] > b[-1]), al(a[-2] > b[-2], a[-1] < b[-1])


def cross_level(name, col, hi, lo, above, below, need=2):
    def f(I, T, kw):
        return [(up(T[col], hi), above), (down(T[col], lo), below)]
    SIG[name] = (need, f)


def price_cross(name, col, above, below):
    def f(I, T, kw):
        u, d = crosses(I['close'], T[col])
        return [(u, above), (d, below)]
    SIG[name] = (2, f)


def monotone(name, col, rising, falling, need=3):
    def f(I, T, kw):
        x = T[col]
        return [(chain(x[-3], x[-2], x[-1]), rising), (chain(x[-1], x[-2], x[-3]), falling)]
    SIG[name] = (need, f)


def band_break(name, hi, lo):
    def f(I, T, kw):
        return [(I['close'][-1] > T[hi][-1], 'sell'), (I['close'][-1] < T[lo][-1], 'buy')]
    SIG[name] = (1, f)


# zero / threshold crossings
cross_level('ChandeMomentumOscillator', 'cmo', 50, -50, 'sell', 'buy')
cross_level('DetrendedPriceOscillator', 'dpo', 0, 0, 'buy', 'sell')
cross_level('EaseOfMovement', 'emv_ma', 0, 0, 'buy', 'sell')
cross_level('ForecastOscillator', 'fosc', 0, 0, 'sell', 'buy')
cross_level('IntradayMomentumIndex', 'imi', 70, 30, 'sell', 'buy')
cross_level('KlingerOscillator', 'ko', 0, 0, 'sell', 'buy')
cross_level('LinearRegressionSlope', 'lrs', 0, 0, 'sell', 'buy')
cross_level('PriceOscillator', 'posc', 0, 0, 'buy', 'sell')
cross_level('RelativeMomentumIndex', 'rmi', 70, 30, 'sell', 'buy')
cross_level('RelativeStrengthIndex', 'rsi', 70, 30, 'sell', 'buy')
cross_level('RelativeVolatilityIndex', 'rvi', 60, 40, 'sell', 'buy')
cross_level('StochasticMomentumIndex', 'smi', 40, -40, 'sell', 'buy')
cross_level('SwingIndex', 'swi', 0, 0, 'sell', 'buy')
# price against a line
price_cross('LinearRegressionIndicator', 'lri', 'sell', 'buy')
price_cross('TimeSeriesForecast', 'tsf', 'sell', 'buy')
price_cross('WeightedClose', 'wc', 'sell', 'buy')
price_cross('WildersSmoothing', 'ws', 'sell', 'buy')
price_cross('ParabolicSAR', 'sar', 'buy', 'sell')
# three days in a row
monotone('OnBalanceVolume', 'obv', 'sell', 'buy')
monotone('PriceAndVolumeTrend', 'pvt', 'sell', 'buy')
monotone('PriceRateOfChange', 'prc', 'sell', 'buy')
monotone('VolumeRateOfChange', 'vrc', 'sell', 'buy')
monotone('VolatilityChaikins', 'vch', 'buy', 'sell')
# outside the bands
band_break('BollingerBands', 'upper_band', 'lower_band')
band_break('Envelopes', 'upper_band', 'lower_band')
band_break('PriceChannel', 'highest_high', 'lowest_low')


@sig(2)
def AccumulationDistributionLine(I, T, kw):
    c, a = I['close'], T['adl']
    moved = an(c[-1] < c[-2], c[-1] > c[-2])
    return [(al(moved, a[-1] > 0), 'buy'), (al(moved, a[-1] < 0), 'sell')]


@sig(10)
def AverageTrueRange(I, T, kw):
    c = I['close']
    s5, s10 = ssum(c[-5:]) / 5, ssum(c[-10:]) / 10
    v = T['atr'][-1] > c[-1] / 100
    return [(al(v, c[-1] > s5, c[-1] > s10), 'buy'), (al(v, c[-1] > s5), 'sell'), (al(v, c[-1] < s5), 'buy')]


@sig(3)
def ChaikinMoneyFlow(I, T, kw):
    c, m = I['close'], T['cmf']
    return [(al(m[-2] > m[-1], c[-3] < c[-1], c[-2] < c[-1]), 'sell'),
            (al(m[-2] < m[-1], c[-3] > c[-1], c[-2] > c[-1]), 'buy')]


@sig(90)
def ChaikinOscillator(I, T, kw):
    c, m = I['close'], T['co']
    ma = ssum(c[-90:]) / 90
    return [(al(c[-1] > ma, chain(m[-2], m[-1], 0)), 'buy'), (al(c[-1] < ma, chain(0, m[-1], m[-2])), 'sell')]


@sig(1)
def CommodityChannelIndex(I, T, kw):
    return [(T['cci'][-1] < -100, 'buy'), (T['cci'][-1] > 100, 'sell')]


@sig(2)
def DirectionalMovementIndex(I, T, kw):
    u, d = crosses(T['+di'], T['-di'])
    strong = T['adxr'][-1] >= 20
    return [(al(d, strong), 'sell'), (al(u, strong), 'buy')]


@sig(1)
def DoubleExponentialMovingAverage(I, T, kw):
    return [(I['close'][-1] < T['dema'][-1], 'buy')]


@sig(1)
def TripleExponentialMovingAverage(I, T, kw):
    return [(I['close'][-1] < T['tema'][-1], 'buy'), (I['close'][-1] > T['tema'][-1], 'sell')]


@sig(1)
def MovingAverage(I, T, kw):
    return [(I['close'][-1] > T['ma-' + kw['ma_type']][-1], 'buy')]


@sig(2)
def FibonacciRetracement(I, T, kw):
    lv = ('rl_61.8', 'rl_50.0', 'rl_38.2', 'rl_23.6')
    cr = [crosses(I['close'], T[k]) for k in lv]
    return [(d, 'buy') for u, d in cr] + [(u, 'sell') for u, d in cr]


@sig(2)
def IchimokuCloud(I, T, kw):
    u, d = crosses(T['tenkan_sen'], T['kijun_sen'])
    a, b = T['senkou_a'][-1], T['senkou_b'][-1]
    vs = (I['close'][-1], T['tenkan_sen'][-1], T['kijun_sen'][-1])
    above = al(*[al(v > a, v > b) for v in vs])
    # a value on the lower bound counts as below the cloud
    below = al(*[al(v <= a, v <= b) for v in vs])
    return [(al(u, above), 'buy'), (al(d, below), 'sell')]


@sig(2)
def MarketFacilitationIndex(I, T, kw):
    m = T['mfi']
    return [(m[-2] > m[-1], 'buy'), (m[-2] < m[-1], 'sell')]


@sig(2)
def MassIndex(I, T, kw):
    m, e = T['mi'], refs.ema(I['close'], 9)
    bulge, open_ = FALSE, TRUE
    for v in reversed(m[:-1]):       # the latest earlier day outside 26.5 .. 27 was above 27
        bulge = bor(bulge, band(open_, bnot(bb(v < 26.5)), bb(v > 27)))
        open_ = band(open_, bnot(bb(v < 26.5)), bnot(bb(v > 27)))
    bulge = band(bulge, bb(m[-1] < 26.5))
    return [(al(SymBool(bulge), e[-2] < e[-1]), 'sell'), (al(SymBool(bulge), e[-2] > e[-1]), 'buy')]


@sig(lambda kw: max(kw['period'], 2))
def MedianPrice(I, T, kw):
    u, d = crosses(refs.ema(I['close'], kw['period'], kw['period']), T['mp'])
    return [(u, 'buy'), (d, 'sell')]


@sig(9)
def Momentum(I, T, kw):
    u, d = crosses(T['mom'], gap_ema(T['mom'], 9))
    return [(u, 'sell'), (d, 'buy')]


def gap_ema(x, span):
    """exponential average over values that may be missing at the start"""
    return refs.ema(x, span, span)


@sig(2)
def MovingAverageConvergenceDivergence(I, T, kw):
    m = T['macd']
    u, d = crosses(m, T['signal_line'])
    return [(up(m, 0), 'buy'), (down(m, 0), 'sell'), (d, 'sell'), (u, 'buy')]


@sig(255)
def NegativeVolumeIndex(I, T, kw):
    return [(T['nvi'][-1] > gap_ema(T['nvi'], 255)[-1], 'buy')]


@sig(255)
def PositiveVolumeIndex(I, T, kw):
    e = gap_ema(T['pvi'], 255)
    u, d = crosses(T['pvi'], e)
    return [(u, 'buy'), (d, 'sell')]


@sig(1)
def Performance(I, T, kw):
    v = T[list(T)[0]][-1]
    t = kw['target']
    return [(v >= t, 'sell')] if kw['mode'] == 'LONG' else [(v <= t, 'buy')]


@sig(1)
def ProjectionBands(I, T, kw):
    c, u, l = I['close'][-1], T['upper_band'][-1], T['lower_band'][-1]
    return [(u - c < (u - l) * 0.15, 'sell'), (c - l < (u - l) * 0.15, 'buy')]


@sig(4)
def ProjectionOscillator(I, T, kw):
    p, t = T['posc'], T['trigger_line']
    lt = [a < b for a, b in zip(p, t)]
    gt = [a > b for a, b in zip(p, t)]
    return [(up(p, 15), 'buy'), (down(p, 85), 'sell'), (al(lt[-4], lt[-3], gt[-2], gt[-1]), 'buy'),
            (al(gt[-4], gt[-3], lt[-2], lt[-1]), 'sell')]


@sig(4)
def Qstick(I, T, kw):
    q = T['qstick']
    return [(chain(q[-4], q[-3], 0, q[-2], q[-1]), 'buy'), (chain(q[-1], q[-2], 0, q[-3], q[-4]), 'sell')]


@sig(2)
def RangeIndicator(I, T, kw):
    c, r = I['close'], T['ri']
    starts, ends = up(r, 20), up(r, 70)
    rise, none, open_ = FALSE, TRUE, TRUE
    for x, v in zip(reversed(c), reversed(r)):       # price on the latest day below 20
        low = bb(v < 20)
        rise = bor(rise, band(open_, low, bb(x < c[-1])))
        open_ = band(open_, bnot(low))
    return [(al(starts, c[-2] < c[-1]), 'buy'), (starts, 'sell'), (al(ends, SymBool(rise)), 'sell'),
            (al(ends, SymBool(bnot(open_))), 'buy')]


@sig(1)
def StandardDeviation(I, T, kw):
    p, c = kw['period'], I['close']
    if len(c) < p:
        return []
    s = ssum(c[-p:]) / p
    v = T['sd'][-1] > 2
    return [(al(v, c[-1] > s), 'sell'), (al(v, c[-1] < s), 'buy')]


@sig(2)
def StochasticOscillator(I, T, kw):
    k, d = T['%K'], T['%D']
    return [(an(down(k, 80), down(d, 80)), 'sell'), (an(up(k, 20), up(d, 20)), 'buy'),
            (al(k[-2] > k[-1], k[-1] < d[-1], k[-1] > 80), 'sell'),
            (al(k[-2] < k[-1], k[-1] > d[-1], k[-1] < 20), 'buy')]


@sig(lambda kw: kw['period'])
def TypicalPrice(I, T, kw):
    p = kw['period']
    return [(T['tp'][-1] > ssum(I['close'][-p:]) / p, 'buy')]


@sig(30)
def UltimateOscillator(I, T, kw):
    """bullish divergence: the lows of price and indicator are on different days"""
    c, u = I['close'][-30:], T['uosc'][-30:]

    def isfirst(x, i):      # i is the first position of the minimum of the known values
        return band(x[i].fin, *[bor(bnot(y.fin), bb(x[i] < y)) for y in x[:i]],
                    *[bor(bnot(y.fin), bb(x[i] <= y)) for y in x[i + 1:]])
    same = bor(*[band(isfirst(c, i), isfirst(u, i)) for i in range(30)])
    fell = bor(*[bb(v < 30) for v in u])
    high = band(u[-1].fin, bor(*[v.fin for v in u[:-1]]), *[bor(bnot(v.fin), bb(v < u[-1])) for v in u[:-1]])
    return [(SymBool(band(bnot(same), fell, high)), 'buy')]


@sig(3)
def VerticalHorizontalFilter(I, T, kw):
    v, n = T['vhf'], len(I['close'])
    rise, fall = chain(v[-3], v[-2], v[-1]), chain(v[-1], v[-2], v[-3])
    out = []
    if n >= 5:
        t = refs.REF['DoubleExponentialMovingAverage'](I, period=5)
        out += [(al(rise, c), s) for c, s in DoubleExponentialMovingAverage(I, t, dict(period=5))]
    if n >= 12:
        t = refs.REF['Momentum'](I, period=12)
        out += [(al(fall, c), s) for c, s in Momentum(I, t, dict(period=12))]
    return out


@sig(3)
def VolumeOscillator(I, T, kw):
    v = T['vosc']
    return [(chain(0, v[-3], v[-2], v[-1]), 'buy'), (chain(0, v[-1], v[-2], v[-3]), 'sell')]


@sig(30)
def WilliamsAccumulationDistribution(I, T, kw):
    c, w = I['close'][-30:], T['wad'][-30:]

    def ext(x, op):
        # the latest value is the extreme of the known values
        return band(x[-1].fin, *[bor(bnot(v.fin), bb(op(x[-1], v))) for v in x[:-1]])
    le, ge = (lambda a, b: a <= b), (lambda a, b: a >= b)
    return [(SymBool(band(ext(c, le), bnot(ext(w, le)))), 'buy'), (SymBool(band(ext(c, ge), bnot(ext(w, ge)))), 'sell')]


@sig(2)
def WilliamsR(I, T, kw):
    w = T['wr']
    state, buy, sell = TRUE, FALSE, FALSE
    for v in reversed(w[:-1]):
        lo, hi = bb(v <= -80), bb(v >= -20)
        buy = bor(buy, band(state, lo, bnot(hi)))
        sell = bor(sell, band(state, hi, bnot(lo)))
        state = band(state, bnot(lo), bnot(hi))
    return [(al(SymBool(buy), up(w, -50)), 'buy'), (al(SymBool(sell), down(w, -50)), 'sell')]


def expected(name, I, T, kw):
    """-> {'buy': B, 'sell': B, 'hold': B}"""
    need, f = SIG[name]
    if callable(need):
        need = need(kw)
    n = len(next(iter(T.values())))
    out = dict(buy=FALSE, sell=FALSE)
    prev = FALSE
    if n >= need:
        for c, s in f(I, T, kw):
            c = bb(c)
            out[s] = bor(out[s], band(c, bnot(prev)))
            prev = bor(prev, c)
    out['hold'] = bnot(prev)
    return out
