"""Reference definitions of the indicators, written from their published definitions over plain lists of `Sym`
(or of constants lifted to `Sym`).  Independent of pandas and of how /repo computes them.

REF[name](d, **kw) -> {output column: [value per date]}   (d: input column -> list)
A value that does not exist yet (warm-up) is NAN.
"""
from .core import NAN, ZERO, Sym, SymBool, ite, lift, smax, ssum, band, bor
from fractions import Fraction as F

REF = {}
STAGED = {'DirectionalMovementIndex'}     # take got=: columns already shown equal, used by the later columns


def ref(f):
    REF[f.__name__] = f
    return f


def shift(x, k):
    n = len(x)
    return [x[i - k] if 0 <= i - k < n else NAN for i in range(n)]


def zipw(f, *xs):
    return [f(*v) for v in zip(*xs)]


def sub(x, y):
    return zipw(lambda a, b: a - b, x, y)


def wins(x, p, f):
    """f of the last p values, once p values exist"""
    out = []
    for i in range(len(x)):
        w = x[max(0, i - p + 1):i + 1]
        out.append(f(w) if len(w) == p and not any(v.is_nan_const() for v in w) else NAN)
    return out


def mean(w):
    return ssum(w) / len(w)


def rsum(x, p):
    return wins(x, p, ssum)


def sma(x, p):
    return wins(x, p, mean)


def rmax(x, p):
    return wins(x, p, lambda w: smax(w, 'max'))


def rmin(x, p):
    return wins(x, p, lambda w: smax(w, 'min'))


def var(w):
    m = mean(w)
    return ssum([(v - m) * (v - m) for v in w]) / len(w)


def rstd(x, p):
    return wins(x, p, lambda w: var(w).sqrt())


def ema(x, span, minp=None, alpha=None):
    """exponential average: starts at the first value, factor 2/(span+1); shown once `span` values exist"""
    a = lift(F(2, span + 1)) if alpha is None else lift(alpha)
    minp = span if minp is None else minp
    out, s, cnt = [], None, 0
    for v in x:
        if v.is_nan_const():
            if s is not None:
                raise ValueError('gap in ema input')
            out.append(NAN)
            continue
        s = v if s is None else s + a * (v - s)
        cnt += 1
        out.append(s if cnt >= minp else NAN)
    return out


def wilder(x, p, first):
    """Wilder smoothing of x[first:]: average of the first p values, then s + (x-s)/p"""
    out = [NAN] * len(x)
    if len(x) < first + p:
        return out
    s = out[first + p - 1] = mean(x[first:first + p])
    for i in range(first + p, len(x)):
        s = out[i] = s + (x[i] - s) / p
    return out


def pos(v):
    return ite(v > 0, v, ZERO)


def typical(d):
    return zipw(lambda h, l, c: (h + l + c) / 3, d['high'], d['low'], d['close'])


def linreg(y):
    """least-squares line through (0,y0)..(n-1,y[n-1]) -> (value at n-1, slope)"""
    n = len(y)
    xm = F(n - 1, 2)
    sxx = sum((F(i) - xm) ** 2 for i in range(n))
    m = mean(y)
    slope = ssum([lift(F(i) - xm) * y[i] for i in range(n)]) / lift(sxx)
    return m + slope * lift(F(n - 1) - xm), slope


def div(a, b):
    return a / b


def clv(d):
    return zipw(lambda h, l, c, v: v * ((c - l) - (h - c)) / (h - l), d['high'], d['low'], d['close'], d['volume'])


def cumsum(x):
    out, s = [], ZERO
    for v in x:
        s = s + v
        out.append(s)
    return out


# ------------------------------------------------------------------ averages, bands, price levels
@ref
def MovingAverage(d, period=20, ma_type='simple'):
    c = d['close']
    n = len(c)
    col = 'ma-' + ma_type
    if ma_type == 'simple':
        r = sma(c, period)
    elif ma_type == 'exponential':
        r = ema(c, period)
    elif ma_type == 'triangular':
        r = sma(sma(c, period), period)
    elif ma_type == 'time_series':
        r = tsf(c, period)
    else:
        r = [NAN] * n
        vr = [abs(v / 100) if not v.is_nan_const() else NAN for v in ChandeMomentumOscillator(d, 9)['cmo']]
        k = lift(F(2, period + 1))
        s = r[21] = c[21]
        for i in range(22, n):
            s = r[i] = k * vr[i] * c[i] + (lift(1) - k * vr[i]) * s
    return {col: r}


def tsf(c, p):
    def f(w):
        v, s = linreg(w)
        return v + s
    return wins(c, p, f)


@ref
def TimeSeriesForecast(d, period=14):
    return {'tsf': tsf(d['close'], period)}


@ref
def DoubleExponentialMovingAverage(d, period=5):
    e = ema(d['close'], period)
    e2 = ema(e, period)
    return {'dema': zipw(lambda a, b: 2 * a - b, e, e2)}


@ref
def TripleExponentialMovingAverage(d, period=5):
    e = ema(d['close'], period)
    e2 = ema(e, period)
    e3 = ema(e2, period)
    return {'tema': zipw(lambda a, b, c: 3 * a - 3 * b + c, e, e2, e3)}


@ref
def WildersSmoothing(d, period=5):
    return {'ws': wilder(d['close'], period, 0)}


@ref
def MedianPrice(d, period=20):
    return {'mp': zipw(lambda h, l: (h + l) / 2, d['high'], d['low'])}


@ref
def TypicalPrice(d, period=200):
    return {'tp': typical(d)}


@ref
def WeightedClose(d):
    return {'wc': zipw(lambda h, l, c: (h + l + 2 * c) / 4, d['high'], d['low'], d['close'])}


@ref
def BollingerBands(d, period=20, std_number=2):
    m = sma(d['close'], period)
    s = rstd(d['close'], period)
    k = lift(std_number)
    return {'middle_band': m, 'upper_band': zipw(lambda a, b: a + k * b, m, s),
            'lower_band': zipw(lambda a, b: a - k * b, m, s)}


@ref
def Envelopes(d, period=20, shift=0.10):
    m = sma(d['close'], period)
    k = lift(shift)
    return {'upper_band': [a + a * k for a in m], 'lower_band': [a - a * k for a in m]}


@ref
def PriceChannel(d, period=5):
    return {'highest_high': shift(rmax(d['high'], period), 1), 'lowest_low': shift(rmin(d['low'], period), 1)}


@ref
def ProjectionBands(d, period=14):
    def band_(x, which):
        def f(w):
            s = linreg(w)[1]
            return smax([w[-1 - j] + j * s for j in range(len(w))], which)
        return wins(x, period, f)
    return {'upper_band': band_(d['high'], 'max'), 'lower_band': band_(d['low'], 'min')}


@ref
def FibonacciRetracement(d):
    c = d['close']
    hi, lo = smax(c, 'max'), smax(c, 'min')
    out = {}
    for k in ('0.0', '0.236', '0.382', '0.5', '0.618', '1.0'):
        f = F(k)
        out['rl_' + str(round(100 * float(k), 1))] = [hi - lift(f) * (hi - lo)] * len(c)
    return out


@ref
def IchimokuCloud(d):
    n = len(d['close'])

    def mid(p):
        return [(smax(d['high'][max(0, i - p + 1):i + 1], 'max') + smax(d['low'][max(0, i - p + 1):i + 1], 'min')) / 2
                for i in range(n)]
    t, k, b = mid(9), mid(26), mid(52)
    return {'tenkan_sen': t, 'kijun_sen': k, 'senkou_a': shift(zipw(lambda x, y: (x + y) / 2, t, k), 26),
            'senkou_b': shift(b, 26)}


SAR_START, SAR_STEP, SAR_MAX = F(2, 100), F(2, 100), F(2, 10)


@ref
def ParabolicSAR(d):
    """stop-and-reverse; truth of each comparison is decided by the path (forks)"""
    h, l = d['high'], d['low']
    n = len(h)
    out = []
    is_long = bool(h[1] > h[0])
    ep, sar, af, start = (h[0], l[0], SAR_STEP, 0) if is_long else (l[0], h[0], SAR_STEP, 0)
    out.append(sar)
    for i in range(1, n):
        nep = smax(h[start:i + 1], 'max') if is_long else smax(l[start:i + 1], 'min')
        naf = min(SAR_MAX, af + SAR_STEP) if bool(nep > ep if is_long else nep < ep) else af
        s = sar + lift(af) * (ep - sar)
        prev = range(max(0, i - 2), i)
        s = smax([s] + [l[j] for j in prev], 'min') if is_long else smax([s] + [h[j] for j in prev], 'max')
        if bool(l[i] < s) if is_long else bool(h[i] > s):
            s = smax(h[start:i], 'max') if is_long else smax(l[start:i], 'min')
            is_long = not is_long
            ep, af, start = (h[i] if is_long else l[i]), SAR_STEP, i
        else:
            ep, af = nep, naf
        sar = s
        out.append(sar)
    return {'sar': out}


# ------------------------------------------------------------------ momentum and oscillators
@ref
def RelativeStrengthIndex(d, period=14):
    c = d['close']
    n = len(c)
    ch = sub(c, shift(c, 1))
    up, dn = [pos(v) for v in ch[1:]], [pos(-v) for v in ch[1:]]
    u, w = wilder(up, period, 0), wilder(dn, period, 0)
    return {'rsi': [NAN] + [rs_index(a, b) for a, b in zip(u, w)]}


def rs_index(a, b):
    """100 - 100/(1+a/b) = 100 a/(a+b); 100 when there are no losses"""
    if a.is_nan_const() or b.is_nan_const():
        return NAN
    return 100 * a / (a + b)


@ref
def RelativeMomentumIndex(d, period=8, momentum_period=4):
    c = d['close']
    m = momentum_period
    ch = sub(c, shift(c, m))[m:]
    u, w = wilder([pos(v) for v in ch], period, 0), wilder([pos(-v) for v in ch], period, 0)
    return {'rmi': [NAN] * m + [rs_index(a, b) for a, b in zip(u, w)]}


@ref
def IntradayMomentumIndex(d, period=14):
    ch = sub(d['close'], d['open'])
    u, w = rsum([pos(v) for v in ch], period), rsum([pos(-v) for v in ch], period)
    return {'imi': zipw(rs_index, u, w)}


@ref
def ChandeMomentumOscillator(d, period=5):
    c = d['close']
    ch = sub(c, shift(c, 1))
    u = [NAN] + rsum([pos(v) for v in ch[1:]], period)
    w = [NAN] + rsum([pos(-v) for v in ch[1:]], period)
    return {'cmo': zipw(lambda a, b: 100 * (a - b) / (a + b), u, w)}


@ref
def CommodityChannelIndex(d, period=5):
    tp = typical(d)

    def f(w):
        m = mean(w)
        md = ssum([abs(v - m) for v in w]) / period
        return (w[-1] - m) / (lift(F(15, 1000)) * md)
    return {'cci': wins(tp, period, f)}


@ref
def StochasticOscillator(d, k_periods=14, k_slowing_periods=1, d_periods=3, d_method='simple'):
    hh, ll = rmax(d['high'], k_periods), rmin(d['low'], k_periods)
    num, den = rsum(sub(d['close'], ll), k_slowing_periods), rsum(sub(hh, ll), k_slowing_periods)
    k = zipw(lambda a, b: 100 * a / b, num, den)
    return {'%K': k, '%D': sma(k, d_periods) if d_method == 'simple' else ema(k, d_periods)}


@ref
def StochasticMomentumIndex(d, period=5, smoothing_period=3, double_smoothing_period=3):
    hh, ll = rmax(d['high'], period), rmin(d['low'], period)
    dist = zipw(lambda c, a, b: c - (a + b) / 2, d['close'], hh, ll)
    n2 = ema(ema(dist, smoothing_period), double_smoothing_period)
    d2 = ema(ema(sub(hh, ll), smoothing_period), double_smoothing_period)
    return {'smi': zipw(lambda a, b: 200 * a / b, n2, d2)}


@ref
def WilliamsR(d, period=5):
    hh, ll = rmax(d['high'], period), rmin(d['low'], period)
    return {'wr': zipw(lambda c, a, b: -100 * (a - c) / (a - b), d['close'], hh, ll)}


@ref
def UltimateOscillator(d):
    pc = shift(d['close'], 1)
    th = zipw(lambda h, p: NAN if p.is_nan_const() else smax([h, p], 'max'), d['high'], pc)
    tl = zipw(lambda l, p: NAN if p.is_nan_const() else smax([l, p], 'min'), d['low'], pc)
    tr, bp = sub(th, tl), sub(d['close'], tl)
    a = [zipw(div, rsum(bp, k), rsum(tr, k)) for k in (7, 14, 28)]
    return {'uosc': zipw(lambda x, y, z: 100 * (4 * x + 2 * y + z) / 7, *a)}


@ref
def Momentum(d, period=12):
    return {'mom': zipw(lambda a, b: 100 * a / b, d['close'], shift(d['close'], period))}


@ref
def PriceRateOfChange(d, period=25):
    return {'prc': zipw(lambda a, b: 100 * (a - b) / b, d['close'], shift(d['close'], period))}


@ref
def PriceOscillator(d, long_ma=30, short_ma=10):
    return {'posc': zipw(lambda s, l: 100 * (s - l) / l, sma(d['close'], short_ma), sma(d['close'], long_ma))}


@ref
def MovingAverageConvergenceDivergence(d):
    m = sub(ema(d['close'], 12), ema(d['close'], 26))
    return {'macd': m, 'signal_line': ema(m, 9)}


@ref
def Qstick(d, period=8):
    return {'qstick': sma(sub(d['close'], d['open']), period)}


@ref
def DetrendedPriceOscillator(d, period=6):
    m = sma(d['close'], period)
    k = period // 2 + 1
    n = len(m)
    return {'dpo': [d['close'][i] - m[i + k] for i in range(n - k)]}


@ref
def MassIndex(d):
    e = ema(sub(d['high'], d['low']), 9)
    return {'mi': rsum(zipw(div, e, ema(e, 9)), 25)}


@ref
def RelativeVolatilityIndex(d, period=5):
    n = len(d['high'])
    rv = []
    for x in (d['high'], d['low']):
        ch = sub(x, shift(x, 1))
        sd = rstd(x, 10)
        up = [ite(ch[i] > 0, sd[i], ZERO) for i in range(9, n)]
        dn = [ite(ch[i] < 0, sd[i], ZERO) for i in range(9, n)]
        u, w = wilder(up, period, 0), wilder(dn, period, 0)
        rv.append([NAN] * 9 + zipw(lambda a, b: 100 * a / (a + b), u, w))
    return {'rvi': [NAN] * (8 + period) + [(a + b) / 2 for a, b in list(zip(*rv))[8 + period:]]}


@ref
def VerticalHorizontalFilter(d, period=5):
    c = d['close']
    ch = [NAN] + [abs(v) for v in sub(c, shift(c, 1))[1:]]
    return {'vhf': zipw(lambda a, b, s: (a - b) / s, rmax(c, period), rmin(c, period), rsum(ch, period))}


@ref
def RangeIndicator(d, range_period=5, smoothing_period=3):
    h, l, c = d['high'], d['low'], d['close']
    n = len(c)
    st = [NAN]
    for i in range(1, n):
        tr = smax([h[i] - l[i], h[i] - c[i - 1], c[i - 1] - l[i]], 'max')
        up = c[i] - c[i - 1]
        st.append(ite(up > 0, tr / up, tr))
    hi, lo = rmax(st, range_period), rmin(st, range_period)
    r = []
    for i in range(n):
        if hi[i].is_nan_const():
            r.append(NAN)
        else:
            w = hi[i] - lo[i]
            r.append(ite(w > 0, 100 * (st[i] - lo[i]) / w, 100 * (st[i] - lo[i])))
    return {'ri': ema(r, smoothing_period)}


@ref
def ProjectionOscillator(d, period=14):
    b = ProjectionBands(d, period)
    p = zipw(lambda c, u, l: 100 * (c - l) / (u - l), d['close'], b['upper_band'], b['lower_band'])
    return {'posc': p, 'trigger_line': ema(p, 3)}


@ref
def SwingIndex(d):
    o, h, l, c = d['open'], d['high'], d['low'], d['close']
    out = [NAN]
    for i in range(1, len(c)):
        num = (c[i] - c[i - 1]) + (c[i] - o[i]) / 2 + (c[i - 1] - o[i - 1]) / 4
        a, b = abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1])
        k = smax([a, b], 'max')
        r = smax([a, b, h[i] - l[i]], 'max') + abs(c[i - 1] - o[i - 1]) / 4
        s = 50 * (num / r) * (k / 3)
        out.append(smax([smax([s, lift(100)], 'min'), lift(-100)], 'max'))
    return {'swi': out}


# ------------------------------------------------------------------ volume
@ref
def AccumulationDistributionLine(d):
    return {'adl': [int_part(v) for v in cumsum(clv(d))]}


def int_part(v):
    return v.trunc()


@ref
def ChaikinOscillator(d):
    a = AccumulationDistributionLine(d)['adl']
    return {'co': sub(ema(a, 3), ema(a, 10))}


@ref
def ChaikinMoneyFlow(d, period=5):
    return {'cmf': zipw(div, rsum(clv(d), period), rsum(d['volume'], period))}


@ref
def OnBalanceVolume(d):
    c, v = d['close'], d['volume']
    out = [ZERO]
    for i in range(1, len(c)):
        out.append(out[-1] + ite(c[i] > c[i - 1], v[i], ite(c[i] < c[i - 1], -v[i], ZERO)))
    return {'obv': out}


def _volidx(d, when):
    c, v = d['close'], d['volume']
    out = [lift(1000)]
    for i in range(1, len(c)):
        out.append(ite(when(v[i], v[i - 1]), out[-1] * c[i] / c[i - 1], out[-1]))
    return out


@ref
def PositiveVolumeIndex(d):
    return {'pvi': _volidx(d, lambda a, b: a > b)}


@ref
def NegativeVolumeIndex(d):
    return {'nvi': _volidx(d, lambda a, b: a < b)}


@ref
def PriceAndVolumeTrend(d):
    c, v = d['close'], d['volume']
    return {'pvt': cumsum([ZERO] + [(c[i] - c[i - 1]) / c[i - 1] * v[i] for i in range(1, len(c))])}


@ref
def EaseOfMovement(d, period=40):
    mid = zipw(lambda h, l: (h + l) / 2, d['high'], d['low'])
    mm = sub(mid, shift(mid, 1))
    e = zipw(lambda m, h, l, v: m * 10000 * (h - l) / v, mm, d['high'], d['low'], d['volume'])
    return {'emv': e, 'emv_ma': sma(e, period)}


@ref
def MarketFacilitationIndex(d):
    return {'mfi': zipw(lambda h, l, v: (h - l) / v, d['high'], d['low'], d['volume'])}


@ref
def KlingerOscillator(d):
    h, l, c, v = d['high'], d['low'], d['close'], d['volume']
    n = len(c)
    t = [None] + [bool(h[i] + l[i] + c[i] > h[i - 1] + l[i - 1] + c[i - 1]) for i in range(1, n)]
    dm = sub(h, l)
    cm, vf = ZERO, [NAN]
    for i in range(1, n):
        cm = cm + dm[i] if t[i] == t[i - 1] else dm[i - 1] + dm[i]
        vf.append(v[i] * abs(2 * (dm[i] / cm) - 1) * (100 if t[i] else -100))
    return {'ko': sub(ema(vf, 34), ema(vf, 55))}


@ref
def VolumeOscillator(d, long_period=5, short_period=2):
    return {'vosc': sub(sma(d['volume'], short_period), sma(d['volume'], long_period))}


@ref
def VolumeRateOfChange(d, period=5):
    return {'vrc': zipw(lambda a, b: 100 * (a - b) / b, d['volume'], shift(d['volume'], period))}


@ref
def WilliamsAccumulationDistribution(d):
    h, l, c = d['high'], d['low'], d['close']
    out = [NAN]
    for i in range(1, len(c)):
        th, tl = smax([h[i], c[i - 1]], 'max'), smax([l[i], c[i - 1]], 'min')
        out.append(ite(c[i] > c[i - 1], c[i] - tl, ite(c[i] < c[i - 1], c[i] - th, ZERO)))
    return {'wad': out}


# ------------------------------------------------------------------ trend, regression, volatility
@ref
def LinearRegressionIndicator(d, period=14):
    return {'lri': wins(d['close'], period, lambda w: linreg(w)[0])}


@ref
def LinearRegressionSlope(d, period=14):
    return {'lrs': wins(d['close'], period, lambda w: linreg(w)[1])}


@ref
def ForecastOscillator(d, period=14):
    f = shift(tsf(d['close'], period), 1)
    return {'fosc': zipw(lambda c, x: 100 * (c - x) / c, d['close'], f)}


def true_range(d):
    h, l, c = d['high'], d['low'], d['close']
    return [h[0] - l[0]] + [smax([h[i] - l[i], h[i] - c[i - 1], c[i - 1] - l[i]], 'max') for i in range(1, len(c))]


@ref
def AverageTrueRange(d):
    return {'atr': wilder(true_range(d), 14, 0)}


@ref
def DirectionalMovementIndex(d, got=None):
    h, l, c = d['high'], d['low'], d['close']
    n = len(c)
    tr = true_range(d)[1:]
    pdm, ndm = [], []
    for i in range(1, n):
        up, dn = h[i] - h[i - 1], l[i - 1] - l[i]
        pdm.append(ite((up > dn) & (up > 0), up, ZERO))
        ndm.append(ite((dn > up) & (dn > 0), dn, ZERO))

    def total(x):     # Wilder's running total: first 13 changes, then s - s/14 + x
        out = [NAN] * n
        s = out[13] = ssum(x[:13])
        for i in range(14, n):
            s = out[i] = s - s / 14 + x[i - 1]
        return out
    t, p, m = total(tr), total(pdm), total(ndm)
    t[13] = NAN
    pdi, ndi = zipw(lambda a, b: 100 * a / b, p, t), zipw(lambda a, b: 100 * a / b, m, t)
    own = (pdi, ndi)
    if got:      # the later columns in terms of the earlier ones
        pdi, ndi = got['+di'], got['-di']
    dx = zipw(lambda a, b: 100 * abs(a - b) / abs(a + b) if not a.is_nan_const() else NAN, pdi, ndi)
    pdi, ndi = own
    odx = dx
    if got:
        dx = got['dx']
    adx = [NAN] * n
    if n > 27:
        s = adx[27] = ssum([ite(SymBool(v.nan), ZERO, v) for v in dx[14:28]]) / 14      # undefined dx (no movement at all) counts as 0
        for i in range(28, n):
            s = adx[i] = (13 * (got['adx'][i - 1] if got else s) + dx[i]) / 14
    oadx = adx
    if got:
        adx = got['adx']
    adxr = [(adx[i] + adx[i - 13]) / 2 if i >= 40 else NAN for i in range(n)]
    return {'+di': pdi, '-di': ndi, 'dx': odx, 'adx': oadx, 'adxr': adxr}


@ref
def VolatilityChaikins(d, ema_period=10, change_period=10):
    e = ema(sub(d['high'], d['low']), ema_period)
    return {'vch': zipw(lambda a, b: 100 * (a - b) / b, e, shift(e, change_period))}


@ref
def StandardDeviation(d, period=20):
    return {'sd': rstd(d['close'], period)}


@ref
def Performance(d, mode='LONG', target=0.05):
    c = d['close']
    return {'prf': [(v - c[0]) / c[0] for v in c], 'target_' + mode: [lift(target)] * len(c)}
