from symx.specs import IND

from .params import PARAMS
from .plan_rel import layouts
from .rows import MINROWS, minrows


def o(fn, **k):
    k.setdefault('budget', 60)
    return dict(fn='checks.inputs:' + fn, **k)


def kwid(kw):
    return ','.join('%s=%s' % x for x in kw.items())


def fill_obs(tier):
    out = []
    n = 5 if tier == 'thorough' else 4
    orders = {'sorted': None, 'reversed': list(range(n))[::-1], 'mixed': [2, 0, 3, 1] + list(range(4, n))}
    for nm in [None] + list(IND):
        for f in (None, True, False):
            if nm is None and f is not None:
                continue
            for k, od in orders.items():
                if f is True and k != 'mixed':
                    continue
                out.append(o('run_fill', id='%s every gap, fill=%s, rows %s' % (nm or 'fillMissingValues', f, k), ind=nm, n=n, fill=f, order=od))
    for nm in [None] + list(IND):
        for i, (n3, cal) in enumerate(((12, 'gaps'), (40, 'intraday'))):
            for f in (None, False):
                if nm is None and f is not None:
                    continue
                for k, od in (('sorted', None), ('rotated', list(range(n3 // 3, n3)) + list(range(n3 // 3)))):
                    if k == 'rotated' and (f is None) == (i == 0) and nm is not None:
                        continue
                    out.append(o('run_fill', id='%s every gap of %d rows, fill=%s, rows %s, %s' % (nm or 'fillMissingValues', n3, f, k, cal),
                                 ind=nm, n=n3, fill=f, order=od, cal=cal, inf=n3 == 12))
    for i, nm in enumerate([None] + list(IND)):
        n4, (a, b) = ((400, (2, 390)), (131, (20, 131)), (300, (0, 299)), (131, (1, 130)))[i % 4]
        for f in (None, False):
            if nm is None and f is not None:
                continue
            out.append(o('run_fill', id='%s rows %d to %d of %d missing, fill=%s' % (nm or 'fillMissingValues', a, b, n4, f), ind=nm, n=n4, fill=f,
                         order=None if i % 2 else list(range(n4))[::-1], gone=[a, b]))
    for nm in IND:
        kw = IND[nm][2]
        cols = IND[nm][0]
        m = minrows(nm, kw)
        n2 = max(m, 4) + (2 if nm == 'DetrendedPriceOscillator' else 0)
        heavy = nm in ('ParabolicSAR', 'SwingIndex', 'RangeIndicator')
        opt = dict(conc=n2 - (1 if heavy or n2 > 10 else 3))
        if nm in ('AccumulationDistributionLine', 'ChaikinOscillator'):
            opt['strict'] = True
        last = [n2 - 1, n2 - 2, n2 - 3, n2 - 4]
        for lab, holes, od in (('first row', [[c, 0] for c in cols], None), ('last row', [[c, n2 - 1] for c in cols], None),
                               ('two before last', [[cols[0], n2 - 2], [cols[0], n2 - 3]], list(range(n2))[::-1]),
                               ('scattered', [[c, (2 * j + 1) % n2] for j, c in enumerate(cols)] + [[cols[-1], 0]], list(range(1, n2)) + [0])):
            out.append(o('run_filled_values', id='%s(%s) n=%d values, gaps: %s' % (nm, kwid(kw), n2, lab), ind=nm, kwargs=kw, n=n2, holes=holes,
                         order=od, opt=opt))
    return out


def order_obs(tier):
    """C05: the frame the calculation works on, for every row order"""
    out = []
    cals = ('gaps', 'intraday', 'tz', 'years')
    for i, nm in enumerate(IND):
        for f in (True, False):
            out.append(o('run_fill', id='%s every order of 5 rows, fill=%s' % (nm, f), ind=nm, n=5 if tier != 'thorough' else 6, fill=f, perm='any',
                         gap=False, cal=cals[(i + f) % 4], every=1000))
            out.append(o('run_fill', id='%s special orders of 24 rows, fill=%s' % (nm, f), ind=nm, n=24, fill=f, perm='family', gap=False,
                         cal=cals[(i + 2 + f) % 4], every=1000))
    return out


def accept_obs(tier):
    return [o('run_accept', id='%s every structure' % nm, ind=nm, every=60) for nm in IND]


def params_obs(tier):
    from .params import KINDS
    out = []

    def add(nm, kinds):
        out.append(o('run_params', id='%s %s' % (nm, ','.join('%s:%s' % (k, v if isinstance(v, str) else v[1]) for k, v in kinds.items())),
                     ind=nm, kinds=kinds, budget=40))
    for nm, ps in PARAMS.items():
        base = {}
        ch = [(p, lo) for p, r, lo in ps if r == 'choice']
        combos = [{}]
        for p, lo in ch:
            combos = [dict(c, **{p: ['=', v]}) for c in combos for v in lo]
        for c in combos:
            add(nm, dict(c))
        for p, r, lo in ps:
            for k in KINDS:
                if r == 'choice':
                    continue
                for c in combos[:1] if r != 'target' else combos:
                    add(nm, dict(c, **{p: k}))
            if r == 'choice':
                for v in ('', 'nope', lo[0].swapcase(), lo[0] + ' ', None, 1, True, [lo[0]], 1.5):
                    for c in combos[:1]:
                        add(nm, dict(c, **{p: ['=', v]}))
        # two wrong at once
        if len(ps) > 1:
            for k in ('str', 'real', 'nan'):
                add(nm, {p: (k if r not in ('choice',) else ['=', 'nope']) for p, r, lo in ps})
        for k in ('true', 'false', 'none', 'int', 'str', 'npint'):
            add(nm, {'fill_missing_values': k})
    return out


def rows_obs(tier):
    out = []

    def add(nm, kw, n, **k):
        lab = ' '.join('%s=%s' % x for x in k.items() if x[0] not in ('order', 'cap', 'fixed'))
        out.append(o('run_rows', id='%s(%s) n=%d %s%s' % (nm, kwid({a: b for a, b in kw.items() if isinstance(b, (str, float))}), n, lab,
                                                          ' rows reversed' if k.get('order') else ''), ind=nm, kwargs=kw, n=n, **k))
    for nm in IND:
        cols, dk, sk = IND[nm]
        ps = PARAMS.get(nm, [])
        m = minrows(nm, sk)
        n = m + 2
        fx = [p for p, r, lo in ps if r == 'int']
        add(nm, sk, n, opt=dict(conc=n - 2, anysign=True), fixed=fx)
        add(nm, sk, n, opt=dict(conc=n - 2, vol0=True, style=5), fixed=fx)
        add(nm, sk, n, opt=dict(conc=n - 1, gaps=True), fill=False, fixed=fx)
        add(nm, sk, n, opt=dict(conc=n - 1, gaps=True), fill=True, fixed=fx)
        if nm in MINROWS or not [p for p in ps if p[1] == 'int'] or nm == 'Performance':
            m = minrows(nm, sk)
            for n in sorted({1, 2, 3, m - 2, m - 1, m, m + 1, m + 3} - {0, -1}):
                if n < 1:
                    continue
                add(nm, sk, n)
                if n >= m:
                    add(nm, sk, n, order=list(range(n))[::-1])
                    add(nm, sk, n, style=3)
            c = 1 if nm in ('ParabolicSAR', 'SwingIndex', 'KlingerOscillator', 'DirectionalMovementIndex') else 2
            for n in (m - 1, m, m + 1):
                if n > 0:
                    add(nm, sk, n, conc=max(0, n - c))
            continue
        sets = [sk]
        if nm == 'MovingAverage':
            sets = [dict(period=3, ma_type=t) for t in ('simple', 'exponential', 'time_series', 'triangular', 'variable')]
        elif nm == 'StochasticOscillator':
            sets = [dict(k_periods=3, k_slowing_periods=s, d_periods=2, d_method=d) for s in (1, 3) for d in ('simple', 'exponential')]
        for kw in sets:
            ints = [p for p, r, lo in ps if r == 'int']
            cap = dict(cap={p: 4 for p in ints if 'smoothing' in p}) if nm == 'StochasticMomentumIndex' else {}
            if kw.get('ma_type') == 'variable':
                for n in (1, 10, 21, 22, 23, 25):
                    add(nm, kw, n, style=3)
                continue
            extra = 10 if nm == 'RelativeVolatilityIndex' else 0
            for n in (1, 2, 3, 4, 5):
                add(nm, kw, n + extra, **cap)
            add(nm, kw, 6 + extra, style=3, **cap)
            add(nm, kw, 4 + extra, order=[3, 1, 0, 2] + list(range(4, 4 + extra)), **cap)
            if len(ints) == 1:
                add(nm, kw, 9 + extra, style=1)
                add(nm, kw, 21)
    return out


def lookup_obs(tier):
    out = []
    for nm in IND:
        kw = IND[nm][2]
        n = max(minrows(nm, kw), 3) + (2 if nm == 'DetrendedPriceOscillator' else 0)
        for lab, od in (('sorted', None), ('rows rotated', list(range(1, n)) + [0])):
            if n > 8 and od is None and tier != 'thorough':
                continue
            out.append(o('run_lookup', id='%s(%s) n=%d %s' % (nm, kwid(kw), n, lab), ind=nm, kwargs=kw, n=n, order=od, budget=90))
    return out


def graph_obs(tier):
    out = []
    for nm in IND:
        cols, dk, sk = IND[nm]
        for kw in [sk] + ([dict(period=3, ma_type='exponential')] if nm == 'MovingAverage' else []) + \
                ([dict(mode='SHORT', target=-0.1)] if nm == 'Performance' else []):
            m = minrows(nm, kw)
            for n in sorted({max(m, 2), m + 3}):
                n = n + (4 if nm == 'DetrendedPriceOscillator' else 0)
                out.append(o('run_graph', id='%s(%s) n=%d' % (nm, kwid(kw), n), ind=nm, kwargs=kw, n=n,
                             conc=max(0, n - 2) if nm in ('ParabolicSAR', 'SwingIndex', 'RangeIndicator') or n > 8 else 0))
        n = (130, 520, 131, 1100)[len(nm) % 4] if minrows(nm, sk) < 100 else 300
        if nm in ('Momentum', 'BollingerBands', 'VolumeOscillator', 'IchimokuCloud') or tier == 'thorough':
            n = 1300
        out.append(o('run_graph', id='%s(%s) n=%d long' % (nm, kwid(sk), n), ind=nm, kwargs=sk, n=n, conc=n, plainlong=n))
    for sig in ([('buy', 'hold', 'sell')[(i * i + i // 3) % 3] for i in range(260)], ['hold', 'buy', 'sell'], ['buy', 'buy', 'hold', 'sell'], ['sell', 'sell', 'buy', 'hold'], ['hold']):
        out.append(o('run_simgraph', id='simulation graph %s' % ('-'.join(sig) if len(sig) < 10 else '%d days' % len(sig)), n=len(sig), signals=sig))
    return out


def caller_obs(tier):
    out = []
    for nm in IND:
        cols, dk, kw = IND[nm]
        m = minrows(nm, kw)
        n = max(m, 3) + (2 if nm == 'DetrendedPriceOscillator' else 0)
        opt = dict(conc=n - 1)
        if nm in ('AccumulationDistributionLine', 'ChaikinOscillator'):
            opt['strict'] = True
        lays = [('plain', dict(order=None, cols=[[c, c] for c in cols]))] + [
            x for x in layouts(nm, n, tier) if x[0] in ('odd rows last, columns reversed', 'upper case', 'text, flags and dates between') or
            tier == 'thorough']
        for lab, lay in lays:
            for fill in (None, False):
                if fill is False and lab not in ('plain', 'odd rows last, columns reversed'):
                    continue
                for hl, holes in (('', []), ('gaps', [[cols[0], 1], [cols[-1], n - 1], [cols[0], 0]])):
                    if hl and (fill is False or lab == 'upper case'):
                        continue
                    sim = not hl and n < 12 or lab == 'plain' and fill is None and not hl
                    out.append(o('run_caller', id='%s(%s) n=%d %s fill=%s %s' % (nm, kwid(kw), n, lab, fill, hl), ind=nm, kwargs=kw, n=n, lay=lay,
                                 holes=holes, fill=fill, opt=opt, sim=sim))
    return out


PLANS = {
    'C06': dict(obs=fill_obs, bounds='4 rows (thorough 5): every subset of missing cells in all required columns, any real values, 3 row orders; '
                                     'gap runs inside 12 and 40 rows; plus 4 gap patterns through the whole calculation of each indicator'),
    'C07': dict(obs=accept_obs, bounds='every indicator: 8 kinds of container, 10 kinds of index, 0/1/3 rows, 11 states of each required column, '
                                       '3 sets of extra columns (all combinations up to one bad column)'),
    'C08': dict(obs=params_obs, bounds='every integer and every real value of every parameter, 9 other kinds of value; at most all parameters '
                                       'of the same wrong kind at once'),
    'C09': dict(obs=rows_obs, bounds='every whole-number parameter value (unbounded) for 1..6, 9 and 21 rows; fixed-minimum indicators '
                                     'around their minimum; data concrete, and symbolic in the last rows where stated'),
    'C20': dict(obs=lookup_obs, bounds='every indicator, minimum rows (at least 3) on a calendar with gaps; every day from two before to two after '
                                       'the data and 4 far ones, in 8 notations, and 12 non-dates; any values, any missing'),
    'C21': dict(obs=graph_obs, bounds='every indicator, minimum and minimum+3 rows, any indicator values, any prices in the symbolic rows; '
                                      '4 simulations'),
    'C23': dict(obs=caller_obs, bounds='every indicator, minimum rows (at least 3), last row symbolic, 4 layouts, with and without gaps and filling'),
}
