import itertools

from symx.specs import IND
from .rows import minrows

S = ('buy', 'sell', 'hold')


def ledger_obs(what):
    def f(tier):
        th = tier == 'thorough'
        out = []

        def add(n, head, cap, rounds=None, **k):
            hd = '-'.join(head) if len(head) < 9 else '%d random' % len(head)
            out.append(dict(id='%s n=%d head=%s cap=%s rounds=%s%s' % (what, n, hd, cap, rounds, ' %s' % k if k else ''),
                            fn='checks.simulation:run', n=n, head=list(head), cap=cap, what=what, rounds=rounds,
                            budget=600 if th else 90, **k))
        for cap in ('none', 'sym'):
            for n in (1, 2, 3):
                add(n, (), cap)
                if n > 1:
                    add(n, (), cap, sign='0+')      # worthless stock
            add(4, ('buy', 'sell'), cap, sign='0+')
            d0 = ('hold',)
            for s1 in S:
                for s2 in S:
                    add(4 if not th else 5, d0 + (s1, s2), cap)
                    if s1 != 'hold' and s2 != 'hold':
                        for s3 in ('buy', 'sell'):
                            add(5, ('buy', s1, s2, s3), cap)
            for h in (('buy', 'buy', 'buy', 'buy', 'sell', 'hold'), ('sell', 'sell', 'sell', 'buy', 'sell', 'buy'),
                      ('hold', 'buy', 'sell', 'buy', 'sell', 'hold')):
                if th or h[:3] != ('sell', 'sell', 'sell'):
                    add(6, h, cap)
                if th:
                    add(7, h, cap)
        # long histories (the past concrete), other calendars, another simulation before
        import random
        for n, free, cal, style in ((45, 2, 'gaps', 1), (45, 1, 'intraday', 4), (33, 2, 'tz', 2), (130, 1, 'years', 3)) + (
                ((400, 1, 'gaps', 4), (60, 3, 'days', 1)) if th else ()):
            r = random.Random(n + style)
            head = [r.choice(('buy', 'sell', 'hold', 'buy')) for _ in range(n - 1)]
            for cap, f in (('none', None), (100 * n // 3, 1.25)):
                add(n, head, cap, factor=f or 1.5, pre=n - free, cal=cal, style=style, decoy=True, seed=n)
        for cal in ('intraday', 'years'):
            add(3, (), 'sym', cal=cal, decoy=True)
        if what == 'stats':
            for r in (0, 1, 2, 3):
                add(4, (), 'sym', r)
        return out
    return f


BND = ('up to 5 days (6 for selected signal histories), every signal sequence of the forked days, every positive price path (zero allowed up to 4 days), '
       'cap any positive real or none, short factor any real >= 1')


def replay_obs(tier):
    from .plan_signals import P17, P18, P19, kws
    out = []

    def add(name, kw, n, mode, order=None, cal=None, fixed=False, **opt):
        out.append(dict(id='%s(%s) n=%d %s%s%s%s%s' % (name, ','.join('%s=%s' % x for x in kw.items()), n, mode, ' fixed' if fixed else '',
                                                     ' order' if order else '', ' %s' % opt if opt else '', cal or ''), order=order, cal=cal, fixed=fixed,
                        fn='checks.simulation:run_replay', ind=name, kwargs=kw, n=n, mode=mode, opt=opt, budget=60 if n < 300 else 150))
    for nm in P17 + P18 + P19:
        for kw in kws(nm)[:1]:
            m = minrows(nm, kw)
            n = max(m, 3)
            if n <= 4:
                add(nm, kw, n, 'stub', order=list(range(n))[::-1], conc=0)
            c = max(0, n - (2 if n <= 6 else 1))
            add(nm, kw, n, 'real', conc=c)
            if n <= 6:
                add(nm, kw, n + 2, 'real', conc=n, order=[1, 0] + list(range(2, n + 2)), cal='gaps')
            add(nm, kw, n + 1, 'real', conc=n, order=[n] + list(range(n)), cal=('intraday', 'tz', 'years')[len(nm) % 3])
            # a long history with prescribed signals: which data each signal is asked on
            add(nm, kw, 300 if nm in ('OnBalanceVolume', 'RangeIndicator', 'Momentum') else 130, 'stub', fixed=True,
                conc=300, cal=('gaps', 'intraday', 'tz', 'years')[len(nm) % 4 if len(nm) != 15 else 1])
            if n <= 40:
                add(nm, kw, 45, 'real', conc=45 if nm not in ('MovingAverage', 'BollingerBands', 'RelativeStrengthIndex') else 44, cal='gaps', style=4)
    return out


def args_obs(tier):
    out = []
    closes = ('ok', 'shuffled', 'upper', 'extra', 'nan', 'nan_shuffled', 'short', 'long', 'moved', 'one_date', 'no_close', 'text', 'empty',
              'series', 'list', 'none', 'int_index')
    kinds = ('real', 'int', 'nan', 'none', 'str', 'list', 'true', 'false', 'obj', 'tuple', 'inf')

    def add(c, k, f, n=4):
        out.append(dict(id='close=%s cap=%s factor=%s%s' % (c, k, f, '' if n == 4 else ' n=%d' % n), fn='checks.simulation:run_args', close=c, cap=k,
                        factor=f, budget=40, n=n))
    for c in closes:
        add(c, 'real', 'real')
        add(c, 'none', 'int')
    for k in kinds:
        for f in kinds:
            add('ok', k, f)
    for n, g in ((60, '0:10:12:58'), (60, '0:59'), (60, '1:60'), (130, '3:125'), (130, '0:129')):
        add('gap:' + g, 'none', 'real', n)
    # one or two dates elsewhere, the others as they were
    H = 3600 * 10 ** 9
    for n in (2, 4, 30, 130):
        for i in {0, 1, n // 3, n // 2, n - 2, n - 1}:
            for d in (1, 7 * H, 24 * H * 400, -H, -1000):
                if d == 24 * H * 400 and i == n - 1 or d != 24 * H * 400:
                    add('at:%d:%d' % (i, d), 'none', 'int', n)
        for i in range(2, n - 2, max(1, n // 5)):
            add('at:%d:%d:%d:%d' % (i - 1, H, i, -H), 'none', 'real', n)
    return out


PLANS = {
    'C01': dict(obs=ledger_obs('ledger'), bounds=BND),
    'C02': dict(obs=ledger_obs('cap'), bounds=BND),
    'C03': dict(obs=ledger_obs('stats'), bounds=BND + '; also simulations closed after 0..3 of 4 rounds'),
    'C04': dict(obs=replay_obs, bounds='every indicator with small parameters, minimum rows .. +2 (at least 3); the last one or two input rows '
                                       'and every price symbolic; all signal histories where the signal is replaced by a free one'),
    'C22': dict(obs=args_obs, bounds='4 rows, one or two dates off by 1 ns .. 400 days at any of 6 places also with 2, 30 and 130 rows; maximum exposure and factor: any real, any integer, and 9 other kinds of value; 17 forms of '
                                     'price argument'),
}
