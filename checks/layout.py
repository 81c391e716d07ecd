"""Input frames in other shapes (row order, column order, names, extra columns); used on symbolic and on real cells."""
import datetime
import decimal
import fractions

import numpy as np
import pandas as pd

EXTRA = {
    'num': lambda n: [float(7 * i % 5) for i in range(n)],
    'zero': lambda n: [0.0] * n,
    'int': lambda n: list(range(n)),
    'text': lambda n: ['x%d' % i for i in range(n)],
    'none': lambda n: [None] * n,
    'bool': lambda n: [i % 2 == 0 for i in range(n)],
    'date': lambda n: list(pd.date_range('2019-05-05', periods=n)),
    'gaps': lambda n: [float('nan') if i % 2 else 1.0 for i in range(n)],
}


def calendar(name, n):
    """ascending dates"""
    if name in (None, 'days'):
        return pd.date_range('2020-01-01', periods=n, freq='D')
    if name == 'gaps':
        return pd.DatetimeIndex([pd.Timestamp('2019-12-20') + pd.Timedelta(days=i + 2 * (i // 3) + 11 * (i // 5)) for i in range(n)])
    if name == 'intraday':
        return pd.DatetimeIndex([pd.Timestamp('2020-03-28 23:30') + pd.Timedelta(minutes=17 * i) for i in range(n)])
    if name == 'ticks':
        return pd.DatetimeIndex([pd.Timestamp('2020-03-30 09:30:00.1') + pd.Timedelta(milliseconds=130 * i + 400 * (i // 4)) for i in range(n)])
    if name == 'tz':
        return pd.date_range('2020-03-27', periods=n, freq='D', tz='Europe/Athens')
    if name == 'years':
        return pd.DatetimeIndex([pd.Timestamp('1969-12-30') + pd.Timedelta(days=400 * i) for i in range(n)])
    raise ValueError(name)


def off_by(kind, idx):
    """'at:row:nanoseconds[:row:nanoseconds]...': the dates with those rows moved"""
    d, w = list(idx), kind.split(':')[1:]
    for i, k in zip(w[::2], w[1::2]):
        d[int(i)] = d[int(i)] + pd.Timedelta(int(k), unit='ns')
    return pd.DatetimeIndex(d)


def hidden(kind, p, nan):
    """'gap:a:b[:a:b]...': the prices with those rows missing, and filled again"""
    w = [int(x) for x in kind.split(':')[1:]]
    gone = {i for a, b in zip(w[::2], w[1::2]) for i in range(a, b)}
    known = [i for i in range(len(p)) if i not in gone]
    src = [max([j for j in known if j <= i], default=known[0]) for i in range(len(p))]
    return [nan if i in gone else x for i, x in enumerate(p)], [p[j] for j in src]


def related(kind, rows, kw, kw2, other):
    """other uses of the library next to (rows, kw): -> rows, kw; rows: column -> symbolic or real cells"""
    n = len(next(iter(rows.values())))
    if kind == 'middle':            # the same days, another value on one of them
        k = n // 2
        return {c: list(v[:k]) + [v[k] * (1.5 if c != 'volume' else 3)] + list(v[k + 1:]) for c, v in rows.items()}, kw
    if kind == 'first':
        return {c: [v[0] * (1.25 if c != 'volume' else 3)] + list(v[1:]) for c, v in rows.items()}, kw
    if kind == 'params':            # the same data, other parameters
        return rows, kw2
    if kind == 'shorter':
        return {c: list(v[:-1]) for c, v in rows.items()}, kw
    return other, kw                # other data


def family(n):
    """row orders which a careless look at the dates takes for sorted, and others"""
    idn = list(range(n))
    out = [idn, idn[::-1], idn[1:] + idn[:1], idn[-1:] + idn[:-1], idn[::2] + idn[1::2], idn[:1] + idn[1:-1][::-1] + idn[-1:],
           idn[:1] + idn[2:-1] + idn[1:2] + idn[-1:], idn[n // 2:] + idn[:n // 2], [x for p in zip(idn[1::2], idn[::2]) for x in p] + idn[n - n % 2:]]
    for i in range(n - 1):
        out.append(idn[:i] + [i + 1, i] + idn[i + 2:])
    for i in range(0, n - 3, 5):
        w = list(idn)
        w[i], w[i + 3] = w[i + 3], w[i]
        out.append(w)
    return out


def name_of(x):
    """names in JSON: strings, numbers, or ['tuple', ...]"""
    return tuple(x[1:]) if isinstance(x, list) else x


def frame(cells, lay, index, series):
    """cells: column -> values in date order; lay: order (positions), cols [[name, source]]"""
    n = len(index)
    od = lay.get('order') or list(range(n))
    idx = index[od]
    names, data = [], []
    for nm, src in lay['cols']:
        names.append(name_of(nm))
        if src in EXTRA:
            v = EXTRA[src](n)
            data.append(pd.Series([v[i] for i in od], index=idx))
        else:
            data.append(series([cells[src][i] for i in od], idx))
    df = pd.DataFrame(dict(enumerate(data)), index=idx)
    cols = pd.Index(names, tupleize_cols=False) if any(isinstance(x, tuple) for x in names) else names
    df.columns = cols
    return df


def plain(cols):
    return dict(order=None, cols=[[c, c] for c in cols])


def make_input(cols, box, index, rows, state, bad, extras):
    """the input of one choice of structure"""
    if box == 'none':
        return None
    if box == 'list':
        return [1.0, 2.0]
    if box == 'dict':
        return {c: [1.0] for c in cols}
    if box == 'array':
        return np.array([[1.0] * len(cols)])
    if box == 'text':
        return 'input_data'
    if box == 'class':
        return pd.DataFrame
    d = pd.date_range('2020-01-01', periods=rows)
    idx = {'asc': lambda: d, 'desc': lambda: d[::-1], 'tz': lambda: pd.date_range('2020-01-01', periods=rows, tz='UTC'),
           'range': lambda: pd.RangeIndex(rows), 'text': lambda: pd.Index(['r%d' % i for i in range(rows)], dtype=object),
           'period': lambda: pd.period_range('2020-01-01', periods=rows, freq='D'),
           'objects': lambda: pd.Index([x.date() for x in d], dtype=object),
           'timedelta': lambda: pd.to_timedelta(range(rows), unit='D'),
           'daytext': lambda: pd.Index([str(x.date()) for x in d], dtype=object),
           'multi': lambda: pd.MultiIndex.from_arrays([d, list(range(rows))])}[index]()
    if box == 'series':
        return pd.Series([1.0] * rows, index=idx)
    base = {'high': 12.0, 'low': 8.0, 'open': 9.0, 'close': 10.0, 'volume': 500.0}
    out = []
    for c in cols:
        st = state if c == bad else 'float'
        v = [base[c] + i for i in range(rows)]
        s = {'float': lambda: pd.Series(v, index=idx, dtype=float), 'int': lambda: pd.Series([int(x) for x in v], index=idx, dtype='int64'),
             'float32': lambda: pd.Series(v, index=idx, dtype='float32'), 'flags': lambda: pd.Series([True] * rows, index=idx, dtype=bool),
             'gaps': lambda: pd.Series([float('nan')] + v[1:] if rows else [], index=idx, dtype=float),
             'mixed': lambda: pd.Series(v, index=idx, dtype=float), 'absent': lambda: None,
             'text': lambda: pd.Series(['x'] * rows, index=idx, dtype=object),
             'objects': lambda: pd.Series(v, index=idx, dtype=object),
             'dates': lambda: pd.Series(pd.date_range('2020-01-01', periods=rows), index=idx),
             'category': lambda: pd.Series(['a'] * rows, index=idx, dtype='category'),
             'levels': lambda: pd.Series(pd.Categorical(v), index=idx),
             'decimals': lambda: pd.Series([decimal.Decimal(str(x)) for x in v], index=idx, dtype=object),
             'fractions': lambda: pd.Series([fractions.Fraction(x) for x in v], index=idx, dtype=object),
             'whole objects': lambda: pd.Series([int(x) for x in v], index=idx, dtype=object),
             'figures': lambda: pd.Series([str(x) for x in v], index=idx, dtype=object),
             'strings': lambda: pd.Series([str(x) for x in v], index=idx, dtype='string'),
             'spans': lambda: pd.Series(pd.to_timedelta(v, unit='D'), index=idx),
             'nullable': lambda: pd.Series([int(x) for x in v], index=idx, dtype='Int64'),
             'nullable gaps': lambda: pd.Series([None] + [int(x) for x in v[1:]] if rows else [], index=idx, dtype='Int64'),
             'nullable float': lambda: pd.Series(v, index=idx, dtype='Float64'),
             'unsigned': lambda: pd.Series([int(x) for x in v], index=idx, dtype='uint16')}[st]()
        if s is not None:
            out.append((c[0].upper() + c[1:-1] + c[-1].upper() if st == 'mixed' else c, s))
    if extras == 'text':
        out.insert(0, ('note', pd.Series(['x'] * rows, index=idx, dtype=object)))
    elif extras == 'many':
        out.insert(1, (7, pd.Series([1] * rows, index=idx)))
        out += [('X', pd.Series(['y'] * rows, index=idx, dtype=object)), ('x', pd.Series([0.5] * rows, index=idx)),
                ('when', pd.Series(pd.date_range('2020-01-01', periods=rows), index=idx))]
    df = pd.DataFrame({i: s for i, (_, s) in enumerate(out)}, index=idx)
    df.columns = [nm for nm, _ in out]
    return df


def construct(cls, df, kw, how):
    """with keywords, by position, or leaving out the arguments (which are the default values)"""
    return cls(df) if how == 'defaults' else cls(df, *kw.values()) if how == 'position' else cls(df, **kw)


def ask_value(day, form):
    t = pd.Timestamp(day)
    return {'text': lambda: day, 'slashed': lambda: day.replace('-', '/'), 'stamp': lambda: t, 'date': lambda: t.date(),
            'dt64': lambda: t.to_datetime64(), 'datetime': lambda: datetime.datetime(t.year, t.month, t.day),
            'noon': lambda: day + ' 12:00', 'compact': lambda: day.replace('-', ''), 'midnight': lambda: day + 'T00:00:00',
            'words': lambda: t.strftime('%d %B %Y'), 'aware': lambda: t.tz_localize('UTC')}[form]() if form not in NEAR else t + NEAR[form]


NEAR = {'1ns later': pd.Timedelta(1, 'ns'), '1ns earlier': pd.Timedelta(-1, 'ns'), '900ns later': pd.Timedelta(900, 'ns'),
        '1us later': pd.Timedelta(1, 'us'), '1us earlier': pd.Timedelta(-1, 'us'), '1ms later': pd.Timedelta(1, 'ms'),
        '1s later': pd.Timedelta(1, 's'), '1s earlier': pd.Timedelta(-1, 's'), '1min later': pd.Timedelta(1, 'min'),
        '1h earlier': pd.Timedelta(-1, 'h'), '23h later': pd.Timedelta(23, 'h')}


def asked(day, form):
    """the instant asked for, None when it is in another time zone system"""
    if form == 'aware':
        return None
    return pd.Timestamp(day) + (pd.Timedelta(hours=12) if form == 'noon' else NEAR.get(form, pd.Timedelta(0)))


def par_plain(kind, v):
    """a constructor argument of the given kind"""
    return {'int': lambda: int(v), 'real': lambda: float(v), '=': lambda: v, 'true': lambda: True, 'false': lambda: False,
            'none': lambda: None, 'str': lambda: '3', 'list': lambda: [3], 'nan': lambda: float('nan'), 'npint': lambda: np.int64(3),
            'complex': lambda: 3j, 'inf': lambda: float('inf')}[kind]()
