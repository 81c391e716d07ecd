"""Shared pieces of the checks: symbolic input frames, candidate inputs, comparison claims."""
import math
import random
import zlib
from fractions import Fraction as F

import numpy as np
import pandas as pd

from symx import core, loader, refs, specs
from symx.core import B, FALSE, NAN, TRUE, Sym, SymBool, band, bnot, bor, lift, psub, rel
from symx.core import pconst, padd, pscale
from symx.harness import Claim, Outcome, REPLAYER, decide

_T = None


def tti():
    """The current /repo source bound to the symbolic libraries (loaded once per worker)."""
    global _T
    if _T is None:
        _T = loader.SymTTI()
        _T.ind = _T.load('tti.indicators')
        _T.consts = _T.load('tti.utils.constants')
        _T.exc = _T.load('tti.utils.exceptions')
        _T.sim = _T.load('tti.utils.trading_simulation')
    return _T


def fresh_ind():
    """the indicators of another private copy of the library, which shares nothing with the first one"""
    T = loader.SymTTI()
    return T.load('tti.indicators')


from .layout import calendar, related
from .rows import MINROWS, NOMIN, minrows

TOL = {'RelativeStrengthIndex': 0.6, 'ProjectionOscillator': 0.1, 'ForecastOscillator': 0.02,
       'AccumulationDistributionLine': 1.01, 'ChaikinOscillator': 1.01, 'TimeSeriesForecast': 2.5e-4,
       'StochasticOscillator': 2.5e-4, 'MovingAverageConvergenceDivergence': 2.5e-4, 'BollingerBands': 2e-4,
       'MarketFacilitationIndex': 1e-9, 'MovingAverage': 2.5e-4}


def tol(name):
    return TOL.get(name, 1e-4)


# ------------------------------------------------------------------ input data
def dates(n, start='2020-01-01'):
    return pd.date_range(start, periods=n, freq='D')


def decoy_rows(name, n):
    """other data for another instance of the same indicator, used before the one under scrutiny"""
    b = walk(n, rng('decoy', name, n), 4)
    return {c: b[c] for c in specs.IND[name][0]}


def make_decoy(cls, rows, kw, cal):
    idx = calendar(cal, len(next(iter(rows.values()))))
    ti = cls(pd.DataFrame({c: pd.Series([lift(F(x)) for x in v], index=idx, dtype=object) for c, v in rows.items()}, index=idx), **kw)
    ti.getTiData(), ti.getTiSignal(), ti.getTiValue()
    return ti


def rng(*k):
    return random.Random(zlib.crc32(repr(k).encode()))


def walk(n, r, style=0):
    """concrete OHLCV rows (multiples of 1/8), low <= open,close <= high"""
    out = {k: [] for k in ('open', 'high', 'low', 'close', 'volume')}
    c = 60.0
    vol = 4000
    for i in range(n):
        if style == 1:
            o, c2 = c, c + r.randint(1, 16) / 8
        elif style == 2:
            o, c2 = c, max(10.0, c - r.randint(1, 6) / 8)
        elif style == 3:      # zig-zag with ties
            o, c2 = c, c + r.choice([-2.0, 0.0, 0.0, 2.0, 1.0, -1.0])
        elif style == 4:
            o, c2 = c + r.randint(-16, 16) / 8, c + r.randint(-40, 40) / 8
        else:
            o, c2 = c + r.randint(-8, 8) / 8, c + r.randint(-24, 24) / 8
        c2 = max(12.0, c2)
        o = max(12.0, o)
        hi = max(o, c2) + r.randint(0 if style in (3,) else 1, 16) / 8
        lo = min(o, c2) - r.randint(0 if style in (3,) else 1, 16) / 8
        if style == 3 and r.random() < .3:
            hi = lo = o = c2
        vol = max(100, vol + r.choice([-500, -300, 0, 200, 450, 700]))
        if style == 5 and r.random() < .3:
            vol = 0
        out['open'].append(o)
        out['high'].append(hi)
        out['low'].append(lo)
        out['close'].append(c2)
        out['volume'].append(float(vol))
        c = c2
        if style == 5 and vol == 0:
            vol = 1500
    return out


class Bounds(list):
    """assumptions for concrete inputs; wide: weaker ones, tried when the first exclude every counterexample"""
    wide = None

    def __add__(self, other):
        r = Bounds(list(self) + list(other))
        if self.wide is not None:
            r.wide = Bounds(list(self.wide) + list(other))
        return r


class Data:
    """n rows of symbolic input.  rows < conc are concrete; strict: high > low by construction; vol0: volume may be 0."""

    def __init__(self, cols, n, conc=0, strict=False, vol0=False, ohlc=False, concvol=False, style=0, seed=0, free=None,
                 flat=False, anysign=False, gaps=False):
        self.cols, self.n, self.conc, self.strict = list(cols), n, conc, strict
        self.free, self.anysign, self.gaps = free, anysign, gaps
        self.base = walk(n, rng('base', seed, style, n), style)
        if flat:
            for c in ('open', 'high', 'low', 'close'):
                self.base[c] = [50.0] * n
        self.d = {}
        self.vars = []
        for c in self.cols:
            self.d[c] = [self._cell(c, i, vol0) for i in range(n)]
        if strict and 'high' in self.d and 'low' in self.d:
            self.d['high'] = [self.d['low'][i] + core.var('w%d' % i, '+') if i >= conc else self.d['high'][i] for i in range(n)]
        self.vol0, self.concvol = vol0, concvol

    def _cell(self, c, i, vol0):
        sym = i >= self.conc or (c == 'volume' and self.free == 'volume')
        if self.free == 'price' and c == 'volume':
            sym = False
        if not sym:
            return lift(self.base[c][i])
        if self.gaps:
            return Sym(core.var('%s%d' % (c, i), None if self.anysign else '+').p, core.bvar('%s%d?' % (c, i)))
        if self.anysign:
            return core.var('%s%d' % (c, i), None)
        return core.var('%s%d' % (c, i), '0+' if c == 'volume' and vol0 else '+')

    def frame(self, names=None, index=None):
        idx = dates(self.n) if index is None else index
        return pd.DataFrame({c: pd.Series(list(self.d[c]), index=idx, dtype=object) for c in self.cols}, index=idx)

    def bounds(self, lo=8, hi=1000, vlo=1, vhi=100000):
        """realistic inputs: OHLC order and magnitudes (used for counterexamples, not for proofs)"""
        out = Bounds()
        if (lo, hi, vlo, vhi) == (8, 1000, 1, 100000):
            out.wide = self.bounds(F(1, 2), 10 ** 7, 0, 10 ** 16)
        d = self.d
        for c in self.cols:
            for i, x in enumerate(d[c]):
                if x.is_const():
                    continue
                a, b = (vlo if not self.vol0 else 0, vhi) if c == 'volume' else (lo, hi)
                out.extend([_le(pconst(F(a)), x.p), _le(x.p, pconst(F(b)))])
        out.extend(self.ohlc())
        return out

    def ohlc(self):
        out = []
        d = self.d
        for i in range(self.n):
            for c in ('open', 'close', 'high'):
                if c in d and 'low' in d:
                    out.append((d['low'][i] <= d[c][i]).b)
            for c in ('open', 'close'):
                if c in d and 'high' in d:
                    out.append((d[c][i] <= d['high'][i]).b)
        return [b for b in out if b is not TRUE]

    def assignment(self, rows):
        """rows: col -> floats; -> variable values"""
        v = {}
        for c in self.cols:
            for i in range(self.n):
                v['%s%d' % (c, i)] = F(rows[c][i])
        if self.strict and 'high' in self.d:
            for i in range(self.conc, self.n):
                v['w%d' % i] = F(rows['high'][i]) - F(rows['low'][i])
        return v

    def concrete(self, vals, bools=None, snap=True):
        """floats of the input under an assignment"""
        e = core.Env(vals, bools)
        out = {}
        for c in self.cols:
            out[c] = [fl(e, x, snap) for x in self.d[c]]
        return out

    def heuristics(self, k=18, seed=0):
        for s in range(k):
            rows = walk(self.n, rng('heur', seed, s, self.n), s % 6)
            if self.strict:
                for i in range(self.n):
                    if rows['high'][i] <= rows['low'][i]:
                        rows['high'][i] = rows['low'][i] + 0.5
            if not self.vol0:
                rows['volume'] = [x or 50.0 for x in rows['volume']]
            if s % 4 == 3:
                rows['volume'] = [x + (i % 4) * 0.25 for i, x in enumerate(rows['volume'])]
            yield self.assignment(rows), {}


def _le(a, b):
    return rel('<=', psub(a, b))


def fl(e, x, snap=True):
    x = lift(x)
    if e.b(x.nan):
        return None
    if x.pi is not FALSE and e.b(x.pi):
        return math.inf
    if x.ni is not FALSE and e.b(x.ni):
        return -math.inf
    v = e.p(x.p)
    f = float(v)
    if snap:
        s = round(f * 64) / 64
        if abs(s - f) < 1e-9:
            return s
    return f


# ------------------------------------------------------------------ claims
def close_claim(label, a, r, t, spec):
    """wherever the reference has a value, the code reports the same; during warm-up it reports none"""
    a, r = lift(a), lift(r)
    if r.is_nan_const():
        return Claim(label, a.nan, spec, bnot(a.nan))
    d = psub(a.p, r.p)
    tt = pconst(F(t).limit_denominator(10 ** 12))
    far = bor(rel('<', padd(tt, d)), rel('<', psub(tt, d)))
    if a.fin is r.fin or all(getattr(a, k) is FALSE or getattr(a, k) in (r.nan, r.pi, r.ni) for k in ('nan', 'pi', 'ni')):
        f = rel('==', d) if r.fin is TRUE else bor(bnot(r.fin), rel('==', d))      # a is finite wherever r is
    else:
        f = bor(bnot(r.fin), band(a.fin, rel('==', d)))
    rob = band(r.fin, bor(bnot(a.fin), far))
    return Claim(label, f, spec, rob)


def cfloat(x):
    """float of a constant Sym; None when it is not a finite value"""
    x = lift(x)
    if x.nan is TRUE or x.pi is TRUE or x.ni is TRUE:
        return None
    return float(x.p.const())


def ref_values(name, rows, kw):
    """reference on concrete rows -> {col: [float | 'nan' (warm-up) | None (undefined)]}"""
    d = {c: [lift(v) for v in vs] for c, vs in rows.items()}
    r = refs.REF[name](d, **kw)
    out = {}
    for c, vs in r.items():
        out[c] = ['nan' if v is NAN or (v.is_nan_const() and v is core.NAN) else cfloat(v) for v in vs]
    return out


def run_real(out, spec, label):
    """replay one concrete case; a deviation of the real code is a violation"""
    r = REPLAYER.run(spec)
    out.replays += 1
    if r.get('failed'):
        out.undecided.append('replay on the real code failed: ' + r.get('detail', '')[-160:])
    if r.get('reproduced'):
        out.violations.append(dict(label=label, detail=r.get('detail', ''), spec=spec))
        return True
    return False


def rels(b, acc):
    if b.kind == 'rel':
        acc[b.id] = b.args[1]
    elif b.kind == 'not':
        rels(b.args, acc)
    elif b.kind in ('and', 'or'):
        for x in b.args:
            rels(x, acc)
    return acc


def stable(bs, vals, bools):
    """no computed comparison sits on (or next to) equality, where floats may fall on either side"""
    e = core.Env(vals, bools)
    acc = {}
    for b in bs:
        rels(b, acc)
    for p in acc.values():
        if len(p.t) > 2 or any(len(m) > 1 or abs(c) != 1 for m, c in p.t.items() if m):
            try:
                if abs(e.p(p)) < F(1, 10 ** 6):
                    return False
            except (core.SymError, ZeroDivisionError):
                return False
    return True
