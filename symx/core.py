"""Symbolic scalars for executing /repo's real code.

A `Sym` is an extended real: a polynomial with rational coefficients over
hash-consed atoms, plus three formulas saying when it is NaN, +inf or -inf.
A `SymBool` is a formula over polynomial (in)equalities; asking Python for its
truth value forks the execution (see `Ctx`), asking z3 which sides are
feasible.  Nothing here looks at how the code under test is written.
"""
import math
import os
import sys
import time
from fractions import Fraction as F

import numpy as np
import z3

sys.setrecursionlimit(20000)
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)


class SymError(BaseException):
    """The engine cannot represent something (BaseException: code under test
    must not swallow it with `except Exception`)."""


class PathAbort(BaseException):
    """Path is infeasible / abandoned."""


class Budget(BaseException):
    """Exploration budget exhausted."""


# ---------------------------------------------------------------- rationals
_RAT = {}
TRACE = bool(os.environ.get('SYMX_TRACE'))
RAWTYPE = None            # the type the library is told when it asks for the one of Raw cells
ROUND_EXACT_FROM = 4     # rounding to this many decimals or more is read as exact


def rat(x):
    """Rational meant by a Python number.  Floats are read as the simplest
    nearby rational (0.015 -> 3/200, 2/15 -> 2/15), since the claims are about
    real arithmetic."""
    if isinstance(x, F):
        return x
    if isinstance(x, (bool, np.bool_)):
        return F(int(x))
    if isinstance(x, (int, np.integer)):
        return F(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        r = _RAT.get(x)
        if r is None:
            r = F(x)
            if r.denominator > 1:
                for lim in (10 ** 3, 10 ** 6):
                    c = r.limit_denominator(lim)
                    if abs(c - r) <= abs(r) * F(4, 10 ** 16):
                        r = c
                        break
                else:
                    c = F(repr(x))
                    if c.denominator <= 10 ** 12:
                        r = c
            _RAT[x] = r
        return r
    raise SymError('not a number: %r' % (type(x),))


# -------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'sign', 'name', '_z', 'integer')

    def __repr__(self):
        return self.name or '%s#%d' % (self.kind, self.id)


_atoms = []
_atom_key = {}


def new_atom(kind, key, args, sign=None, name=None, integer=False):
    k = (kind, key)
    a = _atom_key.get(k)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.args, a.sign, a.name, a._z, a.integer = kind, args, sign, name, None, integer
        _atoms.append(a)
        _atom_key[k] = a
    return a


def reset_atoms():
    """Forget everything (between independent obligations, to bound memory)."""
    _atoms.clear()
    _atom_key.clear()
    _bkey.clear()
    _bkey[('T',)] = TRUE
    _bkey[('F',)] = FALSE
    _maxform.clear()
    _minform.clear()
    _nonneg.clear()
    _facts_nonzero.clear()
    global _zctx_epoch
    _zctx_epoch += 1


_zctx_epoch = 0
_maxform = {}
_minform = {}
_nonneg = set()
_facts_nonzero = set()   # sign-normalised poly keys assumed != 0


# -------------------------------------------------------------------- polys
class Poly:
    __slots__ = ('t', '_key', '_sg', '_h')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._sg = 0
        self._h = None

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = frozenset(self.t.items())
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key)
        return h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), ZERO_F)

    def __repr__(self):
        return poly_str(self)


ZERO_F = F(0)
ONE_F = F(1)


def pconst(c):
    return Poly({(): c} if c else {})


P0 = Poly({})
P1 = Poly({(): ONE_F})


def patom(a):
    return Poly({((a.id, 1),): ONE_F})


def poly_str(p, limit=12):
    out = []
    for m, c in list(p.t.items())[:limit]:
        out.append('%s%s' % (c, ''.join('*%r%s' % (_atoms[i], '' if e == 1 else '^%d' % e) for i, e in m)))
    return ' + '.join(out) + (' +...(%d)' % len(p.t) if len(p.t) > limit else '') if out else '0'


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def pscale(a, c):
    if not c:
        return P0
    if c == 1:
        return a
    return Poly({m: v * c for m, v in a.t.items()})


def psub(a, b):
    return padd(a, pscale(b, F(-1)))


def _mono_mul(m1, m2):
    """Product of two monomials -> (monomial, extra list of (atom, exp) that
    need expansion) or None when it is zero."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    out = []
    special = None
    lits = None
    for i in sorted(d):
        e = d[i]
        if e == 0:
            continue
        a = _atoms[i]
        k = a.kind
        if k == 'I':
            out.append((i, 1))
            b = a.args
            if b.kind == 'rel':
                # args = (rel, poly): I_lt(p) * I_eq(p) == 0
                if lits is None:
                    lits = {}
                pk = b.args[1].key
                r = lits.get(pk)
                if r is None:
                    lits[pk] = b.args[0]
                elif r != b.args[0]:
                    return None
            continue
        if k == 'sqrt' and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            if special is None:
                special = []
            special.append((a, q if e > 0 else -q))
            if r:
                out.append((i, 1 if e > 0 else -1))
            continue
        if k == 'den' and e > 0:
            if special is None:
                special = []
            special.append((a, e))
            continue
        out.append((i, e))
    return tuple(out), special


MAX_TERMS = int(os.environ.get('SYMX_MAX_TERMS', '60000'))


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if len(a.t) * len(b.t) > MAX_TERMS * 4:
        raise SymError('product too large: %d x %d' % (len(a.t), len(b.t)))
    t = {}
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            r = _mono_mul(m1, m2)
            if r is None:
                continue
            m, sp = r
            c = c1 * c2
            if sp is None:
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = v + c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
            else:
                q = Poly({m: c})
                for at, e in sp:
                    if at.kind == 'sqrt':
                        base = at.args
                        if e > 0:
                            for _ in range(e):
                                q = pmul(q, base)
                        else:
                            for _ in range(-e):
                                q = pmul(q, pinv_raw(base))
                    else:
                        for _ in range(e):
                            q = pmul(q, at.args)
                extra = q if extra is None else padd(extra, q)
    r = Poly(t)
    if extra is not None:
        r = padd(r, extra)
    return r


def lead(p):
    """Leading coefficient (deterministic choice)."""
    m = min(p.t)
    return p.t[m]


def monic(p):
    c = lead(p)
    return (p if c == 1 else pscale(p, 1 / c)), c


def has_den(p):
    for m in p.t:
        for i, e in m:
            if e < 0:
                return True
    return False


def clear_den(p):
    """p = N / D with D a monomial in (negative-exponent) atoms; returns (N, Dlist)
    with Dlist = {atom_id: exp>0}."""
    d = {}
    for m in p.t:
        for i, e in m:
            if e < 0 and -e > d.get(i, 0):
                d[i] = -e
    if not d:
        return p, d
    n = P0
    acc = {}
    for m, c in p.t.items():
        mm = dict(m)
        rest = {}
        for i, e in d.items():
            k = e + mm.pop(i, 0) if i in mm else e
            if k:
                rest[i] = k
        key = tuple(sorted(rest.items()))
        acc.setdefault(key, {})[tuple(sorted(mm.items()))] = c
    for key, t in acc.items():
        q = Poly(t)
        for i, e in key:
            a = _atoms[i]
            base = a.args if a.kind == 'den' else patom(a)
            for _ in range(e):
                q = pmul(q, base)
        n = padd(n, q)
    if has_den(n):
        n2, d2 = clear_den(n)
        for i, e in d2.items():
            d[i] = d.get(i, 0) + e
        return n2, d
    return n, d


def _content(q):
    common = None
    for m in q.t:
        mm = dict((i, e) for i, e in m if _atoms[i].kind != 'I')
        if common is None:
            common = mm
        else:
            common = {i: min(e, mm[i]) for i, e in common.items() if i in mm}
        if not common:
            return None
    return common


def _clearable(q):
    """May the denominators of q be multiplied away under 1/q?  A denominator that can be zero makes q undefined unless an
    indicator switches its term off; only then would the multiplication change the value."""
    gated = any(_atoms[i].kind in ('I', 'ite', 'neg') for m in q.t for i, e in m)
    if not gated:
        return True
    for m in q.t:
        for i, e in m:
            if e < 0 and _atoms[i].sign not in ('+', '-'):
                return False
    return True


def pinv_raw(q):
    """1/q, q != 0 assumed (flags handled by the caller)."""
    if q.is_const():
        return pconst(1 / q.const())
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if all(_atoms[i].kind != 'I' for i, e in m):
            return Poly_from_mono(tuple((i, -e) for i, e in m), 1 / c)
    common = _content(q)
    if has_den(q) and not common and _clearable(q):
        n, d = clear_den(q)
        if n.t:
            r = pinv_raw(n)
            for i, e in d.items():
                a = _atoms[i]
                base = a.args if a.kind == 'den' else patom(a)
                for _ in range(e):
                    r = pmul(r, base)
            return r
    # divide out a common monomial factor
    if common:
        cm = tuple(sorted((i, -e) for i, e in common.items()))
        rest = {}
        for m, c in q.t.items():
            mm = dict(m)
            for i, e in common.items():
                mm[i] = mm.get(i, 0) - e
            rest[tuple(sorted((i, e) for i, e in mm.items() if e))] = c
        rest = Poly(rest)
        return pmul(Poly_from_mono(cm, ONE_F), pinv_raw(rest))
    mq, c = monic(q)
    sg = psign(mq)
    a = new_atom('den', mq.key, mq, sign=sg)
    return Poly({((a.id, -1),): 1 / c})


def Poly_from_mono(m, c):
    """Build coefficient*monomial, expanding positive powers of 'den' atoms."""
    q = Poly({tuple((i, e) for i, e in m if not (_atoms[i].kind == 'den' and e > 0)): c})
    for i, e in m:
        if _atoms[i].kind == 'den' and e > 0:
            for _ in range(e):
                q = pmul(q, _atoms[i].args)
    return q


def pdiv(a, b):
    """a/b for b != 0."""
    if b.is_const():
        return pscale(a, 1 / b.const())
    if not a.t:
        return P0
    # constant multiple?
    if len(a.t) == len(b.t):
        m = next(iter(b.t))
        ca = a.t.get(m)
        if ca is not None:
            k = ca / b.t[m]
            if all(a.t.get(mm) == k * cc for mm, cc in b.t.items()):
                return pconst(k)
    return pmul(a, pinv_raw(b))


# ---- sign inference:  '+' >0, '0+' >=0, '-' <0, '0-' <=0, '0', None
def psign(p):
    s = p._sg
    if s != 0:
        return s
    s = _psign(p)
    p._sg = s
    return s


def _psign(p):
    if not p.t:
        return '0'
    lo = hi = True       # may all terms be >=0 / <=0
    strict = False
    for m, c in p.t.items():
        neg = c < 0
        st = True
        for i, e in m:
            a = _atoms[i]
            s = a.sign
            if s == '+':
                continue
            if s == '-':
                if e & 1:
                    neg = not neg
                continue
            if s == '0+':
                st = False
                continue
            if s == '0-':
                st = False
                if e & 1:
                    neg = not neg
                continue
            if not (e & 1):
                st = False
                continue
            neg = None
            break
        if neg is None:
            lo = hi = False
            break
        if neg:
            lo = False
        else:
            hi = False
        if st:
            strict = True
        if not lo and not hi:
            break
    if lo:
        return '+' if strict else '0+'
    if hi:
        return '-' if strict else '0-'
    if p.key in _nonneg:
        return '0+'
    return _psign_neg(p)


def _psign_neg(p):
    """sums of |q|, max(q,0), max(-q,0):  sum c_i*neg(q_i) + L  with  L - lam*sum c_i*q_i >= 0  for lam in [0,1]
    (q + neg(q) = max(q,0) >= 0, and c_i >= lam*c_i >= 0)"""
    sg = None
    lin = []
    rest = {}
    for m, c in p.t.items():
        ns = [i for i, e in m if _atoms[i].kind == 'neg']
        if not ns:
            rest[m] = c
            continue
        if len(ns) > 1 or dict(m)[ns[0]] != 1:
            return None
        fm = tuple((i, e) for i, e in m if i != ns[0])
        for i, e in fm:
            if _atoms[i].sign not in ('+', '0+'):
                return None
        if sg is None:
            sg = c > 0
        if (c > 0) != sg:
            return None
        lin.append((fm, c, _atoms[ns[0]].args))
    if not lin or len(p.t) > 400:
        return None
    tot = P0
    for fm, c, q in lin:
        tot = padd(tot, pmul(Poly({fm: c}), q))
    rp = Poly(rest)
    for lam in (ONE_F, F(1, 2)):
        r = psub(rp, pscale(tot, lam)) if lam != 1 else psub(rp, tot)
        if not r.t:
            return '0+' if sg else '0-'
        if any(_atoms[i].kind == 'neg' for m in r.t for i, e in m):
            continue
        s = psign(r)
        if s is not None and (s in ('+', '0+')) == sg:
            return s
    return None


# ----------------------------------------------------------------- formulas
class B:
    __slots__ = ('kind', 'args', 'id', '_z', '_ep', '_ind')

    def __repr__(self):
        return b_str(self)


_bkey = {}
_bn = [0]


def _mkb(kind, args, key):
    b = _bkey.get(key)
    if b is None:
        b = B()
        b.kind, b.args = kind, args
        _bn[0] += 1
        b.id = _bn[0]
        b._z = None
        b._ep = -1
        b._ind = None
        _bkey[key] = b
    return b


TRUE = _mkb('T', None, ('T',))
FALSE = _mkb('F', None, ('F',))


def b_str(b):
    if b.kind == 'T' or b.kind == 'F':
        return b.kind
    if b.kind == 'rel':
        return '(%s %s 0)' % (poly_str(b.args[1]), b.args[0])
    if b.kind == 'var':
        return b.args
    if b.kind == 'not':
        return '!' + b_str(b.args)
    return '(' + (' & ' if b.kind == 'and' else ' | ').join(b_str(x) for x in b.args) + ')'


def bvar(name):
    return _mkb('var', name, ('var', name))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.args
    return _mkb('not', b, ('not', b.id))


def _neg_id(b):
    if b.kind == 'not':
        return b.args.id
    n = _bkey.get(('not', b.id))
    return -1 if n is None else n.id


def _nary(kind, items):
    unit, zero = (TRUE, FALSE) if kind == 'and' else (FALSE, TRUE)
    s = {}
    stack = list(items)
    while stack:
        x = stack.pop()
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.kind == kind:
            stack.extend(x.args)
            continue
        s[x.id] = x
    for x in s.values():
        if x.kind == 'not' and x.args.id in s:
            return zero
    # lt & eq of same poly; absorption of one level
    if kind == 'and':
        rel = {}
        for x in s.values():
            if x.kind == 'rel':
                k = x.args[1].key
                if rel.setdefault(k, x.args[0]) != x.args[0]:
                    return FALSE
        # (x=rel lt) & not(eq same): drop the negated one
        drop = []
        for x in s.values():
            if x.kind == 'not' and x.args.kind == 'rel':
                r = rel.get(x.args.args[1].key)
                if r is not None and r != x.args.args[0]:
                    drop.append(x.id)
        for i in drop:
            del s[i]
    opp = 'or' if kind == 'and' else 'and'
    if len(s) > 1:
        drop = [x.id for x in s.values() if x.kind == opp and any(y.id in s for y in x.args)]
        for i in drop:
            if i in s:
                del s[i]
    if len(s) > 1:
        # unit propagation into nested members
        red = []
        for x in s.values():
            if x.kind == opp:
                keep = [y for y in x.args if _neg_id(y) not in s]
                if len(keep) < len(x.args):
                    red.append((x, _nary(opp, keep)))
            elif x.kind == 'not' and x.args.kind == kind:
                keep = [y for y in x.args.args if y.id not in s]
                if len(keep) < len(x.args.args):
                    red.append((x, bnot(_nary(kind, keep))))
        if red:
            for x, y in red:
                del s[x.id]
            return _nary(kind, list(s.values()) + [y for _, y in red])
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s.values()))
    ids = tuple(sorted(s))
    return _mkb(kind, tuple(s[i] for i in ids), (kind,) + ids)


def band(*xs):
    return _nary('and', xs)


def bor(*xs):
    return _nary('or', xs)


def biff(a, b):
    if a is b:
        return TRUE
    return band(bor(bnot(a), b), bor(a, bnot(b)))


def bite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return bor(band(c, a), band(bnot(c), b))


def strip_pos(p):
    """Drop positive-sign content so that p REL 0 has one spelling."""
    if has_den(p):
        # only clear if all denominators have known sign '+'
        ids = set(i for m in p.t for i, e in m if e < 0)
        if all(_atoms[i].sign == '+' for i in ids) and len(p.t) < 400:
            p, _ = clear_den(p)
            if not p.t:
                return p
    common = None
    for m in p.t:
        mm = {i: e for i, e in m if _atoms[i].sign == '+'}
        if common is None:
            common = mm
        else:
            common = {i: min(e, mm[i]) for i, e in common.items() if i in mm}
        if not common:
            break
    if common:
        common = {i: e for i, e in common.items() if e > 0}
        if common:
            p = pmul(p, Poly({tuple(sorted((i, -e) for i, e in common.items())): ONE_F}))
    return p


def rel(op, p):
    """Formula  p op 0  for op in '<','<=','==','>','>=','!='."""
    if p.is_const():
        c = p.const()
        return TRUE if {'<': c < 0, '<=': c <= 0, '==': c == 0, '>': c > 0, '>=': c >= 0, '!=': c != 0}[op] else FALSE
    p = strip_pos(p)
    if p.is_const():
        return rel(op, p)
    s = psign(p)
    if s == '+':
        return TRUE if op in ('>', '>=', '!=') else FALSE
    if s == '-':
        return TRUE if op in ('<', '<=', '!=') else FALSE
    if s == '0+':
        if op == '>=':
            return TRUE
        if op == '<':
            return FALSE
    if s == '0-':
        if op == '<=':
            return TRUE
        if op == '>':
            return FALSE
    p, c = monic(p)
    if c < 0:
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        s = {'0+': '0-', '0-': '0+'}.get(s, s)
    if p.key in _facts_nonzero:
        if op == '==':
            return FALSE
        if op == '!=':
            return TRUE
        if op == '<=':
            op = '<'
        if op == '>=':
            op = '>'
    key = p.key
    nz = key in _facts_nonzero

    def lit(o):
        return _mkb('rel', (o, p), ('rel', o, key))
    if op == '==':
        return lit('==')
    if op == '!=':
        return bnot(lit('=='))
    if s == '0+':      # p>=0 known: '>' is '!=', '<=' is '=='
        return bnot(lit('==')) if op == '>' else lit('==')
    if s == '0-':
        return bnot(lit('==')) if op == '<' else lit('==')
    if op == '<':
        return lit('<')
    if op == '>=':
        return bnot(lit('<'))
    # > and <= in terms of < and == (basis)
    gt = bnot(lit('<')) if nz else band(bnot(lit('<')), bnot(lit('==')))
    return gt if op == '>' else bnot(gt)


# ---------------------------------------------------------------- indicators
def ind(b):
    """0/1 polynomial of a formula."""
    r = b._ind
    if r is None:
        r = b._ind = _ind(b)
    return r


def _ind(b):
    if b is TRUE:
        return P1
    if b is FALSE:
        return P0
    if b.kind == 'rel' or b.kind == 'var':
        return patom(new_atom('I', b.id, b, sign='0+'))
    if b.kind == 'not':
        return psub(P1, ind(b.args))
    if b.kind == 'and':
        r = P1
        for x in b.args:
            r = pmul(r, ind(x))
            if len(r.t) > 64:
                return patom(new_atom('I', b.id, b, sign='0+'))
        return r
    r = P1
    for x in b.args:
        r = pmul(r, psub(P1, ind(x)))
        if len(r.t) > 64:
            return patom(new_atom('I', b.id, b, sign='0+'))
    return psub(P1, r)


def _n_ind(p):
    n = 0
    for m in p.t:
        k = sum(1 for i, e in m if _atoms[i].kind == 'I')
        if k > n:
            n = k
    return n


def _mono_multiple(d, q):
    """the polynomial m (one monomial) with d == m * q, or None"""
    if len(d.t) != len(q.t) or not d.t:
        return None
    if d.key == q.key:
        return P1
    m0, c0 = next(iter(q.t.items()))
    for m, c in d.t.items():
        f = dict(m)
        for i, e in m0:
            f[i] = f.get(i, 0) - e
        fm = tuple(sorted((i, e) for i, e in f.items() if e))
        if any(e < 0 and _atoms[i].kind != 'den' and not (_atoms[i].sign in ('+', '-')) for i, e in fm):
            continue
        mm = Poly({fm: c / c0})
        if pmul(q, mm).key == d.key:
            return mm
    return None


def pneg(q):
    """max(-q, 0) as an atom (q monic)"""
    s = psign(q)
    if s in ('+', '0+', '0'):
        return P0
    if s in ('-', '0-'):
        return pscale(q, F(-1))
    return patom(new_atom('neg', q.key, q, sign='0+'))


def _gate(c, d):
    """I[c] * d when c is  q < 0  (or its negation) and d a multiple of q: piecewise linear, hence one atom"""
    n = c.kind == 'not'
    l = c.args if n else c
    if l.kind != 'rel' or l.args[0] != '<':
        return None
    q = l.args[1]
    m = _mono_multiple(d, q)
    if m is None:
        return None
    r = pscale(pmul(m, pneg(q)), F(-1))
    return psub(d, r) if n else r


def _under(p, c, val):
    """p with the max(-q,0) atoms replaced that c == val decides (literals q < 0 of the condition)"""
    ids = [i for i in {i for m in p.t for i, e in m if e > 0} if _atoms[i].kind == 'neg']
    if not ids:
        return p
    facts = {}
    stack = [(c, val)]
    while stack:
        x, v = stack.pop()
        if x.kind == 'not':
            stack.append((x.args, not v))
        elif x.kind in ('and', 'or') and (x.kind == 'and') == v:
            stack.extend((y, v) for y in x.args)
        elif x.kind == 'rel':
            if x.args[0] == '<':
                facts[x.args[1].key] = v
            elif v:
                facts[x.args[1].key] = False
    for i in ids:
        q = _atoms[i].args
        v = facts.get(q.key)
        if v is not None:
            p = psubst(p, i, pscale(q, F(-1)) if v else P0)
    return p


def psubst(p, i, q):
    """replace atom i (non-negative powers) by q"""
    r, rest = P0, {}
    for m, c in p.t.items():
        e = dict(m).get(i, 0)
        if e <= 0:
            rest[m] = c
            continue
        if not q.t:
            continue
        t = Poly({tuple(x for x in m if x[0] != i): c})
        for _ in range(e):
            t = pmul(t, q)
        r = padd(r, t)
    return padd(Poly(rest), r)


def expand_neg(p):
    """spell max(-q,0) as -q*I[q<0] (a second normal form)"""
    if not any(_atoms[i].kind == 'neg' for m in p.t for i, e in m):
        return p
    r = P0
    for m, c in p.t.items():
        t = Poly({tuple((i, e) for i, e in m if _atoms[i].kind != 'neg'): c})
        for i, e in m:
            if _atoms[i].kind == 'neg':
                if e < 0:
                    return p
                q = _atoms[i].args
                x = pscale(pmul(ind(rel('<', q)), expand_neg(q)), F(-1))
                for _ in range(e):
                    t = pmul(t, x)
                    if len(t.t) > 5000:
                        return p
        r = padd(r, t)
    return r


def expand_neg_b(b):
    if b.kind == 'rel':
        q = expand_neg(b.args[1])
        return b if q is b.args[1] else rel(b.args[0], q)
    if b.kind == 'not':
        return bnot(expand_neg_b(b.args))
    if b.kind in ('and', 'or'):
        return (band if b.kind == 'and' else bor)(*[expand_neg_b(x) for x in b.args])
    return b


class Known:
    """facts assumed while simplifying"""

    def __init__(self, base=None):
        self.k = dict(base or {})

    def learn(self, b, val):
        self.k[b.id] = val
        if b.kind == 'not':
            self.learn(b.args, not val)
        elif (b.kind == 'and') == val and b.kind in ('and', 'or'):
            for x in b.args:
                self.learn(x, val)

    def look(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        v = self.k.get(b.id)
        if v is None:
            if b.kind == 'not':
                v = self.look(b.args)
                v = None if v is None else not v
            elif b.kind in ('and', 'or'):
                rs = [self.look(x) for x in b.args]
                z = b.kind == 'or'
                if any(r is z for r in rs):
                    v = z
                elif all(r is (not z) for r in rs):
                    v = not z
            if v is not None:
                self.k[b.id] = v
        return v

    def poly(self, p):
        """substitute decided indicators"""
        if not any(_atoms[i].kind == 'I' for m in p.t for i, e in m):
            return p
        t = {}
        for m, c in p.t.items():
            out = []
            for i, e in m:
                a = _atoms[i]
                if a.kind == 'I':
                    v = self.look(a.args)
                    if v is False:
                        out = None
                        break
                    if v is True:
                        continue
                out.append((i, e))
            if out is not None:
                k = tuple(out)
                v = t.get(k, ZERO_F) + c
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return Poly(t)

    def simp(self, b):
        v = self.look(b)
        if v is not None:
            return TRUE if v else FALSE
        if b.kind == 'rel':
            q = self.poly(b.args[1])
            return b if q is b.args[1] else rel(b.args[0], q)
        if b.kind == 'not':
            return bnot(self.simp(b.args))
        if b.kind in ('and', 'or'):
            return (band if b.kind == 'and' else bor)(*[self.simp(x) for x in b.args])
        return b


def simp_or(f, base=None):
    """f = a1 | a2 | ...: simplify the largest disjuncts under the negation of the others"""
    if f.kind != 'or':
        return f
    args = list(f.args)
    best = max(range(len(args)), key=lambda j: len(args[j].args[1].t) if args[j].kind == 'rel' and args[j].args[0] == '==' else -1)
    if args[best].kind != 'rel':
        return f
    k = Known(base)
    for j, a in enumerate(args):
        if j != best:
            k.learn(a, False)
    r = k.simp(args[best])
    return TRUE if r is TRUE else bor(r, *[a for j, a in enumerate(args) if j != best])


def has_ind(b):
    if b.kind == 'rel':
        return any(_atoms[i].kind == 'I' for m in b.args[1].t for i, e in m)
    if b.kind == 'not':
        return has_ind(b.args)
    return b.kind in ('and', 'or') and any(has_ind(x) for x in b.args)


def tableau(f, known, leaf, depth=8, budget=64):
    """Prove f by case distinction on the conditions of its indicators; leaf(literals, formula) decides a case."""
    left = [budget]

    def conds(b, acc):
        if b.kind == 'rel':
            for m in b.args[1].t:
                for i, e in m:
                    a = _atoms[i]
                    if a.kind == 'I':
                        lits(a.args, acc)
        elif b.kind == 'not':
            conds(b.args, acc)
        elif b.kind in ('and', 'or'):
            for x in b.args:
                conds(x, acc)

    def lits(b, acc):
        if b.kind == 'not':
            lits(b.args, acc)
        elif b.kind in ('and', 'or'):
            for x in b.args:
                lits(x, acc)
        else:
            acc[b.id] = (acc.get(b.id, (0, b))[0] + 1, b)

    def rec(f, k, ls, d):
        f = k.simp(f)
        if f is TRUE:
            return True
        acc = {}
        conds(f, acc)
        if not acc or d == 0:
            left[0] -= 1
            return left[0] >= 0 and leaf(ls, f)
        b = max(acc.values(), key=lambda x: (x[0], -x[1].id))[1]
        for v in (True, False):
            k2 = Known(k.k)
            k2.learn(b, v)
            if v and b.kind == 'rel':
                o = _bkey.get(('rel', '==' if b.args[0] == '<' else '<', b.args[1].key))
                if o is not None:
                    k2.learn(o, False)
            if not rec(f, k2, ls + [b if v else bnot(b)], d - 1):
                return False
        return True
    return rec(f, Known(known), [], depth)


def _size_ok(p, d):
    k = 1
    for i, e in d.items():
        a = _atoms[i]
        k *= len((a.args if a.kind == 'den' else P1).t) ** e
    return k * len(p.t) <= 6000


def strengthen(b, up=True):
    """A formula without denominators that implies b (up) / is implied by b (not up)."""
    if b.kind == 'rel':
        o, p = b.args
        if not has_den(p):
            return b
        d = {}
        for m in p.t:
            for i, e in m:
                if e < 0 and -e > d.get(i, 0):
                    d[i] = -e
        if not _size_ok(p, d):
            return b
        n, d = clear_den(p)
        nz = []
        sg = P1
        for i, e in d.items():
            a = _atoms[i]
            base = a.args if a.kind == 'den' else patom(a)
            if a.sign not in ('+', '-'):
                nz.append(rel('!=', base))
            if e & 1 and a.sign != '+':
                sg = pmul(sg, base)
        if o == '==':
            r = rel('==', n)
        else:
            r = rel('<', n if sg is P1 else pmul(n, sg))
        return band(r, *nz) if up else bor(r, *[bnot(x) for x in nz])
    if b.kind == 'not':
        return bnot(strengthen(b.args, not up))
    if b.kind in ('and', 'or'):
        return (band if b.kind == 'and' else bor)(*[strengthen(x, up) for x in b.args])
    return b


def _drop_eq(c, d):
    """a formula agreeing with c wherever d != 0 (literals q == 0 with d a multiple of q are irrelevant)"""
    if c.kind == 'rel':
        if c.args[0] == '==' and _mono_multiple(d, c.args[1]) is not None:
            return FALSE
        return c
    if c.kind == 'not':
        return bnot(_drop_eq(c.args, d))
    if c.kind in ('and', 'or') and len(c.args) <= 12:
        return (band if c.kind == 'and' else bor)(*[_drop_eq(x, d) for x in c.args])
    return c


def pite(c, a, b):
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a == b:
        return a
    d = psub(a, b)
    if c.kind != 'var' and not (c.kind == 'rel' and c.args[0] == '<'):
        c = _drop_eq(c, d)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    g = _gate(c, d)
    if g is not None:
        return padd(b, g)
    ic = ind(c)
    if len(ic.t) * len(d.t) > 4000 or _n_ind(d) > 6:
        # opaque
        at = new_atom('ite', (c.id, a.key, b.key), (c, a, b),
                      sign=_join_sign(psign(a), psign(b)))
        return patom(at)
    return padd(b, pmul(ic, d))


def _join_sign(a, b):
    if a == b:
        return a if a != '0' else '0+'
    pos = {'+', '0+', '0'}
    neg = {'-', '0-', '0'}
    if a in pos and b in pos:
        return '0+'
    if a in neg and b in neg:
        return '0-'
    return None


# ----------------------------------------------------------------- max / min
def _mm(polys, which):
    form = _maxform if which == 'max' else _minform
    s = {}
    for p in polys:
        f = form.get(p.key)
        if f is None:
            s[p.key] = p
        else:
            for q in f:
                s[q.key] = q
    # polys that differ by a constant only: keep the extreme one
    grp = {}
    for p in s.values():
        c = p.t.get((), ZERO_F)
        k = frozenset((m, v) for m, v in p.t.items() if m)
        o = grp.get(k)
        if o is None or (c > o[0] if which == 'max' else c < o[0]):
            grp[k] = (c, p)
    ps = [x[1] for x in grp.values()]
    # constant-sign differences
    changed = True
    while changed and len(ps) > 1:
        changed = False
        if len(ps) > 12:
            break
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                sg = psign(psub(ps[i], ps[j]))
                if sg is not None:
                    if (sg in ('+', '0+', '0')) == (which == 'max'):
                        del ps[j]
                    else:
                        del ps[i]
                    changed = True
                    break
            if changed:
                break
    if len(ps) == 1:
        return ps[0]
    if len(ps) == 2:
        a, b = sorted(ps, key=lambda q: sorted(q.t.items()))
        c = rel('>=' if which == 'max' else '<=', psub(a, b))
        if len(a.t) + len(b.t) <= 40:
            r = pite(c, a, b)
            form[r.key] = (a, b)
            return r
    ps.sort(key=lambda q: sorted(q.t.items()))
    sgs = [psign(q) for q in ps]
    sign = None
    if which == 'max':
        if '+' in sgs:
            sign = '+'
        elif any(x in ('0+', '0') for x in sgs):
            sign = '0+'
        elif all(x == '-' for x in sgs):
            sign = '-'
    else:
        if all(x == '+' for x in sgs):
            sign = '+'
        elif all(x in ('+', '0+', '0') for x in sgs):
            sign = '0+'
        elif '-' in sgs:
            sign = '-'
    at = new_atom(which, frozenset(q.key for q in ps), tuple(ps), sign=sign)
    r = patom(at)
    form[r.key] = tuple(ps)
    return r


def pabs(p):
    s = psign(p)
    if s in ('+', '0+', '0'):
        return p
    if s in ('-', '0-'):
        return pscale(p, F(-1))
    mp, c = monic(p)
    return pscale(padd(mp, pscale(pneg(mp), F(2))), abs(c))


def psqrt(p):
    if p.is_const():
        c = p.const()
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return pconst(F(n, d))
            return pconst(F(math.sqrt(c)))
    mp, c = monic(p)
    if c > 0:
        k = psqrt(pconst(c)).const()
        if k * k == c:
            at = new_atom('sqrt', mp.key, mp, sign='0+')
            return pscale(patom(at), k)
    at = new_atom('sqrt', p.key, p, sign='0+')
    return patom(at)


# --------------------------------------------------------------------- Sym
def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym(ind(x.b))
    if x is None:
        return NAN
    if isinstance(x, (float, np.floating)):
        if x != x:
            return NAN
        if x == math.inf:
            return PINF
        if x == -math.inf:
            return NINF
        return Sym(pconst(rat(x)))
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return Sym(pconst(rat(x)), ty='int')
    if isinstance(x, F):
        return Sym(pconst(rat(x)))
    try:
        import pandas as pd
        if x is pd.NA or x is pd.NaT:
            return NAN
    except ImportError:
        pass
    raise TypeError('not a number: %r' % (type(x),))


def _num(x):
    return isinstance(x, (Sym, SymBool, int, float, np.integer, np.floating, F, bool, np.bool_)) or x is None


class Sym:
    """Extended-real symbolic number."""
    __slots__ = ('p', 'nan', 'pi', 'ni', 'ty')
    __array_priority__ = 50

    def __init__(self, p, nan=FALSE, pi=FALSE, ni=FALSE, ty='float'):
        self.p = p
        self.nan = nan
        self.pi = pi
        self.ni = ni
        self.ty = ty

    # -- helpers
    @property
    def special(self):
        return self.nan is not FALSE or self.pi is not FALSE or self.ni is not FALSE

    @property
    def inf(self):
        return bor(self.pi, self.ni)

    @property
    def fin(self):
        return bnot(bor(self.nan, self.pi, self.ni))

    def is_nan_const(self):
        return self.nan is TRUE

    def is_const(self):
        return self.p.is_const() and all(x is TRUE or x is FALSE for x in (self.nan, self.pi, self.ni))

    def __repr__(self):
        if self.nan is TRUE:
            return 'nan'
        s = poly_str(self.p, 6)
        if self.special:
            s += ' {nan:%s pi:%s ni:%s}' % (self.nan, self.pi, self.ni)
        return '<%s>' % s

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        if self.is_const():
            return hash((self.p.key, self.nan.id, self.pi.id, self.ni.id))
        if self.ty == 'int':
            return hash((lift(self.__index__()).p.key, self.nan.id, self.pi.id, self.ni.id))
        # hashing would compare by representation, not by value
        raise SymError('hash of a symbolic value')

    # -- conversion
    def __float__(self):
        if self.nan is TRUE:
            return math.nan
        if self.pi is TRUE:
            return math.inf
        if self.ni is TRUE:
            return -math.inf
        if self.is_const():
            return float(self.p.const())
        raise SymError('float() of a symbolic value')

    def __int__(self):
        if self.is_const() and not self.special:
            return int(self.p.const())
        if self.is_const():
            return int(float(self))
        return concretize_int(self)

    def __index__(self):
        if self.is_const() and not self.special and self.p.const().denominator == 1 and self.ty == 'int':
            return int(self.p.const())
        if self.ty == 'int':
            return concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic
    def __neg__(self):
        return Sym(pscale(self.p, F(-1)), self.nan, self.ni, self.pi, self.ty)

    def __pos__(self):
        return self

    def __add__(self, o):
        if not _num(o):
            return NotImplemented
        o = lift(o)
        ty = 'int' if self.ty == 'int' and o.ty == 'int' else 'float'
        if not self.special and not o.special:
            return Sym(padd(self.p, o.p), ty=ty)
        return _add_special(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        if not _num(o):
            return NotImplemented
        return self + (-lift(o))

    def __rsub__(self, o):
        if not _num(o):
            return NotImplemented
        return lift(o) + (-self)

    def __mul__(self, o):
        if not _num(o):
            return NotImplemented
        o = lift(o)
        ty = 'int' if self.ty == 'int' and o.ty == 'int' else 'float'
        if not self.special and not o.special:
            return Sym(pmul(self.p, o.p), ty=ty)
        return _mul_special(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        return sdiv(self, lift(o))

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        return sdiv(lift(o), self)

    def __pow__(self, e):
        e = lift(e)
        if not e.is_const() or e.special:
            raise SymError('symbolic exponent')
        c = e.p.const()
        if c.denominator == 1:
            n = int(c)
            r = ONE
            b = self if n >= 0 else ONE / self
            for _ in range(abs(n)):
                r = r * b
            return Sym(r.p, r.nan, r.pi, r.ni, 'int') if self.ty == 'int' and e.ty == 'int' and n >= 0 else r
        if c == F(1, 2):
            return self.sqrt()
        if c == F(3, 2):
            return self * self.sqrt()
        if c == F(-1, 2):
            return ONE / self.sqrt()
        raise SymError('power %s' % c)

    def __rpow__(self, b):
        if self.is_const() and not self.special:
            return lift(float(b) ** float(self))
        raise SymError('symbolic exponent')

    def __floordiv__(self, o):
        o = lift(o)
        r = (self / o).floor()
        return Sym(r.p, r.nan, r.pi, r.ni, 'int') if self.ty == 'int' and o.ty == 'int' else r

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self // o)

    def __abs__(self):
        return Sym(pabs(self.p), self.nan, self.inf, FALSE, self.ty)

    abs = __abs__

    def __round__(self, nd=None):
        if nd is None:
            return Sym(pround(self.p, 0), ty='int')
        return Sym(pround(self.p, int(nd)), self.nan, self.pi, self.ni, self.ty)

    def round(self, decimals=0, *a, **k):
        return Sym(pround(self.p, int(decimals)), self.nan, self.pi, self.ni, self.ty)

    rint = round

    def trunc(self):
        return Sym(ptrunc(self.p), self.nan, self.pi, self.ni)

    __trunc__ = trunc

    def floor(self):
        return Sym(pfloor(self.p), self.nan, self.pi, self.ni)

    __floor__ = floor

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def sqrt(self):
        if self.is_const():
            v = float(self)
            if v != v or v < 0:
                return NAN
            if v == math.inf:
                return PINF
            return Sym(psqrt(self.p))
        neg = FALSE
        if psign(self.p) not in ('+', '0+', '0'):
            neg = band(self.fin, rel('<', self.p))
        return Sym(psqrt(self.p), bor(self.nan, self.ni, neg), self.pi, FALSE)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    def is_integer(self):
        raise SymError('is_integer of symbolic')

    def isnan(self):
        return SymBool(self.nan)

    def isinf(self):
        return SymBool(self.inf)

    def isfinite(self):
        return SymBool(self.fin)

    def sign(self):
        g = _lt(ZERO, self)
        l = _lt(self, ZERO)
        return Sym(psub(ind(g), ind(l)), self.nan)

    def fabs(self):
        return abs(self)

    def log(self):
        return sfunc('log', self)

    def exp(self):
        return sfunc('exp', self)

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return np.dtype('float64') if self.ty == 'float' else np.dtype('int64')

    # -- comparisons
    def __lt__(self, o):
        if not _num(o):
            return NotImplemented
        return SymBool(_lt(self, lift(o)))

    def __gt__(self, o):
        if not _num(o):
            return NotImplemented
        return SymBool(_lt(lift(o), self))

    def __le__(self, o):
        if not _num(o):
            return NotImplemented
        return SymBool(_le(self, lift(o)))

    def __ge__(self, o):
        if not _num(o):
            return NotImplemented
        return SymBool(_le(lift(o), self))

    def __eq__(self, o):
        if o is None or not _num(o):
            return False
        return SymBool(_eq(self, lift(o)))

    def __ne__(self, o):
        if o is None or not _num(o):
            return True
        return SymBool(bnot(_eq(self, lift(o))))


class Raw(Sym):
    """A cell of a column of another numeric type (unsigned, nullable ...): calculations in that type are not modelled."""
    __slots__ = ()


def _typed(*a):
    raise SymError('calculation in the number type of the input column')


for _m in ('neg', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'rpow', 'floordiv', 'rfloordiv', 'mod', 'abs',
           'round', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'bool'):
    setattr(Raw, '__%s__' % _m, _typed)
for _m in ('round', 'sqrt', 'square', 'sign', 'fabs', 'log', 'exp', 'rint'):
    setattr(Raw, _m, _typed)
Raw.__hash__ = Sym.__hash__


def plain(x):
    return Sym(x.p, x.nan, x.pi, x.ni) if type(x) is Raw else x


def _lt(a, b):
    if not a.special and not b.special:
        return rel('<', psub(a.p, b.p))
    nn = band(bnot(a.nan), bnot(b.nan))
    f = band(a.fin, b.fin)
    return band(nn, bor(band(f, rel('<', psub(a.p, b.p)) if f is not FALSE else FALSE),
                        band(a.ni, bnot(b.ni)), band(b.pi, bnot(a.pi))))


def _le(a, b):
    if not a.special and not b.special:
        return rel('<=', psub(a.p, b.p))
    nn = band(bnot(a.nan), bnot(b.nan))
    f = band(a.fin, b.fin)
    return band(nn, bor(band(f, rel('<=', psub(a.p, b.p)) if f is not FALSE else FALSE), a.ni, b.pi))


def _eq(a, b):
    if not a.special and not b.special:
        return rel('==', psub(a.p, b.p))
    f = band(a.fin, b.fin)
    return bor(band(f, rel('==', psub(a.p, b.p)) if f is not FALSE else FALSE), band(a.pi, b.pi), band(a.ni, b.ni))


def _pos(x):
    f = x.fin
    return bor(x.pi, band(f, rel('>', x.p)) if f is not FALSE else FALSE)


def _neg(x):
    f = x.fin
    return bor(x.ni, band(f, rel('<', x.p)) if f is not FALSE else FALSE)


def _zero(x):
    f = x.fin
    return band(f, rel('==', x.p)) if f is not FALSE else FALSE


def _norm(p, nan, pi, ni):
    if nan is TRUE:
        return NAN
    if pi is TRUE:
        return PINF
    if ni is TRUE:
        return NINF
    return Sym(p, nan, pi, ni)


def _add_special(a, b):
    if a.nan is TRUE or b.nan is TRUE:
        return NAN
    nan = bor(a.nan, b.nan, band(a.pi, b.ni), band(a.ni, b.pi))
    pi = bor(band(a.pi, bnot(b.nan), bnot(b.ni)), band(b.pi, bnot(a.nan), bnot(a.ni)))
    ni = bor(band(a.ni, bnot(b.nan), bnot(b.pi)), band(b.ni, bnot(a.nan), bnot(a.pi)))
    return _norm(padd(a.p, b.p), nan, pi, ni)


def _mul_special(a, b):
    if a.nan is TRUE or b.nan is TRUE:
        return NAN
    if a.inf is FALSE and b.inf is FALSE:
        return _norm(pmul(a.p, b.p), bor(a.nan, b.nan), FALSE, FALSE)
    anyinf = bor(a.inf, b.inf)
    nan = bor(a.nan, b.nan, band(a.inf, _zero(b)), band(b.inf, _zero(a)))
    pp = bor(band(_pos(a), _pos(b)), band(_neg(a), _neg(b)))
    nn = bor(band(_pos(a), _neg(b)), band(_neg(a), _pos(b)))
    return _norm(pmul(a.p, b.p), nan, band(anyinf, pp), band(anyinf, nn))


def sdiv(a, b):
    if a.nan is TRUE or b.nan is TRUE:
        return NAN
    zb = _zero(b)
    if zb is FALSE and not a.special and not b.special:
        return Sym(pdiv(a.p, b.p))
    if b.inf is FALSE:
        if zb is TRUE or not b.p.t:
            q = P0
        else:
            q = pdiv(a.p, b.p)
        if a.inf is FALSE:
            nan = bor(a.nan, b.nan, band(zb, _zero(a)))
            pi = band(zb, _pos(a), bnot(b.nan))
            ni = band(zb, _neg(a), bnot(b.nan))
            return _norm(q, nan, pi, ni)
        nan = bor(a.nan, b.nan, band(zb, _zero(a)))
        zbp = band(zb, bnot(b.nan))
        pi = bor(band(zbp, _pos(a)), band(a.pi, _pos(b)), band(a.ni, _neg(b)))
        ni = bor(band(zbp, _neg(a)), band(a.ni, _pos(b)), band(a.pi, _neg(b)))
        return _norm(q, nan, pi, ni)
    # b may be infinite
    binf = b.inf
    nan = bor(a.nan, b.nan, band(zb, _zero(a)), band(a.inf, binf))
    bf = band(bnot(b.nan), bnot(binf))
    pi = bor(band(zb, _pos(a)), band(bf, bor(band(a.pi, _pos(b)), band(a.ni, _neg(b)))))
    ni = bor(band(zb, _neg(a)), band(bf, bor(band(a.ni, _pos(b)), band(a.pi, _neg(b)))))
    if binf is TRUE or zb is TRUE:
        q = P0
    else:
        q = pite(binf, P0, pdiv(a.p, b.p) if b.p.t else P0)
    return _norm(q, nan, pi, ni)


def pround(p, d):
    if d >= ROUND_EXACT_FROM:
        return p
    if p.is_const():
        c = p.const() * F(10) ** d
        n = round(c)
        return pconst(F(n) / F(10) ** d)
    if d >= ROUND_EXACT_FROM:
        return p
    a = new_atom('round', (d, p.key), (d, p), sign=_round_sign(p))
    return patom(a)


def _round_sign(p):
    s = psign(p)
    return {'+': '0+', '0+': '0+', '-': '0-', '0-': '0-'}.get(s)


def ptrunc(p):
    if p.is_const():
        return pconst(F(math.trunc(p.const())))
    if p_is_int(p):
        return p
    return patom(new_atom('trunc', p.key, p, sign=_round_sign(p), integer=True))


def pfloor(p):
    if p.is_const():
        return pconst(F(math.floor(p.const())))
    if p_is_int(p):
        return p
    return patom(new_atom('floor', p.key, p, integer=True))


def p_is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            if e < 0 or not (_atoms[i].integer or _atoms[i].kind == 'I'):
                return False
    return True


def sfunc(name, x):
    """Uninterpreted real function."""
    if x.is_const():
        try:
            return lift(getattr(math, name)(float(x)))
        except ValueError:
            return NAN
    dom = FALSE
    pi = x.pi
    ni = FALSE
    if name == 'log':
        dom = bor(x.ni, band(x.fin, rel('<', x.p)))
        ni = band(x.fin, rel('==', x.p))
    return Sym(patom(new_atom('fn', (name, x.p.key), (name, x.p))), bor(x.nan, dom), pi, ni)


NAN = Sym(P0, nan=TRUE)
PINF = Sym(P0, pi=TRUE)
NINF = Sym(P0, ni=TRUE)
ZERO = Sym(P0)
ONE = Sym(P1)


def ite(c, a, b):
    """Value merge; c is SymBool/bool."""
    if isinstance(c, SymBool):
        c = c.b
    elif isinstance(c, B):
        pass
    else:
        c = TRUE if c else FALSE
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if CTX.active:
        k = CTX.branch_known(c)
        if k is not None:
            return a if k else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return SymBool(bite(c, bool_b(a), bool_b(b)))
    if not (_num(a) and _num(b)):
        try:
            if a == b:
                return a
        except Exception:
            pass
        return a if bool(SymBool(c)) else b
    a, b = lift(a), lift(b)
    ty = 'int' if a.ty == 'int' and b.ty == 'int' else 'float'
    if a.fin is FALSE:
        p = b.p
    elif b.fin is FALSE:
        p = a.p
    else:
        p = pite(c, a.p, b.p)
    return Sym(p, bite(c, a.nan, b.nan), bite(c, a.pi, b.pi), bite(c, a.ni, b.ni), ty)


def smax(xs, which='max', skipna=False):
    """Maximum/minimum of Syms.  skipna=False: NaN if any is NaN."""
    xs = [lift(x) for x in xs]
    if not xs:
        return NAN
    if all(not x.special for x in xs):
        return Sym(_mm([x.p for x in xs], which))
    if skipna:
        xs = [x for x in xs if x.nan is not TRUE]
        if not xs:
            return NAN
        if all(not x.special for x in xs):
            return Sym(_mm([x.p for x in xs], which))
    elif any(x.nan is TRUE for x in xs):
        return NAN
    r = xs[0]
    for x in xs[1:]:
        r = _max2(r, x, which, skipna)
    return r


def _max2(a, b, which, skipna):
    if which == 'max':
        infw, infl = ('pi', 'ni')
    else:
        infw, infl = ('ni', 'pi')
    aw, bw, al, bl = getattr(a, infw), getattr(b, infw), getattr(a, infl), getattr(b, infl)
    p = _mm([a.p, b.p], which)
    # a ignored / b ignored
    if skipna:
        ia = bor(a.nan, al)
        ib = bor(b.nan, bl)
        nan = band(a.nan, b.nan)
    else:
        ia, ib = al, bl
        nan = bor(a.nan, b.nan)
    if ia is not FALSE:
        p = pite(ia, b.p, p)
    if ib is not FALSE:
        p = pite(ib, a.p, p) if ia is FALSE else pite(band(ib, bnot(ia)), a.p, p)
    if skipna:
        w = bor(aw, bw)
        l = band(bor(a.nan, al), bor(b.nan, bl), bnot(nan))
    else:
        w = band(bor(aw, bw), bnot(nan))
        l = band(al, bl)
    kw = {infw: w, infl: l}
    return _norm(p, nan, kw['pi'], kw['ni'])


def ssum(xs):
    """Sum of Syms (NaN-propagating)."""
    xs = [lift(x) for x in xs]
    if all(not x.special for x in xs):
        t = {}
        for x in xs:
            for m, c in x.p.t.items():
                v = t.get(m)
                t[m] = c if v is None else v + c
        return Sym(Poly({m: c for m, c in t.items() if c}))
    r = ZERO
    for x in xs:
        r = r + x
    return r


def isnan(x):
    if isinstance(x, Sym):
        return SymBool(x.nan) if x.nan is not TRUE and x.nan is not FALSE else (x.nan is TRUE)
    if x is None:
        return True
    if isinstance(x, (float, np.floating)):
        return x != x
    try:
        import pandas as pd
        return bool(pd.isna(x)) if not isinstance(x, (SymBool, list, dict)) else False
    except Exception:
        return False


# ------------------------------------------------------------------ SymBool
def bool_b(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, Sym):
        return (x != 0).b
    return TRUE if x else FALSE


class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 50

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'SymBool(%r)' % (self.b,)

    def __hash__(self):
        return self.b.id

    def __bool__(self):
        b = self.b
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return CTX.branch(b)

    def is_const(self):
        return self.b is TRUE or self.b is FALSE

    def __and__(self, o):
        return SymBool(band(self.b, bool_b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(bor(self.b, bool_b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(bnot(biff(self.b, bool_b(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(bnot(self.b))

    def logical_not(self):
        return SymBool(bnot(self.b))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(biff(self.b, bool_b(o)))
        if _num(o) and o is not None:
            return lift(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(bnot(r.b)) if isinstance(r, SymBool) else not r

    def _n(self):
        return lift(self)

    def __add__(self, o):
        return _as_int(lift(self) + o)

    __radd__ = __add__

    def __sub__(self, o):
        return _as_int(lift(self) - o)

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(band(self.b, bool_b(o)))
        return lift(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return lift(self) / o

    def __rtruediv__(self, o):
        return lift(o) / lift(self)

    def __lt__(self, o):
        return lift(self) < o

    def __gt__(self, o):
        return lift(self) > o

    def __le__(self, o):
        return lift(self) <= o

    def __ge__(self, o):
        return lift(self) >= o

    def __neg__(self):
        return -lift(self)

    def __abs__(self):
        return lift(self)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any


def _as_int(s):
    return s


def concretize_int(s):
    """Fork on the value of an integer-valued symbol with solver-chosen values."""
    if s.special:
        raise SymError('index from special value')
    lo, hi = CTX.int_range
    for v in range(lo, hi + 1):
        if bool(s == v):
            return v
    raise PathAbort()


# ----------------------------------------------------------------- variables
def var(name, sign=None, integer=False):
    a = new_atom('var', name, None, sign=sign, name=name, integer=integer)
    return Sym(patom(a), ty='int' if integer else 'float')


# ------------------------------------------------------------------ z3 layer
class Z:
    """Translation of atoms / polynomials / formulas to z3."""

    def __init__(self):
        self.zp = {}
        self.zb = {}
        self.defs = {}      # atom id -> list of constraints (z3) ; collected on use
        self.deps = {}
        self.epoch = _zctx_epoch

    def atom(self, i):
        a = _atoms[i]
        if a._z is None or a._z[0] is not self:
            if a.kind == 'var':
                z = z3.Real('v%d' % i) if not a.integer else z3.ToReal(z3.Int('v%d' % i))
            else:
                z = z3.Real('%s%d' % (a.kind, i))
            a._z = (self, z)
        return a._z[1]

    def const(self, c):
        return z3.RealVal(str(c)) if c.denominator != 1 else z3.RealVal(c.numerator)

    def poly(self, p):
        k = p.key
        r = self.zp.get(k)
        if r is not None:
            return r
        groups = {}
        for m, c in p.t.items():
            inds = tuple(i for i, e in m if _atoms[i].kind == 'I')
            rest = tuple((i, e) for i, e in m if _atoms[i].kind != 'I')
            groups.setdefault(inds, []).append((rest, c))
        terms = []
        for inds, ms in groups.items():
            ts = []
            for m, c in ms:
                fs = []
                for i, e in m:
                    if e > 0:
                        fs.extend([self.atom(i)] * e)
                    else:
                        fs.extend([self.inv(i)] * (-e))
                if not fs:
                    ts.append(self.const(c))
                else:
                    z = fs[0]
                    for f in fs[1:]:
                        z = z * f
                    ts.append(z if c == 1 else self.const(c) * z)
            s = ts[0] if len(ts) == 1 else z3.Sum(ts)
            if inds:
                conds = [self.formula(_atoms[i].args) for i in inds]
                s = z3.If(conds[0] if len(conds) == 1 else z3.And(conds), s, z3.RealVal(0))
            terms.append(s)
        r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        self.zp[k] = r
        return r

    def inv(self, i):
        a = _atoms[i]
        return z3.Real('inv_%s%d' % (a.kind, i))

    def formula(self, b):
        r = self.zb.get(b.id)
        if r is not None:
            return r
        k = b.kind
        if k == 'T':
            r = z3.BoolVal(True)
        elif k == 'F':
            r = z3.BoolVal(False)
        elif k == 'var':
            r = z3.Bool(b.args)
        elif k == 'not':
            r = z3.Not(self.formula(b.args))
        elif k == 'and':
            r = z3.And([self.formula(x) for x in b.args])
        elif k == 'or':
            r = z3.Or([self.formula(x) for x in b.args])
        else:
            o, p = b.args
            z = self.poly(p)
            r = (z < 0) if o == '<' else (z == 0)
        self.zb[b.id] = r
        return r

    # definitional constraints of an atom
    def definition(self, i):
        a = _atoms[i]
        k = a.kind
        z = None
        out = []
        if k in ('I',):
            return out
        z = self.atom(i)
        if k == 'var' or k == 'fn':
            pass
        elif k == 'den':
            q = self.poly(a.args)
            out.append(z == q)
            iv = self.inv(i)
            out.append(z3.Or(q == 0, q * iv == 1))
            if a.sign == '+':
                out.append(iv > 0)
            return out
        elif k in ('max', 'min'):
            qs = [self.poly(p) for p in a.args]
            for q in qs:
                out.append(z >= q if k == 'max' else z <= q)
            out.append(z3.Or([z == q for q in qs]))
        elif k == 'neg':
            q = self.poly(a.args)
            out.append(z3.If(q >= 0, z == 0, z == -q))
        elif k == 'abs':
            q = self.poly(a.args)
            out.append(z3.If(q >= 0, z == q, z == -q))
        elif k == 'ite':
            c, x, y = a.args
            out.append(z3.If(self.formula(c), z == self.poly(x), z == self.poly(y)))
        elif k == 'sqrt':
            q = self.poly(a.args)
            out.append(z >= 0)
            out.append(z3.Or(q < 0, z * z == q))
        elif k == 'round':
            d, p = a.args
            q = self.poly(p)
            h = z3.RealVal(str(F(1, 2) * F(10) ** (-d)))
            out.append(z <= q + h)
            out.append(z >= q - h)
            # sign preserved (rounding is monotone and fixes 0)
            out.append(z3.Implies(q >= 0, z >= 0))
            out.append(z3.Implies(q <= 0, z <= 0))
        elif k == 'trunc':
            q = self.poly(a.args)
            out.append(z3.If(q >= 0, z3.And(z <= q, z > q - 1), z3.And(z >= q, z < q + 1)))
            out.append(z == z3.ToReal(z3.Int('int%d' % a.id)))
        elif k == 'floor':
            q = self.poly(a.args)
            out.append(z3.And(z <= q, z > q - 1))
            out.append(z == z3.ToReal(z3.Int('int%d' % a.id)))
        if a.sign == '+':
            out.append(z > 0)
        elif a.sign == '0+':
            out.append(z >= 0)
        elif a.sign == '-':
            out.append(z < 0)
        elif a.sign == '0-':
            out.append(z <= 0)
        return out

    def base_inv(self, i):
        """constraints for negative powers of a non-den atom"""
        z = self.atom(i)
        iv = self.inv(i)
        out = [z3.Or(z == 0, z * iv == 1)]
        if _atoms[i].sign == '+':
            out.append(iv > 0)
        return out


def atoms_of_poly(p, acc):
    for m in p.t:
        for i, e in m:
            k = (i, e < 0)
            if k in acc:
                continue
            acc.add(k)
            a = _atoms[i]
            if a.kind == 'I':
                atoms_of_b(a.args, acc)
            elif a.kind in ('den', 'abs', 'neg', 'sqrt', 'trunc', 'floor'):
                atoms_of_poly(a.args, acc)
            elif a.kind in ('max', 'min'):
                for q in a.args:
                    atoms_of_poly(q, acc)
            elif a.kind == 'round' or a.kind == 'fn':
                atoms_of_poly(a.args[1], acc)
            elif a.kind == 'ite':
                atoms_of_b(a.args[0], acc)
                atoms_of_poly(a.args[1], acc)
                atoms_of_poly(a.args[2], acc)


def atoms_of_b(b, acc):
    key = ('b', b.id)
    if key in acc:
        return
    acc.add(key)
    if b.kind == 'rel':
        atoms_of_poly(b.args[1], acc)
    elif b.kind == 'not':
        atoms_of_b(b.args, acc)
    elif b.kind in ('and', 'or'):
        for x in b.args:
            atoms_of_b(x, acc)


# monotonicity of rounding: pairs of round atoms with same digits
def round_axioms(z, ids):
    rs = [i for i in ids if _atoms[i].kind == 'round']
    out = []
    if 1 < len(rs) <= 8:
        for x in range(len(rs)):
            for y in range(x + 1, len(rs)):
                a, b = _atoms[rs[x]], _atoms[rs[y]]
                if a.args[0] == b.args[0]:
                    qa, qb = z.poly(a.args[1]), z.poly(b.args[1])
                    za, zb = z.atom(a.id), z.atom(b.id)
                    out.append(z3.Implies(qa <= qb, za <= zb))
                    out.append(z3.Implies(qa >= qb, za >= zb))
    return out


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.normal = 0
        self.claims = 0

    def as_dict(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown,
                    solver_s=round(self.time, 3), paths=self.paths, claims=self.claims,
                    claims_closed_by_normal_form=self.normal)


STATS = Stats()


# ---------------------------------------------------------------- evaluation
class Env:
    """Exact evaluation of polys/formulas under rational values of variables."""

    def __init__(self, vals, bools=None):
        self.vals = vals      # name -> Fraction
        self.bools = bools or {}
        self.cache = {}
        self.bc = {}

    def atom(self, i):
        r = self.cache.get(i)
        if r is None:
            r = self.cache[i] = self._atom(i)
        return r

    def _atom(self, i):
        a = _atoms[i]
        k = a.kind
        if k == 'var':
            return self.vals.get(a.name, ONE_F)
        if k == 'I':
            return ONE_F if self.b(a.args) else ZERO_F
        if k == 'den':
            return self.p(a.args)
        if k == 'max':
            return max(self.p(q) for q in a.args)
        if k == 'min':
            return min(self.p(q) for q in a.args)
        if k == 'neg':
            return max(-self.p(a.args), ZERO_F)
        if k == 'abs':
            return abs(self.p(a.args))
        if k == 'sqrt':
            v = self.p(a.args)
            return F(math.sqrt(v)) if v > 0 else ZERO_F
        if k == 'round':
            return pround(pconst(self.p(a.args[1])), a.args[0]).const()
        if k == 'trunc':
            return F(math.trunc(self.p(a.args)))
        if k == 'floor':
            return F(math.floor(self.p(a.args)))
        if k == 'ite':
            return self.p(a.args[1]) if self.b(a.args[0]) else self.p(a.args[2])
        if k == 'fn':
            try:
                return F(getattr(math, a.args[0])(float(self.p(a.args[1]))))
            except (ValueError, OverflowError):
                return ZERO_F
        raise SymError(k)

    def p(self, p):
        s = ZERO_F
        for m, c in p.t.items():
            v = c
            for i, e in m:
                x = self.atom(i)
                if e < 0:
                    if not x:
                        v = ZERO_F
                        break
                    v = v / x ** (-e)
                else:
                    v = v * x ** e
                if not v:
                    break
            s += v
        return s

    def b(self, b):
        r = self.bc.get(b.id)
        if r is None:
            k = b.kind
            if k == 'T':
                r = True
            elif k == 'F':
                r = False
            elif k == 'var':
                r = bool(self.bools.get(b.args, False))
            elif k == 'not':
                r = not self.b(b.args)
            elif k == 'and':
                r = all(self.b(x) for x in b.args)
            elif k == 'or':
                r = any(self.b(x) for x in b.args)
            else:
                v = self.p(b.args[1])
                r = v < 0 if b.args[0] == '<' else v == 0
            self.bc[b.id] = r
        return r

    def sym(self, s):
        """float value of a Sym"""
        s = lift(s)
        if self.b(s.nan):
            return math.nan
        if self.b(s.pi):
            return math.inf
        if self.b(s.ni):
            return -math.inf
        return float(self.p(s.p))


# ------------------------------------------------------------------- context
class Ctx:
    """One symbolic exploration: assumptions + path condition + decisions."""

    def __init__(self, timeout_ms=4000):
        self.assume = []
        self.pc = []
        self.decisions = []     # [(choice, other_side_pending)]
        self.pos = 0
        self.int_range = (0, 64)
        self.z = Z()
        self.timeout = timeout_ms
        self.known = {}
        self._memo_of, self._memo_n, self._memo = None, 0, {}
        self.merge = True
        self.solver = None
        self.pushed = 0
        self.asserted = set()
        self.active = False
        self.inconclusive = []
        self.max_paths = 20000
        self.deadline = None
        self.witness = None     # last model values satisfying the current pc

    # -- solver plumbing
    def _collect(self, bs):
        acc = set()
        for b in bs:
            atoms_of_b(b, acc)
        cons = []
        ids = set()
        for k in acc:
            if k[0] == 'b':
                continue
            i, neg = k
            if i not in ids:
                ids.add(i)
                cons.extend(self.z.definition(i))
            if neg and _atoms[i].kind != 'den':
                cons.extend(self.z.base_inv(i))
        cons.extend(round_axioms(self.z, sorted(ids)))
        return cons

    def query(self, bs, timeout=None, seedvals=None):
        """check satisfiability of the conjunction of formulas bs (plus
        definitions).  returns (verdict, model)"""
        bs = [b for b in bs if b is not TRUE]
        if any(b is FALSE for b in bs):
            return 'unsat', None
        t0 = time.time()
        cons = self._collect(bs)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for b in bs:
            s.add(self.z.formula(b))
        for c in cons:
            s.add(c)
        r = s.check()
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        v = str(r)
        setattr(STATS, v, getattr(STATS, v) + 1)
        return v, (s.model() if v == 'sat' else None)

    def model_vals(self, model):
        vals = {}
        bools = {}
        for a in list(_atoms):
            if a.kind == 'var':
                z = z3.Int('v%d' % a.id) if a.integer else z3.Real('v%d' % a.id)
                v = model.eval(z)
                if z3.is_rational_value(v) or z3.is_int_value(v):
                    vals[a.name] = F(v.as_fraction()) if z3.is_rational_value(v) else F(v.as_long())
                elif z3.is_algebraic_value(v):
                    vals[a.name] = F(v.approx(20).as_fraction())
        for k, b in list(_bkey.items()):
            if b.kind == 'var':
                v = model.eval(z3.Bool(b.args))
                bools[b.args] = z3.is_true(v)
        return vals, bools

    # -- branching
    def branch(self, b):
        if not self.active:
            raise SymError('branch outside exploration: %r' % (b,))
        k = self.known.get(b.id)
        if k is not None:
            return k
        k = self._implied(b)
        if k is not None:
            self.known[b.id] = k
            return k
        if self.pos < len(self.decisions):
            choice = self.decisions[self.pos][0]
            self.pos += 1
            self._take(b, choice)
            return choice
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        if TRACE:
            import traceback
            fr = [f for f in traceback.extract_stack() if 'symx' not in f.filename or 'core' not in f.filename]
            print('FORK', b_str(b)[:200], file=sys.stderr)
            for f in fr[-9:]:
                print('     ', f.filename[-40:], f.lineno, f.line, file=sys.stderr)
        base = self.assume + self.pc
        # use the current witness to know one feasible side for free
        feas = [None, None]
        if self.witness is not None:
            try:
                env = self.witness
                w = env.b(b)
                feas[1 if w else 0] = True
            except SymError:
                pass
        env_new = {}
        for side in (1, 0):
            if feas[side] is None:
                v, m = self.query(base + [b if side else bnot(b)])
                if v == 'unsat':
                    feas[side] = False
                else:
                    feas[side] = True
                    if v == 'sat':
                        vals, bools = self.model_vals(m)
                        env_new[side] = Env(vals, bools)
                    else:
                        env_new[side] = None
        if feas[1] and feas[0]:
            choice = True
            self.decisions.append([True, True])
        elif feas[1] or feas[0]:
            choice = bool(feas[1])
            self.decisions.append([choice, False])
        else:
            raise PathAbort()
        self.pos += 1
        if (1 if choice else 0) in env_new:
            self.witness = env_new[1 if choice else 0]
            if self.witness is not None and not self._wit_ok(b, choice):
                self.witness = None
        self._take(b, choice)
        return choice

    def _wit_ok(self, b, choice):
        w = self.witness
        try:
            return w.b(b) == choice and all(w.b(x) for x in self.pc) and all(w.b(x) for x in self.assume)
        except SymError:
            return False

    def _implied(self, b):
        if b.kind == 'not':
            r = self.branch_known(b.args)
            return None if r is None else (not r)
        if b.kind == 'and':
            rs = [self.branch_known(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if b.kind == 'or':
            rs = [self.branch_known(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if b.kind == 'rel':
            o, p = b.args
            other = _bkey.get(('rel', '==' if o == '<' else '<', p.key))
            if other is not None and self.known.get(other.id) is True:
                return False
        return None

    def branch_known(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        k = self.known.get(b.id)
        if k is None and b.kind != 'var':
            if self._memo_of is not self.known or self._memo_n != len(self.known):
                self._memo_of, self._memo_n, self._memo = self.known, len(self.known), {}
            k = self._memo.get(b.id, self)
            if k is self:
                k = self._memo[b.id] = self._implied(b)
        return k

    def _take(self, b, choice):
        self.known[b.id] = choice
        self.pc.append(b if choice else bnot(b))
        self._learn(b, choice)
        if self.witness is not None:
            try:
                if self.witness.b(b) != choice:
                    self.witness = None
            except SymError:
                self.witness = None

    def _learn(self, b, val):
        self.known[b.id] = val
        if b.kind == 'not':
            self._learn(b.args, not val)
        elif b.kind == 'and' and val:
            for x in b.args:
                self._learn(x, True)
        elif b.kind == 'or' and not val:
            for x in b.args:
                self._learn(x, False)

    def add_assume(self, b):
        if isinstance(b, SymBool):
            b = b.b
        if not isinstance(b, B):
            b = TRUE if b else FALSE
        if b is TRUE:
            return
        self.assume.append(b)
        self._learn(b, True)
        if b.kind == 'not' and b.args.kind == 'rel' and b.args.args[0] == '==':
            _facts_nonzero.add(b.args.args[1].key)

    def explore(self, fn):
        """Run fn() on every feasible path; yields (outcome) per path, where
        outcome = fn's return value.  fn must be deterministic."""
        global CTX
        prev = CTX
        CTX = self
        self.decisions = []
        n = 0
        try:
            while True:
                self.pc = []
                self.known = {}
                self.pos = 0
                self.witness = self._w0() if n == 0 else None
                self.assume = []
                _facts_nonzero.clear()
                self.active = True
                try:
                    r = fn()
                    n += 1
                    STATS.paths += 1
                    yield r
                except PathAbort:
                    pass
                finally:
                    self.active = False
                if n > self.max_paths:
                    raise Budget()
                if self.deadline and time.time() > self.deadline:
                    raise Budget()
                while self.decisions and not self.decisions[-1][1]:
                    self.decisions.pop()
                if not self.decisions:
                    return
                self.decisions[-1] = [not self.decisions[-1][0], False]
        finally:
            CTX = prev

    def _w0(self):
        return None


CTX = Ctx()


def assume(b):
    CTX.add_assume(b)


def reset():
    reset_atoms()
