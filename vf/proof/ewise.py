"""Pointwise array code: one generic element of an array of any shape, with the IEEE special values but without rounding.

A value is (nan, inf, re): nan is a formula, inf an integer expression in {-1,0,1}, re the real value when neither holds.  Complex values are
pairs.  dtypes are obtained by applying the same numpy operation to empty arrays.  np.any/np.all of a condition is an unknown truth value
constrained by the generic element only."""
import numpy as np, z3
import pyvc as V
from pyvc import Unsupported

RV, BV, IV = z3.RealVal, z3.BoolVal, z3.IntVal
F, T = BV(False), BV(True)


def xr(nan, inf, re):
    return (nan, inf, re)


def fin(re):
    return (F, IV(0), re)


def const(c):
    if isinstance(c, V.SReal):
        return fin(c.e)
    if isinstance(c, V.SInt):
        return fin(z3.ToReal(c.e))
    if isinstance(c, (bool, np.bool_)):
        return fin(RV(int(c)))
    if isinstance(c, (int, float, np.integer, np.floating)):
        c = float(c)
        if c != c:
            return (T, IV(0), RV(0))
        if c in (float('inf'), -float('inf')):
            return (F, IV(1 if c > 0 else -1), RV(0))
        return fin(V.CUR.const(c))
    raise Unsupported('pointwise operand of type ' + type(c).__name__)


S = z3.simplify
AND, OR, NOT, IF = (lambda *a: S(z3.And(*a))), (lambda *a: S(z3.Or(*a))), (lambda a: S(z3.Not(a))), (lambda c, a, b: S(z3.If(c, a, b)))


def ite(c, a, b):
    return tuple(IF(c, p, q) for p, q in zip(a, b))


def neg(a):
    return (a[0], S(-a[1]), S(-a[2]))


def add(a, b):
    nan = OR(a[0], b[0], z3.And(a[1] != 0, b[1] != 0, a[1] != b[1]))
    return (nan, IF(a[1] != 0, a[1], b[1]), S(a[2] + b[2]))


def sgn(a):
    """sign of a non-nan value as an int expression"""
    return z3.If(a[1] != 0, a[1], z3.If(a[2] > 0, IV(1), z3.If(a[2] < 0, IV(-1), IV(0))))


def mul(a, b):
    ai, bi = a[1] != 0, b[1] != 0
    za, zb = z3.And(z3.Not(ai), a[2] == 0), z3.And(z3.Not(bi), b[2] == 0)
    nan = OR(a[0], b[0], z3.And(ai, zb), z3.And(bi, za))
    return (nan, IF(z3.Or(ai, bi), z3.If(sgn(a) == sgn(b), IV(1), IV(-1)), IV(0)), S(a[2] * b[2]))


def div(a, b):
    """x/0 is an infinity whose sign is left open when the zero's sign is not known (an unknown sign per use)"""
    ai, bi = a[1] != 0, b[1] != 0
    za, zb = z3.And(z3.Not(ai), a[2] == 0), z3.And(z3.Not(bi), b[2] == 0)
    nan = OR(a[0], b[0], z3.And(ai, bi), z3.And(za, zb))
    s0 = V.CUR.int(V.CUR.fresh('zsign'))
    V.CUR.assume(z3.Or(s0.e == 1, s0.e == -1))
    if getattr(b, 'nonneg', False) or isinstance(b, NonNeg):
        V.CUR.assume(s0.e == 1)
    inf = IF(z3.And(zb, z3.Not(za)), sgn(a) * s0.e, IF(z3.And(ai, z3.Not(bi)), a[1] * z3.If(sgn(b) == 0, s0.e, sgn(b)), IV(0)))
    re = IF(z3.Or(bi, zb), RV(0), a[2] / z3.If(zb, RV(1), b[2]))
    return (nan, inf, re)


class NonNeg(tuple):
    """value known to be >= +0"""


def lt(a, b):
    """a < b (false with a nan)"""
    return AND(z3.Not(a[0]), z3.Not(b[0]), z3.If(z3.Or(a[1] != 0, b[1] != 0), a[1] < b[1], a[2] < b[2]))


def le(a, b):
    return AND(z3.Not(a[0]), z3.Not(b[0]), z3.If(z3.Or(a[1] != 0, b[1] != 0), a[1] <= b[1], a[2] <= b[2]))


def eq(a, b):
    return AND(z3.Not(a[0]), z3.Not(b[0]), a[1] == b[1], z3.Or(a[1] != 0, a[2] == b[2]))


class E(V.Deferred):
    """generic element of an array (or of the elements where `sel` holds)"""
    __array_ufunc__ = None

    def __init__(self, val, dummy, origin='fresh', sel=None, ndim=1):
        self.val, self.dummy, self.origin, self.sel = val, dummy, origin, sel      # val: one or two extended reals, or a formula (bool arrays)

    dtype = property(lambda s: s.dummy.dtype)
    shape = property(lambda s: SHAPE)
    isb = property(lambda s: s.dummy.dtype.kind == 'b')
    cplx = property(lambda s: s.dummy.dtype.kind == 'c')

    def nan(self):
        return OR(*[c[0] for c in self.val])

    def __getattr__(self, n):
        raise Unsupported('attribute of an array: ' + n)

    # arithmetic
    def __add__(s, o): return bop(np.add, s, o)
    def __radd__(s, o): return bop(np.add, o, s)
    def __sub__(s, o): return bop(np.subtract, s, o)
    def __rsub__(s, o): return bop(np.subtract, o, s)
    def __mul__(s, o): return bop(np.multiply, s, o)
    def __rmul__(s, o): return bop(np.multiply, o, s)
    def __truediv__(s, o): return bop(np.true_divide, s, o)
    def __rtruediv__(s, o): return bop(np.true_divide, o, s)
    def __neg__(s): return E([neg(c) for c in s.val], -s.dummy, sel=s.sel)
    def __abs__(s): return absolute(s)

    def __pow__(s, n):
        if n == 2:
            return bop(np.multiply, s, s)
        if n == 1:
            return s.copy()
        raise Unsupported('power')

    def inpl(s, r):
        if not np.can_cast(r.dtype, s.dtype, 'same_kind'):
            raise TypeError('ufunc output cast')
        s.set(r.val if r.cplx == s.cplx else conv(r, s.dtype).val)
        return s

    def __iadd__(s, o): return s.inpl(s + o)
    def __isub__(s, o): return s.inpl(s - o)
    def __imul__(s, o): return s.inpl(s * o)
    def __itruediv__(s, o): return s.inpl(s / o)
    def __lt__(s, o): return cmp('<', s, o)
    def __le__(s, o): return cmp('<=', s, o)
    def __gt__(s, o): return cmp('<', o, s)
    def __ge__(s, o): return cmp('<=', o, s)
    def __eq__(s, o): return cmp('==', s, o)
    def __ne__(s, o): return inv(cmp('==', s, o))
    __hash__ = object.__hash__
    def __invert__(s): return inv(s)
    def __and__(s, o): return logic(AND, s, o)
    def __or__(s, o): return logic(OR, s, o)

    def __bool__(s):
        raise Unsupported('truth value of an array')

    def set(self, val):
        self.val = val
        if self.origin != 'fresh':
            V.CUR.input_writes.append(self.origin)

    def copy(self, order='C'):
        return E(self.val, self.dummy)

    def astype(self, dt, copy=True, **k):
        return conv(self, np.dtype(dt)) if np.dtype(dt) != self.dtype or copy else self

    @property
    def size(self):
        return V.SInt(z3.Int('total'))

    @property
    def ndim(self):
        return V.SInt(z3.Int('rank'))

    @property
    def real(self):
        return E([self.val[0]], self.dummy.real, origin=self.origin) if self.cplx else self

    @property
    def imag(self):
        return E([self.val[1]], self.dummy.imag, origin=self.origin) if self.cplx else E([fin(RV(0))], self.dummy)

    def any(self):
        return EN().any(self)

    def all(self):
        return EN().all(self)

    def clip(self, min=None, max=None, out=None):
        r = clip(self, min, max)
        if out is not None:
            out.inpl(r)
            return out
        return r

    def __getitem__(self, k):
        if isinstance(k, E) and k.isb:
            return E(self.val, self.dummy, sel=k.val)
        if k is Ellipsis or isinstance(k, slice) and k == slice(None) or k == ():
            return E(self.val, self.dummy, self.origin)
        raise Unsupported('index')

    def __setitem__(self, k, v):
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            c = T
        elif isinstance(k, E) and k.isb:
            c = k.val
        else:
            raise Unsupported('index')
        v = lift(v)
        if v.sel is not None and not V.CUR.valid(v.sel == c):
            raise Unsupported('assignment between different selections')
        v = conv(v, self.dtype)
        self.set([ite(c, p, q) for p, q in zip(v.val, self.val)])


SHAPE = V.__dict__.get('_dummy_shape', ('generic',))


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, complex):
        return E([const(x.real), const(x.imag)], np.zeros(0, 'c16'))
    e = E([const(x)], None)
    e.dummy = Weak(x)
    return e


class Weak:
    """Python scalar: takes part in promotion by kind only"""
    def __init__(self, x):
        self.v = 1.0 if isinstance(x, (V.SReal, float)) else True if isinstance(x, bool) else 1 if isinstance(x, (int, V.SInt)) else x
        self.dtype = np.asarray(self.v).dtype


def raw(d):
    return d.v if isinstance(d, Weak) else d


def conv(e, dt):
    dt = np.dtype(dt)
    d = np.zeros(0, dt)
    if dt.kind == 'c':
        return E(list(e.val) + ([fin(RV(0))] if len(e.val) == 1 else []), d, sel=e.sel)
    if dt.kind == 'f':
        return E(e.val[:1], d, sel=e.sel)
    if dt.kind in 'iu':
        if e.dtype.kind in 'iub' and np.can_cast(e.dtype, dt):
            return E(e.val[:1], d, sel=e.sel)
        r = z3.Function('trunc_int', V.RealS, V.RealS)
        return E([fin(r(e.val[0][2]))], d, sel=e.sel)
    raise Unsupported('conversion to ' + str(dt))


def pair(e):
    return list(e.val) + ([fin(RV(0))] if len(e.val) == 1 else [])


def bop(f, a, b):
    a, b = lift(a), lift(b)
    if a.dtype.kind == 'b' or b.dtype.kind == 'b':
        raise Unsupported('arithmetic with truth values')
    with np.errstate(all='ignore'):
        d = f(raw(a.dummy), raw(b.dummy))
    d = d if isinstance(d, np.ndarray) else np.zeros(0, np.asarray(d).dtype)
    op = {np.add: add, np.subtract: lambda p, q: add(p, neg(q)), np.multiply: mul, np.true_divide: div}[f]
    if d.dtype.kind != 'c':
        v = [op(a.val[0], b.val[0])]
    elif f in (np.add, np.subtract):
        v = [op(p, q) for p, q in zip(pair(a), pair(b))]
    elif f is np.multiply and (len(a.val) == 1 or len(b.val) == 1):
        # a real factor: numpy multiplies with imaginary part zero, which changes nothing for finite values
        c, s = (a, b.val[0]) if len(a.val) == 2 else (b, a.val[0])
        bad = NOT(AND(z3.Not(s[0]), s[1] == 0))
        v = [(OR(x[0], z3.And(bad, V.CUR.bool(V.CUR.fresh('cnan')).e)), x[1], x[2]) for x in (mul(c.val[0], s), mul(c.val[1], s))]
    elif f is np.true_divide and len(b.val) == 1:
        v = [div(c, b.val[0]) for c in a.val]
    else:
        raise Unsupported('complex product')
    return E(v, d, sel=a.sel if a.sel is not None else b.sel)


def absolute(a):
    a = lift(a)
    d = np.abs(raw(a.dummy))
    if not a.cplx:
        c = a.val[0]
        return E([NonNeg((c[0], z3.If(c[1] != 0, IV(1), IV(0)), z3.If(c[2] < 0, -c[2], c[2])))], d)
    re, im = a.val
    key = ('abs', re[2].get_id(), im[2].get_id())
    m = V.CUR.memo.get(key)
    if m is None:
        m = z3.Real(V.CUR.fresh('abs'))
        V.CUR.assume(z3.And(m >= 0, m * m == re[2] * re[2] + im[2] * im[2]))
        V.CUR.assume((m == 0) == z3.And(re[2] == 0, im[2] == 0))
        V.CUR.memo[key] = m
        V.CUR.memo[key + ('ref',)] = (re, im)
    inf = OR(re[1] != 0, im[1] != 0)
    return E([NonNeg((AND(z3.Or(re[0], im[0]), z3.Not(inf)), IF(inf, IV(1), IV(0)), m))], d)


def cmp(op, a, b):
    a, b = lift(a), lift(b)
    if a.cplx or b.cplx:
        if op != '==':
            raise Unsupported('ordering of complex values')
        return E(AND(*[eq(p, q) for p, q in zip(pair(a), pair(b))]), np.zeros(0, bool))
    f = {'<': lt, '<=': le, '==': eq}[op]
    return E(f(a.val[0], b.val[0]), np.zeros(0, bool))


def bf(x):
    if isinstance(x, E) and x.isb:
        return x.val
    if isinstance(x, (bool, np.bool_)):
        return BV(bool(x))
    if isinstance(x, V.SBool):
        return x.e
    raise Unsupported('condition')


def inv(a):
    return E(NOT(bf(a)), np.zeros(0, bool))


def logic(f, a, b):
    return E(f(bf(a), bf(b)), np.zeros(0, bool))


def clip(a, lo, hi):
    r = a.val
    if a.cplx:
        raise Unsupported('clip of complex values')
    v = r[0]
    if lo is not None:
        l = lift(lo).val[0]
        v = ite(lt(v, l), l, v)
    if hi is not None:
        h = lift(hi).val[0]
        v = ite(lt(h, v), h, v)
    with np.errstate(all='ignore'):
        d = raw(a.dummy).clip(lo if lo is None else raw(lift(lo).dummy), hi if hi is None else raw(lift(hi).dummy)) if lo is not None or hi is not None else a.dummy
    return E([v], d)


class EN(V.NP):
    """numpy contracts for pointwise code"""
    def asarray(self, x, dtype=None, **k):
        if isinstance(x, E):
            return x if dtype is None or np.dtype(dtype) == x.dtype else conv(x, dtype)
        return lift(x)
    asanyarray = asarray

    def array(self, x, dtype=None, copy=True, **k):
        return E(x.val, x.dummy) if dtype is None else conv(x, dtype)

    def copy(self, x, **k):
        return x.copy()

    def absolute(self, x):
        return absolute(x)
    abs = fabs = absolute

    def less(self, a, b): return cmp('<', a, b)
    def less_equal(self, a, b): return cmp('<=', a, b)
    def greater(self, a, b): return cmp('<', b, a)
    def greater_equal(self, a, b): return cmp('<=', b, a)
    def equal(self, a, b): return cmp('==', a, b)
    def not_equal(self, a, b): return inv(cmp('==', a, b))
    def logical_not(self, a): return inv(a)
    def logical_and(self, a, b): return logic(AND, a, b)
    def logical_or(self, a, b): return logic(OR, a, b)

    def where(self, c, a, b):
        c = bf(c)
        a, b = lift(a), lift(b)
        d = np.where(np.zeros(0, bool), raw(a.dummy), raw(b.dummy))
        if d.dtype.kind == 'c':
            return E([ite(c, p, q) for p, q in zip(pair(a), pair(b))], d)
        if d.dtype.kind == 'b':
            raise Unsupported('where of truth values')
        return E([ite(c, a.val[0], b.val[0])], d)

    def _u2(self, f, a, b, out=None, **k):
        if k:
            raise Unsupported('ufunc options')
        r = bop(f, a, b)
        return r if out is None else out.inpl(r)

    def multiply(self, a, b, out=None, **k): return self._u2(np.multiply, a, b, out, **k)
    def add(self, a, b, out=None, **k): return self._u2(np.add, a, b, out, **k)
    def subtract(self, a, b, out=None, **k): return self._u2(np.subtract, a, b, out, **k)
    def divide(self, a, b, out=None, **k): return self._u2(np.true_divide, a, b, out, **k)
    true_divide = divide

    def square(self, a): return a * a
    def negative(self, a): return -a

    def maximum(self, a, b):
        a, b = lift(a), lift(b)
        d = np.maximum(raw(a.dummy), raw(b.dummy))
        if d.dtype.kind == 'c':
            raise Unsupported('maximum of complex')
        p, q = a.val[0], b.val[0]
        v = ite(lt(p, q), q, p)
        return E([(OR(p[0], q[0]), v[1], v[2])], d if isinstance(d, np.ndarray) else np.zeros(0, type(d)))

    def minimum(self, a, b):
        return -self.maximum(-lift(a), -lift(b)) if isinstance(a, E) and isinstance(b, E) else self._min(a, b)

    def _min(self, a, b):
        a, b = lift(a), lift(b)
        d = np.minimum(raw(a.dummy), raw(b.dummy))
        p, q = a.val[0], b.val[0]
        v = ite(lt(q, p), q, p)
        return E([(OR(p[0], q[0]), v[1], v[2])], d)

    def sign(self, a):
        if a.cplx:
            raise Unsupported('sign of complex')
        c = a.val[0]
        s = sgn(c)
        return E([(c[0], IV(0), z3.ToReal(s))], np.sign(raw(a.dummy)))

    def clip(self, a, lo, hi, out=None):
        return a.clip(lo, hi, out)

    def isnan(self, a):
        return E(a.nan(), np.zeros(0, bool))

    def isfinite(self, a):
        return E(AND(*[z3.And(z3.Not(c[0]), c[1] == 0) for c in a.val]), np.zeros(0, bool))

    def any(self, c, *a, **k):
        if a or k:
            raise Unsupported('np.any options')
        if isinstance(c, E):
            b = V.CUR.bool(V.CUR.fresh('any')).e
            V.CUR.assume(z3.Implies(bf(c), b))
            return V.SBool(b)
        return super().any(c)

    def all(self, c, *a, **k):
        if a or k:
            raise Unsupported('np.all options')
        if isinstance(c, E):
            b = V.CUR.bool(V.CUR.fresh('all')).e
            V.CUR.assume(z3.Implies(b, bf(c)))
            return V.SBool(b)
        return super().all(c)

    def count_nonzero(self, c):
        return V.mk(z3.If(self.any(c).e, 1, 0))

    def iscomplexobj(self, x):
        return isinstance(x, E) and x.cplx or isinstance(x, complex)

    def isrealobj(self, x):
        return not self.iscomplexobj(x)

    def isscalar(self, x):
        return not isinstance(x, E)

    def zeros_like(self, a, dtype=None):
        d = np.zeros(0, dtype or a.dtype)
        return E([fin(RV(0))] * (2 if d.dtype.kind == 'c' else 1), d)

    def full_like(self, a, v, dtype=None):
        return conv(lift(v), dtype or a.dtype)

    def ones_like(self, a, dtype=None):
        return self.full_like(a, 1, dtype)

    def empty_like(self, a, dtype=None):
        d = np.zeros(0, dtype or a.dtype)
        return E([fin(z3.Real(V.CUR.fresh('uninit'))) for _ in range(2 if d.dtype.kind == 'c' else 1)], d)

    def ndim(self, x):
        return 0 if not isinstance(x, E) else x.ndim

    def isinf(self, x):
        if isinstance(x, E):
            return E(OR(*[c[1] != 0 for c in x.val]), np.zeros(0, bool))
        return isinstance(x, float) and np.isinf(x)

    def copyto(self, dst, src, where=True):
        if where is True:
            dst[...] = src
        else:
            s = lift(src)
            dst[where] = E(s.val, s.dummy if isinstance(s.dummy, np.ndarray) else s.dummy)

    def putmask(self, dst, mask, v):
        dst[mask] = lift(v)
