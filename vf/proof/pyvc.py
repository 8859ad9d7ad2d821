"""Deductive verification of Python functions of the current tree, path by path.

The text of a module is parsed on every run and executed unchanged by CPython, except that
  * import statements are dropped; the imported names are bound to *contracts* of those functions (class Namespace below);
  * built-in functions that must produce a machine value (len, range, isinstance, min, max, int, ...) are replaced by
    versions that also accept symbolic values.
Arguments are symbolic: integers (SInt), arrays (SArr: any extents, any contents).  A comparison of symbolic values whose
outcome the path condition does not settle splits the path (the function is re-executed for each outcome), so that all
paths are enumerated.  At the end of each path the postcondition is discharged by z3 under the path condition.

Array contents are functions from index vectors to reals (complex contents are treated as elements of the same field);
views share buffers and writes through views are modelled exactly; machine rounding is not modelled."""
import ast, builtins, os, time, types, functools, itertools
import numpy as np
import z3
import lib
from cast import Unsupported as CUnsupported

REPO = lib.REPO


class Unsupported(BaseException):
    """outside the reach of the engine: the obligation is undecided"""


class Prune(BaseException):
    """the path is infeasible or beyond the stated bound"""


CUR = None          # the running engine


def eng():
    return CUR


# ---------------------------------------------------------------- symbolic scalars
def is_sym(x):
    return isinstance(x, (SInt, SBool))


def zi(x):
    """z3 integer expression of a python or symbolic integer"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f'integer expected, not {type(x).__name__}')


def mk(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def isint(x):
    return isinstance(x, (int, np.integer, SInt)) and not isinstance(x, bool)


class SBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        return mkb(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        return mkb(self.e == zb(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic truth value')

    def __getattr__(self, n):
        raise Unsupported('attribute of a symbolic truth value: ' + n)


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f'truth value expected, not {type(x).__name__}')


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _num(o):
    return isinstance(o, (int, np.integer, SInt)) or (isinstance(o, float) and o == o and abs(o) < 1e18 and o == int(o))


class Deferred:
    """operand class that implements mixed operations itself"""


class SInt:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _b(self, o, f):
        if isinstance(o, (SArr, SVec, Deferred)):
            return NotImplemented
        if not _num(o):
            if isinstance(o, float):
                raise Unsupported('arithmetic of a symbolic integer and a float')
            return NotImplemented
        return f(zi(o))

    def __add__(self, o):
        return self._b(o, lambda b: mk(self.e + b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda b: mk(self.e - b))

    def __rsub__(self, o):
        return self._b(o, lambda b: mk(b - self.e))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            raise Unsupported('repetition by a symbolic count')
        return self._b(o, lambda b: mk(self.e * b))
    __rmul__ = __mul__

    def _div(self, a, b):
        bb = z3.simplify(b)
        if not (z3.is_int_value(bb) and bb.as_long() > 0):
            if not CUR.valid(bb > 0):
                raise Unsupported('division by a divisor not known to be positive')
        return a / bb, a % bb

    def __floordiv__(self, o):
        return self._b(o, lambda b: mk(self._div(self.e, b)[0]))

    def __rfloordiv__(self, o):
        return self._b(o, lambda b: mk(self._div(b, self.e)[0]))

    def __mod__(self, o):
        return self._b(o, lambda b: mk(self._div(self.e, b)[1]))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return self._b(o, lambda b: mk(self._div(b, self.e)[1]))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isint(o):
            return SRat(self, o)
        if isinstance(o, float) and 1 <= o < 1e6 and o == int(o):
            return SRat(self, int(o))
        if isinstance(o, Deferred):
            return NotImplemented
        raise Unsupported('true division of a symbolic integer')

    def __rtruediv__(self, o):
        raise Unsupported('true division by a symbolic integer')

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported('shift by a symbolic count')

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported('shift by a symbolic count')

    def __rlshift__(self, o):
        return CUR.pow2(self) * o

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2:
            return CUR.pow2(self)
        raise Unsupported('symbolic exponent')

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power of a symbolic integer')

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        raise Unsupported('bit operation')
    __rand__ = __and__

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e < 0, -self.e, self.e))

    def _c(self, o, f):
        if isinstance(o, Deferred):
            return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return f(0, o) if False else (f(z3.IntVal(0)) if False else self._cinf(o, f))
        if not _num(o):
            if isinstance(o, float):
                raise Unsupported('comparison with a float')
            return NotImplemented
        return mkb(f(zi(o)))

    def _cinf(self, o, f):
        raise Unsupported('comparison with infinity')

    def __lt__(self, o):
        return self._c(o, lambda b: self.e < b)

    def __le__(self, o):
        return self._c(o, lambda b: self.e <= b)

    def __gt__(self, o):
        return self._c(o, lambda b: self.e > b)

    def __ge__(self, o):
        return self._c(o, lambda b: self.e >= b)

    def __eq__(self, o):
        r = self._c(o, lambda b: self.e == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda b: self.e != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        return 0

    def __index__(self):
        v = CUR.unique(self.e)
        if v is None:
            raise Unsupported('a machine integer is needed for ' + str(self.e)[:60])
        return v
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return '<int %s>' % self.e

    def __str__(self):
        return repr(self)

    def __format__(self, s):
        return repr(self)

    # what numpy integers offer
    dtype = np.dtype(np.int64)
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    @property
    def real(self):
        return self

    def __getattr__(self, n):
        raise Unsupported('attribute of a symbolic integer: ' + n)


class SRat:
    """quotient of two integers, as in (a - b) / 2.0"""
    __array_ufunc__ = None

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __gt__(self, o):
        if _num(o):
            return self.n > self.d * o
        return NotImplemented

    def __lt__(self, o):
        if _num(o):
            return self.n < self.d * o
        return NotImplemented

    def __ge__(self, o):
        if _num(o):
            return self.n >= self.d * o
        return NotImplemented

    def __le__(self, o):
        if _num(o):
            return self.n <= self.d * o
        return NotImplemented

    def __getattr__(self, n):
        raise Unsupported('attribute of a quotient: ' + n)


def smin(*a):
    r = a[0]
    for x in a[1:]:
        if is_sym(r) or is_sym(x):
            r = CUR.norm(z3.If(zi(x) < zi(r), zi(x), zi(r)))
        else:
            r = min(r, x)
    return r


def smax(*a):
    r = a[0]
    for x in a[1:]:
        if is_sym(r) or is_sym(x):
            r = CUR.norm(z3.If(zi(x) > zi(r), zi(x), zi(r)))
        else:
            r = max(r, x)
    return r


class SVec:
    """1-D integer or truth-value array of known length with symbolic entries (shapes, offsets)"""
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = list(v)

    dtype = np.dtype(np.int64)
    ndim = 1

    @property
    def shape(self):
        return (len(self.v),)

    @property
    def size(self):
        return len(self.v)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def tolist(self):
        return list(self.v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SVec(self.v[k])
        if isinstance(k, (int, np.integer)):
            return self.v[int(k)]
        if isinstance(k, (list, tuple, np.ndarray, SVec)):
            return SVec([self.v[int(i)] for i in k])
        raise Unsupported('index of an integer vector')

    def __setitem__(self, k, val):
        if isinstance(k, slice):
            k = range(len(self.v))[k]
        if isinstance(k, (int, np.integer)):
            self.v[int(k)] = val
            return
        ks = [int(i) for i in k]
        vals = list(val) if isinstance(val, (list, tuple, np.ndarray, SVec, range)) else [val] * len(ks)
        if len(vals) != len(ks):
            raise Unsupported('assignment to an integer vector')
        for i, x in zip(ks, vals):
            self.v[i] = x

    def _z(self, o, f):
        if isinstance(o, (list, tuple, np.ndarray, SVec)):
            o = list(o)
            if len(o) == 1:
                o = o * len(self.v)
            if len(o) != len(self.v):
                if len(self.v) == 1:
                    return SVec([f(self.v[0], b) for b in o])
                raise ValueError('operands could not be broadcast together')
            return SVec([f(a, b) for a, b in zip(self.v, o)])
        if isint(o) or isinstance(o, (bool, SBool)):
            return SVec([f(a, o) for a in self.v])
        raise Unsupported('operand of an integer vector')

    def __add__(self, o): return self._z(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._z(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._z(o, lambda a, b: b - a)
    def __mul__(self, o): return self._z(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __floordiv__(self, o): return self._z(o, lambda a, b: a // b)
    def __mod__(self, o): return self._z(o, lambda a, b: a % b)
    def __neg__(self): return SVec([-a for a in self.v])
    def __lt__(self, o): return self._z(o, lambda a, b: a < b)
    def __le__(self, o): return self._z(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._z(o, lambda a, b: a > b)
    def __ge__(self, o): return self._z(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._z(o, lambda a, b: a == b)
    def __ne__(self, o): return self._z(o, lambda a, b: a != b)
    def __or__(self, o): return self._z(o, lambda a, b: a | b)
    def __and__(self, o): return self._z(o, lambda a, b: a & b)
    __hash__ = None

    def any(self):
        return s_any(self.v)

    def all(self):
        return s_all(self.v)

    def min(self):
        return smin(*self.v)

    def max(self):
        return smax(*self.v)

    def sum(self):
        r = 0
        for x in self.v:
            r = r + x
        return r

    def prod(self):
        return prod(self.v)

    def copy(self):
        return SVec(self.v)

    def astype(self, dt, copy=True):
        if np.dtype(dt).kind in 'iu':
            return SVec(self.v)
        raise Unsupported('conversion of an integer vector')

    def __bool__(self):
        if len(self.v) == 1:
            return bool(self.v[0])
        raise Unsupported('truth value of a vector')

    def __getattr__(self, n):
        raise Unsupported('attribute of an integer vector: ' + n)


def s_any(v):
    return mkb(z3.Or([zb(x) if isinstance(x, (bool, SBool, np.bool_)) else zi(x) != 0 for x in v])) if any(is_sym(x) for x in v) else any(v)


def s_all(v):
    return mkb(z3.And([zb(x) if isinstance(x, (bool, SBool, np.bool_)) else zi(x) != 0 for x in v])) if any(is_sym(x) for x in v) else all(v)


def prod(v):
    """product; a nonlinear product becomes one symbol per multiset of factors"""
    c, sym = 1, []
    for x in v:
        if isinstance(x, SInt):
            sym.append(x)
        else:
            c *= int(x)
    if not sym or c == 0:
        return c
    if len(sym) == 1:
        return sym[0] * c
    return CUR.product(sym) * c


# ---------------------------------------------------------------- arrays
def cached(f):
    """contents function evaluated once per index"""
    if getattr(f, 'cached', False):
        return f
    memo = {}

    def g(idx):
        idx = [zi(i) for i in idx]
        k = tuple(i.get_id() for i in idx)
        if k not in memo:
            memo[k] = (idx, f(idx))
        return memo[k][1]
    g.cached = True
    return g


class Buffer:
    @property
    def elem(self):
        return self._elem

    @elem.setter
    def elem(self, f):
        self._elem = cached(f)

    def __init__(self, shape, elem, origin='fresh'):
        self.shape, self.elem, self.origin, self.writes = tuple(shape), elem, origin, 0
        self.shares = None          # buffer this one may be a view of (ravel of an array that may be contiguous)
        self.viewed = False         # such a view of this one exists


RealS = z3.RealSort()


def real(x):
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return CUR.const(float(x))
    if isinstance(x, SInt):
        return z3.ToReal(x.e)
    if z3.is_expr(x):
        return x
    if isinstance(x, SReal):
        return x.e
    raise Unsupported(f'number expected, not {type(x).__name__}')


class SReal:
    """symbolic real scalar"""
    __array_ufunc__ = None
    dtype = np.dtype(float)
    ndim = 0

    def __init__(self, e):
        self.e = e

    def _o(self, o, f):
        if isinstance(o, (SArr, Deferred, SVec)) or hasattr(type(o), 'vf_take'):
            return NotImplemented
        return SReal(z3.simplify(f(real(o))))

    def __add__(self, o): return self._o(o, lambda b: self.e + b)
    __radd__ = __add__
    def __sub__(self, o): return self._o(o, lambda b: self.e - b)
    def __rsub__(self, o): return self._o(o, lambda b: b - self.e)
    def __mul__(self, o): return self._o(o, lambda b: self.e * b)
    __rmul__ = __mul__
    def __neg__(self): return SReal(-self.e)
    def __truediv__(self, o): return self._o(o, lambda b: CUR.rdiv(self.e, b))
    def __rtruediv__(self, o): return self._o(o, lambda b: CUR.rdiv(b, self.e))
    def _cmp(self, o, f, g):
        if isinstance(o, (SArr, Deferred)):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (float('inf'), -float('inf'))):
            return g(0.0, o)
        return mkb(f(self.e, real(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
    __hash__ = None

    def __getattr__(self, n):
        raise Unsupported('attribute of a symbolic number: ' + n)


class Prog:
    """arithmetic progression of indices: np.arange(first, stop, step) with step >= 1"""
    __array_ufunc__ = None
    dtype = np.dtype(np.int64)
    ndim = 1

    def __init__(self, first, step, n):
        self.first, self.step, self.n = first, step, n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __getitem__(self, k):
        if not isinstance(k, slice):
            if isint(k):
                st, ln, sp = norm_slice(slice(k, None), self.n)
                return self.first + st * self.step
            raise Unsupported('index of an index range')
        st, ln, sp = norm_slice(k, self.n)
        if not isinstance(sp, int) or sp < 1:
            raise Unsupported('reversed index range')
        return Prog(self.first + st * self.step, self.step * sp, ln)

    def __add__(self, o):
        if isint(o):
            return Prog(self.first + o, self.step, self.n)
        raise Unsupported('arithmetic of an index range')
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, int) and o >= 1:
            return Prog(self.first * o, self.step * o, self.n)
        if isinstance(o, SArr):
            return NotImplemented
        return self.arr() * o

    def __rmul__(self, o):
        return self.__mul__(o)

    def __mod__(self, o):
        if isint(o):
            f, s = self.first, self.step
            return ModProg(self, o)
        raise Unsupported('remainder of an index range')

    def arr(self):
        f, s = zi(self.first), zi(self.step)
        return SArr.fresh((self.n,), np.dtype(np.int64), lambda idx: z3.ToReal(f + s * zi(idx[0])))

    def __getattr__(self, n):
        raise Unsupported('attribute of an index range: ' + n)


class ModProg:
    """indices (first + step*i) mod m"""
    ndim = 1

    def __init__(self, p, m):
        self.p, self.m, self.n = p, m, p.n

    def at(self, i):
        return (self.p.first + self.p.step * i) % self.m

    def __getattr__(self, n):
        raise Unsupported('attribute of an index range: ' + n)


def norm_slice(s, n):
    """(start, length, step) of a slice of an axis of extent n; numpy's clamping"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SInt):
        u = CUR.unique(step.e)
        if u is None:
            if not CUR.valid(step.e >= 1):
                raise Unsupported('symbolic slice step')
            step = step
        else:
            step = u
    if isinstance(step, np.integer):
        step = int(step)
    if not isinstance(step, (int, SInt)) or (isinstance(step, int) and step == 0):
        raise Unsupported('slice step')
    if isinstance(step, int) and step < 0:
        if step != -1 or s.start is not None or s.stop is not None:
            raise Unsupported('slice with a negative step')
        return n - 1, n, -1

    def clamp(v, dflt):
        if v is None:
            return dflt
        if not isint(v):
            raise Unsupported('slice bound of type ' + type(v).__name__)
        a, m = zi(v), zi(n)
        return CUR.norm(z3.If(a < 0, z3.If(a + m < 0, 0, a + m), z3.If(a > m, m, a)))
    st, en = clamp(s.start, 0), clamp(s.stop, n)
    d = zi(en) - zi(st)
    if isinstance(step, int) and step == 1:
        ln = CUR.norm(z3.If(d > 0, d, 0))
    else:
        z = zi(step)
        if CUR.valid(d > 0):
            ln = CUR.norm((d + z - 1) / z)
        else:
            ln = CUR.norm(z3.If(d > 0, (d + z - 1) / z, 0))
    return st, ln, step


def bshape(*shapes):
    """broadcast of shapes (extents are compared under the path condition)"""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        r = 1
        for s in shapes:
            if len(s) < nd - k:
                continue
            v = s[len(s) - nd + k]
            if r is v:
                continue
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = v
            elif bool(r == v):
                pass
            elif bool(r == 1):
                r = v
            elif bool(v == 1):
                pass
            else:
                raise ValueError('operands could not be broadcast together')
        out.append(r)
    return tuple(out)


def bidx(a, nd, idx, outshape):
    """index of operand `a` for the broadcast index idx"""
    off = nd - len(a.shape)
    res = []
    for k, n in enumerate(a.shape):
        if isinstance(n, int) and n == 1 and not (isinstance(outshape[off + k], int) and outshape[off + k] == 1):
            res.append(z3.IntVal(0))
        elif n is outshape[off + k] or (isinstance(n, SInt) and isinstance(outshape[off + k], SInt) and n.e.eq(outshape[off + k].e)):
            res.append(idx[off + k])
        else:
            res.append(z3.If(zi(n) == 1, z3.IntVal(0), idx[off + k]) if not (isinstance(n, int)) else idx[off + k])
    return res


class Meta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o)


class SArr:
    """array view: buffer + index map"""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, buf, shape, dtype, imap, contiguous=True, inv=None):
        self.buf, self._shape, self.dtype, self.imap, self.contig, self.inv = buf, tuple(shape), np.dtype(dtype), imap, contiguous, inv

    @property
    def shares(self):
        return self.buf.shares

    @staticmethod
    def fresh(shape, dtype, elem, origin='fresh'):
        shape = tuple(shape)
        b = Buffer(shape, elem, origin)
        return SArr(b, shape, dtype, lambda idx: idx, True,
                    lambda b: (z3.BoolVal(True), b))

    # --- attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return prod(self._shape)

    @property
    def T(self):
        return self.transpose()

    @property
    def base(self):
        raise Unsupported('base')

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        raise Unsupported('real part')

    @property
    def flags(self):
        return Flags(self)

    # --- contents
    def elem(self):
        """content as a function of the index, as it is now"""
        be, im = self.buf.elem, self.imap
        return lambda idx: be(im(list(idx)))

    def at(self, idx):
        return self.buf.elem(self.imap([zi(i) for i in idx]))

    def __len__(self):
        raise Unsupported('len')

    def slen(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __iter__(self):
        n = self.slen()
        n = CUR.unique(zi(n)) if is_sym(n) else n
        if n is None:
            raise Unsupported('iteration over a symbolic axis')
        return iter([self[i] for i in range(n)])

    def _key(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            n = self.ndim - sum(x is not None for x in k) + 1
            k = k[:i] + (slice(None),) * n + k[i + 1:]
        nn = sum(x is not None for x in k)
        if nn > self.ndim:
            raise IndexError('too many indices for array')
        return k + (slice(None),) * (self.ndim - nn)

    def view(self, k):
        """basic indexing -> view (with exact inverse for writes)"""
        k = self._key(k)
        shape, plan, ax = [], [], 0
        ident = True
        for x in k:
            if x is None:
                shape.append(1)
                plan.append(('new',))
                ident = False
                continue
            n = self._shape[ax]
            if isinstance(x, slice):
                st, ln, sp = norm_slice(x, n)
                shape.append(ln)
                plan.append(('sl', st, ln, sp))
                if not (isinstance(st, int) and st == 0 and isinstance(sp, int) and sp == 1):
                    ident = False
                elif not (ln is n or ln == n if not is_sym(ln) or not is_sym(n) else ln.e.eq(n.e)):
                    ident = False
            elif isint(x):
                i = zi(x)
                if not CUR.valid(z3.And(i < zi(n), i >= -zi(n))):
                    if bool(mkb(z3.Or(i >= zi(n), i < -zi(n)))):
                        raise IndexError('index out of bounds')
                plan.append(('ix', CUR.norm(z3.If(i < 0, i + zi(n), i))))
                ident = False
            else:
                raise Unsupported('index of type ' + type(x).__name__)
            ax += 1
        im = self.imap

        def imap(idx):
            out, j = [], 0
            for p in plan:
                if p[0] == 'new':
                    j += 1
                elif p[0] == 'ix':
                    out.append(zi(p[1]))
                else:
                    i = idx[j]
                    j += 1
                    st, sp = p[1], p[3]
                    if isinstance(sp, int) and sp == 1:
                        out.append(i if isinstance(st, int) and st == 0 else zi(st) + i)
                    elif isinstance(sp, int) and sp == -1:
                        out.append(zi(st) - i)
                    else:
                        back = CUR.memo.get(('inverse of', i.get_id())) if z3.is_expr(i) else None
                        if back is not None and back[1].eq(z3.simplify(zi(st))) and back[2].eq(zi(sp)):
                            out.append(back[0])
                        else:
                            out.append(zi(st) + zi(sp) * i)
            return im(out)
        pinv = self.inv

        def inv(b):
            ok, pi = pinv(b)
            conds, idx, j = [ok], [], 0
            for p in plan:
                if p[0] == 'new':
                    idx.append(z3.IntVal(0))
                    continue
                i = pi[j]
                j += 1
                if p[0] == 'ix':
                    conds.append(i == zi(p[1]))
                else:
                    st, ln, sp = zi(p[1]), zi(p[2]), p[3]
                    if isinstance(sp, int) and sp == 1:
                        q = i - st
                        conds += [q >= 0, q < ln]
                    elif isinstance(sp, int) and sp == -1:
                        q = st - i
                        conds += [q >= 0, q < ln]
                    else:
                        # q: position in the view of element i; meaningful (and used) only when the conditions hold
                        key = ('inverse', i.get_id(), z3.simplify(st).get_id(), zi(sp).get_id())
                        if key not in CUR.memo:
                            q = z3.Int(CUR.fresh('pos'))
                            CUR.memo[key] = (q, i, z3.simplify(st), zi(sp))
                            CUR.memo[('inverse of', q.get_id())] = (i, z3.simplify(st), zi(sp))
                            CUR.assume(q == (i - st) / zi(sp))
                        q = CUR.memo[key][0]
                        conds += [i >= st, (i - st) % zi(sp) == 0, q < ln]
                    idx.append(q)
            return z3.And(conds), idx
        return SArr(self.buf, shape, self.dtype, imap, self.contig and ident, inv)

    def __getitem__(self, k):
        if hasattr(type(k), 'vf_take'):
            return k.vf_take(self)
        if isinstance(k, (Prog, ModProg)):
            return self.take_axis(k, 0)
        if isinstance(k, tuple) and any(isinstance(x, (Prog, ModProg)) for x in k):
            p = [i for i, x in enumerate(k) if isinstance(x, (Prog, ModProg))]
            if len(p) > 1 or any(x is Ellipsis or x is None for x in k):
                raise Unsupported('several index arrays')
            v = self.view(tuple(slice(None) if i == p[0] else x for i, x in enumerate(k)))
            ax = sum(not isint(x) for x in k[:p[0]])
            return v.take_axis(k[p[0]], ax)
        if isinstance(k, (SArr, SVec, list, np.ndarray, SBool)):
            raise Unsupported('array index')
        r = self.view(k)
        if not r._shape and not (isinstance(k, tuple) and any(x is Ellipsis for x in k)):
            return SReal(r.at([]))
        return r

    def take_axis(self, p, ax):
        el = self.elem()
        n = self._shape[ax]
        if isinstance(p, Prog):
            last = p.first + p.step * (p.n - 1)
            if not CUR.valid(z3.Or(zi(p.n) <= 0, z3.And(zi(p.first) >= 0, zi(last) < zi(n)))):
                raise Unsupported('index array not known to be in range')
            f, s = zi(p.first), zi(p.step)
            g = lambda i: f + s * i
        else:
            if not CUR.valid(z3.And(zi(p.m) <= zi(n), zi(p.m) > 0)):
                raise Unsupported('index array not known to be in range')
            g = lambda i: zi(p.at(SInt(i)))
        shape = self._shape[:ax] + (p.n,) + self._shape[ax + 1:]
        return SArr.fresh(shape, self.dtype, lambda idx: el([g(x) if j == ax else x for j, x in enumerate(idx)]))

    def __setitem__(self, k, val):
        if isinstance(k, (Prog, ModProg)) or isinstance(k, tuple) and any(isinstance(x, (Prog, ModProg)) for x in k):
            kk = k if isinstance(k, tuple) else (k,)

            def sl(x):
                if isinstance(x, Prog):
                    return slice(x.first, x.first + x.step * (x.n - 1) + 1 if not isinstance(x.n, int) or x.n else x.first, x.step)
                if isinstance(x, ModProg):
                    raise Unsupported('assignment through a wrapped index range')
                return x
            for x in kk:
                if isinstance(x, Prog) and not CUR.valid(z3.And(zi(x.first) >= 0, zi(x.n) >= 1)):
                    raise Unsupported('assignment through an index range that may be empty')
            k = tuple(sl(x) for x in kk)
        elif isinstance(k, (SArr, SVec, list, np.ndarray, SBool)):
            raise Unsupported('assignment through an array index')
        self.view(k).write(val)

    def write(self, val):
        shape = self._shape
        if isinstance(val, SArr):
            vs = list(val._shape)
            while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
                vs = vs[1:]
            if len(vs) > len(shape):
                raise ValueError('could not broadcast input array')
            for a, b in zip(vs[::-1], shape[::-1]):
                if not (isinstance(a, int) and a == 1) and a is not b and not bool(a == b):
                    if bool(a == 1):
                        continue
                    raise ValueError('could not broadcast input array')
            if self.dtype.kind != 'c' and val.dtype.kind == 'c':
                ve0, nm = val.elem(), CUR.func('real_part', 1)
                ve = lambda idx: nm(ve0(idx))
            else:
                ve = CUR.cast(val.elem(), val.dtype, self.dtype)
            vv, nd = val, len(shape)

            def src(idx):
                sub = bidx(vv, nd, idx, shape) if len(vs) == len(vv._shape) else idx
                return ve(sub)
        else:
            if isinstance(val, (list, tuple, np.ndarray, SVec, Prog)):
                raise Unsupported('assignment of a sequence')
            c = real(val)
            src = lambda idx: c
        old, inv = self.buf.elem, self.inv
        if self.buf.origin == 'fresh' and (self.buf.shares is not None or self.buf.viewed):
            raise Unsupported('write to an array that may share memory with its ravelled form')
        if inv is None:
            raise Unsupported('write through this view')

        def new(b):
            ok, idx = inv(list(b))
            ok = z3.simplify(ok)
            if z3.is_true(ok):
                return src(idx)
            if z3.is_false(ok):
                return old(b)
            return z3.If(ok, src(idx), old(b))
        self.buf.elem = new
        self.buf.writes += 1
        if self.buf.origin != 'fresh':
            CUR.input_writes.append(self.buf.origin)

    # --- arithmetic
    def _ew(self, o, f, dt=None):
        return ew(f, self, o, dt=dt)

    def __add__(self, o): return ew(lambda a, b: a + b, self, o)
    def __radd__(self, o): return ew(lambda a, b: b + a, self, o)
    def __sub__(self, o): return ew(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return ew(lambda a, b: b - a, self, o)
    def __mul__(self, o): return ew(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return ew(lambda a, b: b * a, self, o)
    def __truediv__(self, o): return ew(lambda a, b: CUR.rdiv(a, b), self, o, div=True)
    def __neg__(self): return ew(lambda a: -a, self)

    def _inplace(self, o, f):
        if self.dtype.kind != 'c' and isinstance(o, SArr) and o.dtype.kind == 'c':
            raise TypeError('Cannot cast ufunc output')
        if self.dtype.kind in 'iub' and (isinstance(o, float) or isinstance(o, SArr) and o.dtype.kind not in 'iub'):
            raise TypeError('Cannot cast ufunc output')
        r = f(self, o)
        if len(r._shape) != len(self._shape) or not CUR.shape_eq(r._shape, self._shape):
            raise ValueError('non-broadcastable output operand')
        r.dtype = self.dtype
        self.write(r)
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)

    def __eq__(self, o):
        raise Unsupported('elementwise comparison')
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported('truth value of an array')

    # --- methods
    def copy(self, order='C'):
        return SArr.fresh(self._shape, self.dtype, self.elem())

    def __copy__(self):
        return self.copy()

    def astype(self, dtype, order='K', casting='unsafe', copy=True):
        dt = np.dtype(dtype)
        if dt == self.dtype and not copy:
            return self
        return SArr.fresh(self._shape, dt, CUR.cast(self.elem(), self.dtype, dt))

    def ravel(self, order='C'):
        return CUR.ravel(self, False, order)

    def flatten(self, order='C'):
        return CUR.ravel(self, True, order)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return CUR.reshape(self, tuple(s))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a, b = (int(x) + self.ndim if x < 0 else int(x) for x in (a, b))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def transpose(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        if not p or p == (None,):
            p = tuple(range(self.ndim))[::-1]
        p = [int(x) + self.ndim if x < 0 else int(x) for x in p]
        if sorted(p) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        im, pinv = self.imap, self.inv

        def imap(idx):
            out = [None] * len(p)
            for j, q in enumerate(p):
                out[q] = idx[j]
            return im(out)

        def inv(b):
            ok, i = pinv(b)
            return ok, [i[q] for q in p]
        return SArr(self.buf, [self._shape[q] for q in p], self.dtype, imap, False if p != sorted(p) else self.contig, inv)

    def squeeze(self, *a):
        raise Unsupported('squeeze')

    def conj(self):
        if self.dtype.kind != 'c':
            return self.copy()
        f, el = CUR.func('conjugate', 1), self.elem()
        return SArr.fresh(self._shape, self.dtype, lambda idx: f(el(idx)))
    conjugate = conj

    def __getattr__(self, n):
        if n.startswith('__array'):
            raise AttributeError(n)
        raise Unsupported('attribute of an array: ' + n)

    def __repr__(self):
        return f'<array {self._shape} {self.dtype}>'


class Flags:
    def __init__(self, a):
        self.a = a

    @property
    def c_contiguous(self):
        if self.a.contig is None:
            self.a.contig = not CUR.choose(2)
        return self.a.contig

    contiguous = c_contiguous

    @property
    def writeable(self):
        return True

    def __getitem__(self, k):
        if k in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS'):
            return self.c_contiguous
        raise Unsupported('flags')

    def __getattr__(self, n):
        raise Unsupported('flags.' + n)


def res_dtype(args, div=False):
    a = []
    for x in args:
        if isinstance(x, SArr):
            a.append(x.dtype)
        elif isinstance(x, SReal):
            a.append(1.0)
        elif isinstance(x, SInt):
            a.append(1)
        elif isinstance(x, (int, float, complex, np.generic)):
            a.append(x)
        elif isinstance(x, Prog):
            a.append(x.dtype)
        else:
            raise Unsupported('operand of type ' + type(x).__name__)
    dt = np.result_type(*a)
    return np.result_type(dt, np.float64) if div and dt.kind in 'iub' else dt


def ew(f, *args, dt=None, div=False):
    dt = dt or res_dtype(args, div)
    ops, shapes = [], []
    for a in args:
        if isinstance(a, Prog):
            a = a.arr()
        if isinstance(a, SArr):
            ops.append((a, a.elem()))
            shapes.append(a._shape)
        elif isinstance(a, complex):
            raise Unsupported('complex constant')
        else:
            ops.append((None, real(a)))
    out = bshape(*shapes)
    nd = len(out)

    def el(idx):
        return f(*[e(bidx(a, nd, idx, out)) if a is not None else e for a, e in ops])
    return SArr.fresh(out, dt, el)


# ---------------------------------------------------------------- the engine
class Engine:
    def __init__(self, deadline=None, timeout=4000, maxpaths=4000):
        self.deadline, self.timeout, self.maxpaths = deadline, timeout, maxpaths
        self.obls = {}
        self.npaths = 0
        self.solver_time = 0.0
        self.bound_hit = set()
        self.strict_cast = False
        self.incomplete = None

    # --- path handling
    def start(self, prefix):
        self.prefix, self.k, self.alts, self.taken = prefix, 0, [], []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.counter = 0
        self.memo = {}
        self.products = {}
        self.opaques = {}
        self.consts = {}
        self.funcs = {}
        self.ravels = []
        self.input_writes = []
        self.warnings = []
        self.inputs = []
        self.pcn = 0

    def explore(self, run):
        """run(engine) executes one path and states obligations"""
        global CUR
        stack = [[]]
        while stack:
            if self.npaths >= self.maxpaths or (self.deadline and time.time() > self.deadline):
                self.incomplete = f'stopped after {self.npaths} paths'
                break
            prefix = stack.pop()
            self.start(prefix)
            CUR = self
            try:
                run(self)
            except Prune:
                pass
            except Unsupported as e:
                self.incomplete = 'outside the reach of the engine: ' + str(e)
                stack.extend(self.alts)
                self.npaths += 1
                if self.npaths > 40:
                    break
                continue
            self.npaths += 1
            stack.extend(self.alts)
            if stack and self.npaths >= 8 and any(o['status'] == 'failed' for o in self.obls.values()):
                self.incomplete = f'stopped after {self.npaths} paths: an obligation failed'
                break
        CUR = None

    def assume(self, e):
        e = zb(e)
        self.solver.add(e)
        self.pcn += 1

    def chk(self, e):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported('time limit')
        r = self.solver.check(e)
        self.solver_time += time.time() - t
        return r

    def retry(self, e):
        """an undecided query again, in fresh solvers with other settings and more time"""
        for seed, arith, ms in ((7, 2, 6000), (11, 6, 15000), (23, 2, 30000)):
            if self.deadline and time.time() + ms / 1000 > self.deadline:
                break
            t = time.time()
            s = z3.Solver()
            s.set('timeout', ms)
            s.set('smt.random_seed', seed)
            s.set('smt.arith.solver', arith)
            s.add(self.solver.assertions())
            r = s.check(e)
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return r
        return z3.unknown

    def valid(self, e):
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = ('v', e.get_id(), self.pcn)
        if key not in self.memo:
            self.memo[key] = (self.chk(z3.Not(e)) == z3.unsat, e)
        return self.memo[key][0]

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            rt = self.chk(e)
            rf = self.chk(z3.Not(e))
            if rt == z3.unsat and rf == z3.unsat:
                raise Prune()
            if rt == z3.unsat:
                v = False
            elif rf == z3.unsat:
                v = True
            else:
                v = True
                self.alts.append(self.taken + [False])
        self.k += 1
        self.taken.append(v)
        self.solver.add(e if v else z3.Not(e))
        self.pcn += 1
        return v

    def choose(self, n):
        """nondeterministic choice of 0..n-1"""
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            v = 0
            for j in range(1, n):
                self.alts.append(self.taken + [j])
        self.k += 1
        self.taken.append(v)
        return v

    def unique(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('u', e.get_id(), self.pcn)
        if key not in self.memo:
            r = None
            if self.chk(z3.BoolVal(True)) == z3.sat:
                v = self.solver.model().eval(e, model_completion=True)
                if z3.is_int_value(v) and self.chk(e != v) == z3.unsat:
                    r = v.as_long()
            self.memo[key] = (r, e)
        return self.memo[key][0]

    def norm(self, e):
        """simplify If's whose condition the path settles"""
        e = z3.simplify(e)
        for _ in range(12):
            its = ifs(e)
            if not its:
                break
            done = True
            for c in its:
                if self.valid(c):
                    e, done = z3.simplify(z3.substitute(e, (c, z3.BoolVal(True)))), False
                    break
                if self.valid(z3.Not(c)):
                    e, done = z3.simplify(z3.substitute(e, (c, z3.BoolVal(False)))), False
                    break
            if done:
                break
        return mk(e)

    # --- symbols
    def fresh(self, base='v'):
        self.counter += 1
        return f'{base}!{self.counter}'

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SInt(v)

    def bool(self, name):
        return SBool(z3.Bool(name))

    def func(self, name, n, isort=RealS):
        k = (name, n, isort.name())
        if k not in self.funcs:
            self.funcs[k] = z3.Function(name, *([isort] * n), RealS)
        return self.funcs[k]

    def const(self, f):
        if f == int(f) and abs(f) < 1e6:
            return z3.RealVal(int(f))
        if f not in self.consts:
            from fractions import Fraction
            fr = Fraction(f)
            if fr.denominator <= 1024:
                self.consts[f] = z3.RealVal(str(fr))
            else:
                self.consts[f] = z3.Const(f'c[{f!r}]', RealS)
        return self.consts[f]

    def rdiv(self, a, b):
        return a / b

    def pow2(self, n):
        raise Unsupported('symbolic power of two')

    def product(self, sym):
        key = tuple(sorted(z3.simplify(s.e).sexpr() for s in sym))
        if key not in self.products:
            v = z3.Int('prod(' + ','.join(key) + ')')
            self.products[key] = (v, [s.e for s in sym])
            self.assume(z3.Implies(z3.And([s.e >= 0 for s in sym]), v >= 0))
            self.assume(z3.Implies(z3.And([s.e >= 1 for s in sym]), v >= 1))
            for s in sym:
                self.assume(z3.Implies(z3.And([t.e >= 1 for t in sym]), v >= s.e))
                self.assume(z3.Implies(s.e == 0, v == 0))
        return SInt(self.products[key][0])

    def input(self, name, shape, dtype):
        """symbolic input array"""
        f = z3.Function(name, *([z3.IntSort()] * len(shape)), RealS) if shape else None
        a = SArr.fresh(shape, dtype, (lambda idx: f(*[zi(i) for i in idx])) if shape else (lambda idx: z3.Const(name, RealS)), origin=name)
        a.contig = None
        self.inputs.append(a)
        return a

    def cast(self, el, frm, to):
        """change of dtype; a conversion that may lose more than rounding becomes an unknown function"""
        if frm == to or to.kind == 'c' and frm.kind in 'fciub' or to.kind == 'f' and frm.kind in 'fiub':
            if self.strict_cast and frm.char not in 'gG' and frm != to and comp(to) < self.strict_cast and (frm.kind in 'iub' or comp(frm) > comp(to)):
                nm = self.func(f'cast_{frm}_{to}', 1)
                return lambda idx: nm(el(idx))
            if to.itemsize // (2 if to.kind == 'c' else 1) < 4 and frm != to:
                nm = self.func(f'cast_{to}', 1)
                return lambda idx: nm(el(idx))
            return el
        nm = self.func(f'cast_{frm}_{to}', 1)
        return lambda idx: nm(el(idx))

    # --- equality of arrays and shapes
    def shape_eq(self, s, t):
        if len(s) != len(t):
            return False
        return self.valid(z3.And([zi(a) == zi(b) for a, b in zip(s, t)])) if s else True

    def inb(self, idx, shape):
        return [c for i, n in zip(idx, shape) for c in (i >= 0, i < zi(n))]

    def eq_formula(self, a, b):
        """formula whose validity means: same extents and same values"""
        ea, eb = (x.elem() if isinstance(x, SArr) else x for x in (a, b))
        self.counter += 1
        idx = [z3.Int(f'i{self.counter}_{k}') for k in range(len(a._shape))]
        va, vb = ea(idx), eb(idx)
        return z3.Implies(z3.And(self.inb(idx, a._shape)), va == vb)

    def same(self, a, b):
        if a is b:
            return True
        if len(a._shape) != len(b._shape) or not self.shape_eq(a._shape, b._shape):
            return False
        return self.valid(self.eq_formula(a, b))

    def opaque(self, name, params, args, shape, dtype):
        """result of a function known only by its contract: equal arguments give equal results"""
        lst = self.opaques.setdefault(name, [])
        for p, a, f in lst:
            if len(p) == len(params) and len(a) == len(args) and all(self.par_eq(x, y) for x, y in zip(p, params)) \
                    and all((x is None) == (y is None) for x, y in zip(a, args)) \
                    and all(x is None or self.same(x, y) for x, y in zip(a, args)):
                break
        else:
            f = z3.Function(self.fresh(name), *([z3.IntSort()] * max(1, len(shape))), RealS)
            lst.append((list(params), [None if x is None else SArr.fresh(x._shape, x.dtype, x.elem()) for x in args], f))
        return SArr.fresh(shape, dtype, lambda idx: f(*([zi(i) for i in idx] or [z3.IntVal(0)])))

    def par_eq(self, x, y):
        if x is y:
            return True
        if isinstance(x, SInt) or isinstance(y, SInt):
            if not (isint(x) and isint(y)):
                return False
            return self.valid(zi(x) == zi(y))
        if isinstance(x, SReal) or isinstance(y, SReal):
            return self.valid(real(x) == real(y))
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return len(x) == len(y) and all(self.par_eq(p, q) for p, q in zip(x, y))
        try:
            return bool(x == y)
        except Exception:
            return False

    # --- ravel / reshape: the row-major bijection, known by its defining law only
    def ravel(self, a, copy, order='C'):
        if order in ('K', 'A', 'F') and a.ndim > 1 and (order == 'F' or not Flags(a).c_contiguous):
            # memory order: some other arrangement of the elements
            f = z3.Function(self.fresh('memory_order'), z3.IntSort(), RealS)
            return SArr.fresh((a.size,), a.dtype, lambda idx: f(zi(idx[0])))
        if a.ndim == 1:
            if copy:
                return a.copy()
            return a
        n = a.size
        for shp, b, f in self.ravels:
            if self.shape_eq(shp, a._shape) and self.same(b, a):
                break
        else:
            f = z3.Function(self.fresh('ravel'), z3.IntSort(), RealS)
            self.ravels.append((a._shape, SArr.fresh(a._shape, a.dtype, a.elem()), f))
        r = SArr.fresh((n,), a.dtype, lambda idx: f(zi(idx[0])))
        if not copy and a.contig is not False:
            r.buf.origin, r.buf.shares = a.buf.origin, a.buf
            a.buf.viewed = True
        return r

    def reshape_lead(self, a, s):
        """same last extent on both sides and concrete leading extents: the row number is a constant
        div/mod arrangement of the leading indices (None when not of that form)"""
        old = a._shape
        if not (old and s) or len(old) + len(s) < 3:
            return None
        if any(isinstance(x, SInt) for x in old[:-1]) or any(isinstance(x, SInt) for x in s[:-1]):
            return None
        olead = [int(x) for x in old[:-1]]
        slead = [int(x) for x in s[:-1]]
        if isinstance(s[-1], int) and s[-1] == -1:
            return None
        if not self.shape_eq((s[-1],), (old[-1],)):
            return None
        n = 1
        for x in olead:
            n *= x
        if slead.count(-1) > 1 or n == 0:
            return None
        if -1 in slead:
            m = 1
            for x in slead:
                m *= 1 if x == -1 else x
            if m == 0 or n % m:
                raise ValueError('cannot reshape array')
            slead[slead.index(-1)] = n // m
        m = 1
        for x in slead:
            m *= x
        if m != n:
            raise ValueError('cannot reshape array')
        shape = tuple(slead) + (old[-1],)
        if tuple(olead) == tuple(slead):
            return a[tuple(slice(None) for _ in shape)]
        if not Flags(a).c_contiguous:
            # numpy copies when the strides do not allow a view
            a = a.copy()

        pmap, pinv = a.imap, a.inv

        def imap(idx):
            r = z3.IntVal(0)
            for i, x in zip(idx[:-1], slead):
                r = r * x + zi(i)
            out = []
            for x in reversed(olead):
                out.append(z3.IntVal(0) if x == 1 else (r if len(out) == len(olead) - 1 else r % x))
                r = r if x == 1 else r / x
            return pmap(list(reversed(out)) + [idx[-1]])

        def inv(v):
            c, back = pinv(v)
            r = z3.IntVal(0)
            for i, x in zip(back[:-1], olead):
                r = r * x + zi(i)
            out = []
            for x in reversed(slead):
                out.append(z3.IntVal(0) if x == 1 else (r if len(out) == len(slead) - 1 else r % x))
                r = r if x == 1 else r / x
            return c, list(reversed(out)) + [back[-1]]
        return SArr(a.buf, shape, a.dtype, imap, a.contig, inv if a.inv is not None else None)

    def reshape(self, a, s):
        r = self.reshape_lead(a, s)
        if r is not None:
            return r
        if any(isinstance(x, int) and x == -1 for x in s):
            if len(s) == 1:
                return self.ravel(a, False)
            raise Unsupported('reshape with -1')
        if len(s) == len(a._shape) and self.shape_eq(s, a._shape):
            return a[tuple(slice(None) for _ in s)]
        if a.ndim != 1:
            raise Unsupported('reshape of a multidimensional array')
        n = prod(s)
        if not bool(n == a._shape[0]):
            raise ValueError('cannot reshape array')
        if not s:
            raise Unsupported('reshape to a scalar')
        lin = z3.Function(self.fresh('lin'), *([z3.IntSort()] * len(s)), z3.IntSort())
        el = a.elem()
        rav = list(self.ravels)
        e = self
        n0 = n

        def imap(idx):
            # defining laws of the row-major numbering of a box, instantiated at this index
            vs = [zi(i) for i in idx]
            l = lin(*vs)
            key = ('lin', l.get_id())
            if key not in e.memo:
                e.memo[key] = l
                pre = z3.And(e.inb(vs, s))
                e.assume(z3.Implies(pre, z3.And(l >= 0, l < zi(n0))))
                for shp, b, f in rav:
                    if e.shape_eq(shp, s):
                        e.assume(z3.Implies(pre, f(l) == b.elem()(vs)))
            return a.imap([l])
        return SArr(a.buf, s, a.dtype, imap, False, None)

    # --- obligations
    def ob(self, name, ok, detail='', kind='post', t=0.0, replay=()):
        """record; ok: True/False/None (undecided)"""
        o = self.obls.setdefault(name, dict(status='proved', n=0, time=0.0, detail='', replay=[], kind=kind))
        o['n'] += 1
        o['time'] += t
        if ok is True:
            return
        st = 'failed' if ok is False else 'undecided'
        if o['status'] == 'proved' or (st == 'failed' and o['status'] == 'undecided'):
            o['status'], o['detail'] = st, str(detail)[:600]
        for r in replay:
            if len(o['replay']) < 6:
                o['replay'].append(r)

    def require(self, name, cond, detail='', replay=None):
        if isinstance(cond, bool):
            if cond:
                self.ob(name, True)
                return True
            e = z3.BoolVal(False)
        else:
            e = zb(cond)
        t = time.time()
        r = self.chk(z3.Not(e))
        if r == z3.unknown:
            r = self.retry(z3.Not(e))
        if r == z3.unsat:
            self.ob(name, True, t=time.time() - t)
            return True
        m = self.solver.model() if r == z3.sat else None
        d = (str(detail) + ' ' + self.show(m))[:600]
        self.ob(name, False if r == z3.sat else None, d, t=time.time() - t, replay=replay(m) if (replay and m is not None) else ())
        return False

    def show(self, m):
        if m is None:
            return 'no model'
        return '; '.join(f'{d.name()}={m[d]}' for d in m.decls() if d.arity() == 0 and '!' not in d.name())[:300]

    def require_same(self, name, got, want, dtype=True, replay=None):
        """result array equals the specified one: extents, dtype, every element"""
        if not isinstance(got, SArr):
            self.ob(name, False, f'not an array: {type(got).__name__} {got!r}'[:200])
            return False
        if got.ndim != want.ndim:
            self.ob(name, False, f'{got.ndim} dimensions instead of {want.ndim}', replay=replay(self.model()) if replay else ())
            return False
        ok = True
        if got.ndim:
            ok = self.require(name, z3.And([zi(a) == zi(b) for a, b in zip(got._shape, want._shape)]), f'extents {got._shape} specified {want._shape}', replay)
        if ok and dtype and got.dtype != want.dtype:
            self.ob(name, False, f'dtype {got.dtype} instead of {want.dtype}')
            return False
        return ok and self.require(name, self.eq_formula(got, want), 'contents differ', replay)

    def model(self):
        return self.solver.model() if self.chk(z3.BoolVal(True)) == z3.sat else None

    def frame(self, name, outs=(), aliasok=False):
        """no input buffer was written, no output shares memory with an input"""
        self.ob(name, not self.input_writes, 'written: ' + ', '.join(sorted(set(self.input_writes))))
        if not aliasok:
            bad = [o for o in flat(outs) if isinstance(o, SArr) and (o.buf.origin != 'fresh' or getattr(getattr(o, 'shares', None), 'origin', 'fresh') != 'fresh')]
            self.ob(name + ' (no sharing)', not bad, 'output shares memory with an input')

    def call(self, f, *a, **k):
        """('ok', value) or ('raise', exception) - an exception not raised by the code under proof itself decides nothing"""
        try:
            return 'ok', f(*a, **k)
        except (TypeError, AttributeError, NameError, KeyError, RecursionError, AssertionError, ZeroDivisionError, OverflowError, UnboundLocalError) as e:
            if explicit_raise(e) or "'NoneType' object" in str(e):
                return 'raise', e
            raise Unsupported(f'{type(e).__name__}: {e}')
        except Exception as e:
            return 'raise', e

    def records(self, prefix, backend='z3 (path-wise execution of the Python source)'):
        res = []
        for n, o in self.obls.items():
            st = o['status']
            det = o['detail']
            if self.incomplete and st == 'proved':
                st, det = 'undecided', self.incomplete
            res.append(lib.ob(f'{prefix}: {n} [{o["n"]} cases, {self.npaths} paths]', st, backend, o['time'], det, o['replay']))
        if not self.obls:
            res.append(lib.ob(f'{prefix}: whole proof', 'undecided', 'none', 0, self.incomplete or 'no path reached a postcondition'))
        return res


def comp(dt):
    """bytes of one real component"""
    return dt.itemsize // (2 if dt.kind == 'c' else 1)


def explicit_raise(e):
    """was the exception raised by a raise statement of the code under proof (or of a contract stub)?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if fn.startswith('<proof:'):
        src = SOURCES.get(fn)
        if src:
            ln = src[last.tb_lineno - 1].strip() if last.tb_lineno <= len(src) else ''
            node = RAISES.get(fn, set())
            return last.tb_lineno in node
    return getattr(e, 'contract', False)


def flat(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from flat(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from flat(v)
    else:
        yield x


def ifs(e):
    """conditions of the If-terms in e (some of them)"""
    acc, seen, todo = [], set(), [e]
    while todo and len(acc) < 8:
        x = todo.pop(0)
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            acc.append(x.arg(0))
        todo.extend(x.children())
    return acc


# ---------------------------------------------------------------- replaced built-ins
def b_len(x):
    if isinstance(x, SArr):
        return x.slen()
    if isinstance(x, (Prog, ModProg)):
        return x.n
    return len(x)


class SRange:
    """range with symbolic bounds; iterating splits the path, up to the stated bound on the number of iterations"""
    BOUND = 3

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        n = 0
        while True:
            if not bool(i < self.b if self.s > 0 else i > self.b):
                return
            if n >= SRange.BOUND:
                CUR.bound_hit.add(f'loops over a symbolic count unrolled {SRange.BOUND} times')
                raise Prune()
            yield i
            i = i + self.s
            n += 1


def b_range(*a):
    if any(isinstance(x, SInt) for x in a):
        a = [x if not isinstance(x, SInt) else (CUR.unique(x.e) if CUR.unique(x.e) is not None else x) for x in a]
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1:
            return SRange(0, a[0], 1)
        if len(a) == 3 and isinstance(a[2], SInt):
            raise Unsupported('range with a symbolic step')
        return SRange(a[0], a[1], a[2] if len(a) == 3 else 1)
    return range(*[int(x) if isinstance(x, np.integer) else x for x in a])


def b_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    r = []
    for x in ts:
        if isinstance(x, tuple):
            r.append(b_isinstance(o, x))
            continue
        if isinstance(o, SInt):
            r.append(x in (int, object) or getattr(x, '__name__', '') in ('Number', 'Integral', 'Real', 'Complex', 'integer', 'generic', 'number'))
        elif isinstance(o, SReal):
            r.append(x in (float, object) or getattr(x, '__name__', '') in ('Number', 'Real', 'Complex', 'floating'))
        elif isinstance(o, SVec):
            r.append(x is SArr)
        else:
            r.append(isinstance(o, x))
    return any(r)


def b_min(*a, **k):
    if k:
        raise Unsupported('min with keywords')
    v = list(a[0]) if len(a) == 1 else list(a)
    if not v:
        raise ValueError('min() arg is an empty sequence')
    return smin(*v) if any(is_sym(x) for x in v) else min(v)


def b_max(*a, **k):
    if k:
        raise Unsupported('max with keywords')
    v = list(a[0]) if len(a) == 1 else list(a)
    if not v:
        raise ValueError('max() arg is an empty sequence')
    return smax(*v) if any(is_sym(x) for x in v) else max(v)


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, (SReal, SArr)):
        raise Unsupported('int() of a symbolic number')
    return int(x, *a)


def b_any(it):
    v = False
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_bool(x=False):
    return bool(x)


def b_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def b_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SInt):
            return int
        return type(a[0])
    return type(*a)


def b_pow(a, b, *m):
    if m:
        raise Unsupported('pow')
    return a ** b


def b_abs(x):
    return abs(x)


def b_print(*a, **k):
    pass


def b_float(x=0.0):
    if isinstance(x, (SInt, SReal)):
        return x
    return float(x)


class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, range=b_range, isinstance=b_isinstance, min=b_min, max=b_max, any=b_any, all=b_all, sum=b_sum,
                pow=b_pow, print=b_print)
for _n in ('open', 'exec', 'eval', 'compile', 'input', '__import__'):
    BUILTINS.pop(_n, None)


class _IntType(type):
    """stands for the type int: converts symbolic integers unchanged, accepts them in isinstance"""
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SInt))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        return b_int(x, *a)


class s_int(metaclass=_IntType):
    pass


BUILTINS['int'] = s_int


class s_type:
    def __new__(cls, *a):
        return b_type(*a)

    def __class_getitem__(cls, k):
        return cls


BUILTINS['type'] = s_type

SOURCES, RAISES = {}, {}


# ---------------------------------------------------------------- numpy contracts
class Missing:
    def __init__(self, what):
        object.__setattr__(self, '_w', what)

    def __getattr__(self, n):
        raise Unsupported('no contract for ' + self._w)

    def __call__(self, *a, **k):
        raise Unsupported('no contract for ' + self._w)


def stub_exc(cls, msg):
    e = cls(msg)
    e.contract = True
    return e


def to_dtype(d):
    return None if d is None else np.dtype(d)


class NP:
    """contracts of the numpy functions used by the code under proof"""
    ndarray = SArr
    inf, nan, pi = np.inf, np.nan, np.pi
    newaxis = None
    float16, float32, float64, complex64, complex128 = np.float16, np.float32, np.float64, np.complex64, np.complex128
    int32, int64, intp, uint8, int8, int16, bool_ = np.int32, np.int64, np.intp, np.uint8, np.int8, np.int16, np.bool_
    integer, floating, complexfloating, number, generic = np.integer, np.floating, np.complexfloating, np.number, np.generic
    dtype = staticmethod(np.dtype)
    finfo = staticmethod(np.finfo)

    def __getattr__(self, n):
        raise Unsupported('no contract for numpy.' + n)

    @staticmethod
    def _arr(x):
        if isinstance(x, (SArr, Deferred)):
            return x
        if isinstance(x, Prog):
            return x
        if isinstance(x, SVec):
            return x
        if isinstance(x, (SInt, SReal)):
            c = real(x)
            return SArr.fresh((), np.dtype(int) if isinstance(x, SInt) else np.dtype(float), lambda idx: c)
        if isinstance(x, np.ndarray):
            return x
        if isinstance(x, (list, tuple, range)):
            v = list(x)
            if v and all(isinstance(y, (int, SInt, np.integer)) for y in v):
                return SVec([int(y) if isinstance(y, np.integer) else y for y in v]) if any(is_sym(y) for y in v) else np.asarray(v)
            if all(isinstance(y, (int, float, str, bool)) for y in v):
                return np.asarray(v)
            if v and all(isinstance(y, (list, tuple)) for y in v) and not any(isinstance(z, (SArr, SInt, SReal)) for y in v for z in flat(y)):
                return np.asarray(v)
        if isinstance(x, (int, float, np.generic)):
            return np.asarray(x)
        raise Unsupported('array from ' + type(x).__name__)

    def asarray(self, x, dtype=None, order=None, copy=None):
        a = self._arr(x)
        dt = to_dtype(dtype)
        if isinstance(a, SArr):
            if dt is not None and dt != a.dtype:
                return a.astype(dt)
            if order == 'C' and a.contig is not True:
                if not Flags(a).c_contiguous:
                    return a.copy()
            return a
        if dt is not None and isinstance(a, np.ndarray):
            return a.astype(dt)
        return a

    def asanyarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype, 'C')

    def array(self, x, dtype=None, copy=True, order='K', ndmin=0):
        if ndmin:
            raise Unsupported('np.array options')
        a = self.asarray(x, dtype)
        if not copy:
            return a
        return a.copy() if isinstance(a, (SArr, SVec, np.ndarray)) and a is x else a

    def copy(self, x, order='K'):
        return self._arr(x).copy()

    def zeros_like(self, x, dtype=None):
        a = self._arr(x)
        return SArr.fresh(a._shape, to_dtype(dtype) or a.dtype, lambda idx: z3.RealVal(0))

    def ones_like(self, x, dtype=None):
        a = self._arr(x)
        return SArr.fresh(a._shape, to_dtype(dtype) or a.dtype, lambda idx: z3.RealVal(1))

    def empty_like(self, x, dtype=None):
        a = self._arr(x)
        return self.empty(a._shape, to_dtype(dtype) or a.dtype)

    @staticmethod
    def _shape(s):
        if isint(s):
            return (s,)
        return tuple(s)

    def zeros(self, shape, dtype=float):
        return SArr.fresh(self._shape(shape), dtype, lambda idx: z3.RealVal(0))

    def empty(self, shape, dtype=float):
        shape = self._shape(shape)
        f = z3.Function(CUR.fresh('uninit'), *([z3.IntSort()] * max(1, len(shape))), RealS)
        return SArr.fresh(shape, dtype, lambda idx: f(*([zi(i) for i in idx] or [z3.IntVal(0)])))

    def full(self, shape, v, dtype=None):
        c = real(v)
        return SArr.fresh(self._shape(shape), dtype or np.dtype(float), lambda idx: c)

    def iscomplexobj(self, x):
        if isinstance(x, SArr):
            return x.dtype.kind == 'c'
        if isinstance(x, (list, tuple)):
            return any(self.iscomplexobj(v) for v in flat(x))
        return isinstance(x, (complex, np.complexfloating))

    def isscalar(self, x):
        return isinstance(x, (SInt, SReal)) or np.isscalar(x)

    def result_type(self, *a):
        return np.result_type(*[x.dtype if isinstance(x, SArr) else x for x in a])

    def prod(self, x, *a, **k):
        if a or k:
            raise Unsupported('np.prod options')
        x = list(x)
        return prod(x)

    def cumsum(self, x, axis=None):
        if isinstance(x, SArr):
            raise Unsupported('cumsum of an array')
        v, t = [], 0
        for y in x:
            t = t + y
            v.append(t)
        return SVec(v)

    def sum(self, x, *a, **k):
        if isinstance(x, SArr) and not a and not k and x.dtype == np.float64:
            for y, t in CUR.memo.get('np.sum', []):
                if CUR.same(x, y):
                    return SReal(t)
            t = z3.Real(CUR.fresh('sum'))
            CUR.memo.setdefault('np.sum', []).append((SArr.fresh(x.shape, x.dtype, x.elem()), t))
            return SReal(t)
        if a or k or isinstance(x, SArr):
            raise Unsupported('np.sum')
        return b_sum(list(x))

    def min(self, x, *a, **k):
        if a or k or isinstance(x, SArr):
            raise Unsupported('np.min')
        return b_min(list(x))
    amin = min

    def max(self, x, *a, **k):
        if a or k or isinstance(x, SArr):
            raise Unsupported('np.max')
        return b_max(list(x))
    amax = max

    def minimum(self, a, b):
        if isint(a) and isint(b):
            return smin(a, b)
        raise Unsupported('np.minimum')

    def maximum(self, a, b):
        if isint(a) and isint(b):
            return smax(a, b)
        raise Unsupported('np.maximum')

    def any(self, x, *a, **k):
        if a or k or isinstance(x, SArr):
            raise Unsupported('np.any')
        if isinstance(x, (bool, SBool, np.bool_)):
            return x
        if isinstance(x, types.GeneratorType):
            return True
        return s_any(list(x))

    def all(self, x, *a, **k):
        if a or k or isinstance(x, SArr):
            raise Unsupported('np.all')
        if isinstance(x, (bool, SBool, np.bool_)):
            return x
        if isinstance(x, types.GeneratorType):
            return True
        return s_all(list(x))

    def subtract(self, a, b):
        a, b = self._arr(a), self._arr(b)
        if isinstance(b, SVec) and not isinstance(a, SVec):
            a = SVec(list(a))
        return a - b

    def add(self, a, b):
        return self._arr(a) + self._arr(b)

    def unique(self, x, *a, **k):
        if a or k:
            raise Unsupported('np.unique options')
        v = list(x)
        if any(is_sym(y) for y in v):
            raise Unsupported('np.unique of symbolic values')
        return np.unique(v)

    def arange(self, *a, **k):
        k.pop('dtype', None)
        if k:
            raise Unsupported('np.arange options')
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        if not any(is_sym(x) for x in a):
            return np.arange(*a)
        st, en, sp = a
        if not (isint(sp) and (isinstance(sp, SInt) and CUR.valid(sp.e >= 1) or not isinstance(sp, SInt) and sp >= 1)):
            raise Unsupported('np.arange with this step')
        d = zi(en) - zi(st)
        n = CUR.norm(z3.If(d > 0, (d + zi(sp) - 1) / zi(sp), 0))
        return Prog(st, sp, n)

    def ndim(self, x):
        return self._arr(x).ndim

    def shape(self, x):
        return self._arr(x).shape

    def size(self, x):
        return self._arr(x).size

    def roll(self, x, shift, axis=None):
        a = self._arr(x)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported('roll of all axes')
            axis = 0
        if isinstance(axis, (tuple, list)):
            sh = list(shift) if isinstance(shift, (tuple, list)) else [shift] * len(axis)
            for s, ax in zip(sh, axis):
                a = self.roll(a, s, ax)
            return a
        axis = int(axis)
        if not -a.ndim <= axis < a.ndim:
            raise stub_exc(np.exceptions.AxisError, 'axis')
        axis %= a.ndim
        n, el, s = zi(a._shape[axis]), a.elem(), zi(shift)
        one = isinstance(shift, int) and shift == 1

        def f(idx):
            i = idx[axis]
            j = z3.If(i == 0, n - 1, i - 1) if one else z3.If(n == 0, i, (i - s) % n)
            return el([j if k == axis else v for k, v in enumerate(idx)])
        return SArr.fresh(a._shape, a.dtype, f)

    def concatenate(self, xs, axis=0):
        xs = [self._arr(x) for x in xs]
        if not xs:
            raise stub_exc(ValueError, 'need at least one array to concatenate')
        if not all(isinstance(x, SArr) for x in xs):
            raise Unsupported('concatenate')
        nd = xs[0].ndim
        axis = int(axis)
        if not -nd <= axis < nd:
            raise stub_exc(np.exceptions.AxisError, 'axis')
        axis %= nd
        for x in xs[1:]:
            if x.ndim != nd:
                raise stub_exc(ValueError, 'dimensions must match')
            for k in range(nd):
                if k != axis and not bool(x._shape[k] == xs[0]._shape[k]):
                    raise stub_exc(ValueError, 'dimensions must match')
        offs, t = [], 0
        for x in xs:
            offs.append(t)
            t = t + x._shape[axis]
        els = [x.elem() for x in xs]

        def f(idx):
            r = els[-1]([idx[k] - zi(offs[-1]) if k == axis else idx[k] for k in range(nd)])
            for e, x, o in list(zip(els, xs, offs))[-2::-1]:
                r = z3.If(idx[axis] < zi(o) + zi(x._shape[axis]), e([idx[k] - zi(o) if k == axis else idx[k] for k in range(nd)]), r)
            return r
        shape = list(xs[0]._shape)
        shape[axis] = t
        return SArr.fresh(shape, np.result_type(*[x.dtype for x in xs]), f)

    def flip(self, a, axis=None):
        a = self._arr(a)
        if not isinstance(a, SArr):
            raise Unsupported('np.flip')
        axs = range(a.ndim) if axis is None else [int(x) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for x in axs:
            if not -a.ndim <= x < a.ndim:
                raise stub_exc(np.exceptions.AxisError, 'axis')
        axs = {x % a.ndim for x in axs}
        return a[tuple(slice(None, None, -1) if k in axs else slice(None) for k in range(a.ndim))]

    def stack(self, xs, axis=0):
        xs = [self._arr(x) for x in list(xs)]
        if not xs or not all(isinstance(x, SArr) for x in xs):
            raise Unsupported('np.stack')
        nd = xs[0].ndim
        for x in xs[1:]:
            if x.ndim != nd or not all(bool(p == q) for p, q in zip(x._shape, xs[0]._shape)):
                raise stub_exc(ValueError, 'all input arrays must have the same shape')
        ax = int(axis)
        if not -nd - 1 <= ax <= nd:
            raise stub_exc(np.exceptions.AxisError, 'axis')
        ax %= nd + 1
        els = [x.elem() for x in xs]

        def f(idx):
            idx = list(idx)
            rest = idx[:ax] + idx[ax + 1:]
            r = els[-1](rest)
            for k in range(len(els) - 2, -1, -1):
                r = z3.If(zi(idx[ax]) == k, els[k](rest), r)
            return r
        shape = list(xs[0]._shape)
        shape.insert(ax, len(xs))
        return SArr.fresh(shape, np.result_type(*[x.dtype for x in xs]), f)

    def sqrt(self, x):
        if isinstance(x, (int, float)):
            return np.sqrt(x)
        raise Unsupported('np.sqrt')

    def swapaxes(self, a, i, j):
        return self._arr(a).swapaxes(i, j)

    def moveaxis(self, a, s, d):
        a = self._arr(a)
        s, d = int(s) % a.ndim, int(d) % a.ndim
        p = [k for k in range(a.ndim) if k != s]
        p.insert(d, s)
        return a.transpose(p)

    def transpose(self, a, axes=None):
        return self._arr(a).transpose(axes) if axes is not None else self._arr(a).transpose()

    def ravel(self, a):
        return self._arr(a).ravel()

    def reshape(self, a, s):
        return self._arr(a).reshape(s)

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()

    def atleast_1d(self, x):
        a = self._arr(x)
        if a.ndim:
            return a
        raise Unsupported('atleast_1d of a scalar')

    def issubdtype(self, a, b):
        return np.issubdtype(a, b)

    def array_equal(self, a, b):
        raise Unsupported('array_equal')


class Warn:
    @staticmethod
    def warn(msg, *a, **k):
        CUR.warnings.append(str(msg))

    def __getattr__(self, n):
        raise Unsupported('warnings.' + n)


# ---------------------------------------------------------------- loading the code under proof
class DropImports(ast.NodeTransformer):
    def __init__(self):
        self.names = []

    def visit_Import(self, n):
        self.names += [(a.asname or a.name).split('.')[0] for a in n.names]
        return ast.copy_location(ast.Pass(), n)

    def visit_ImportFrom(self, n):
        self.names += [a.asname or a.name for a in n.names]
        return ast.copy_location(ast.Pass(), n)


class Fmt(ast.NodeTransformer):
    """'text' % value: the text of messages is not interpreted when it shows symbolic values"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr)):
            return ast.copy_location(ast.Call(ast.Name('__vf_fmt__', ast.Load()), [n.left, n.right], []), n)
        return n


class Loops(ast.NodeTransformer):
    """while loops of the named functions are replaced by their contract: invariant on entry, arbitrary state satisfying it,
    condition, body, invariant and decreasing variant again.  The loop's own condition and body are executed unchanged."""
    def __init__(self, contracts):
        self.contracts, self.fn, self.k, self.table = contracts, [], {}, {}

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_While(self, n):
        f = self.fn[-1] if self.fn else ''
        self.generic_visit(n)
        if f not in self.contracts:
            return n
        k = self.k[f] = self.k.get(f, -1) + 1
        key = f'{f}:{k}'
        self.table[key] = (self.contracts[f], k)
        if n.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in n.body for x in ast.walk(b)):
            new = ast.parse(f'__vf_loop__({key!r}).outside()').body
        else:
            names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
            src = f'__vf_l = __vf_loop__({key!r})\n__vf_l.entry(dict(locals()), {names!r})\n'
            for v in names:
                src += f'if __vf_l.has({v!r}): {v} = __vf_l.new({v!r})\n'
            src += 'if __vf_cond__: pass\n'
            new = ast.parse(src).body
            cond = new[-1]
            cond.test = n.test
            cond.body = n.body + ast.parse('__vf_l.step(dict(locals()))').body
        for x in new:
            for y in ast.walk(x):
                ast.copy_location(y, n) if not hasattr(y, 'lineno') else None
            ast.fix_missing_locations(x)
        return new


class Loop:
    """one execution of a loop under contract; the contract gives: state(env) -> ghost state, havoc(ghost, env) -> new values of
    the assigned names, inv(ghost, env) -> [(name, formula)], variant(ghost, env) -> integer term"""
    def __init__(self, key, c, k):
        self.key, self.c, self.k = key, c, k

    def outside(self):
        raise Unsupported('loop with break, continue, return or else')

    def entry(self, env, names):
        e = CUR
        try:
            self.c.pick(self, env, names)
        except (KeyError, AttributeError, TypeError) as ex:
            raise Unsupported(f'loop {self.key} does not fit its contract: {ex!r}')
        self.check(env, 'on entry')
        self.values = self.havoc(env)
        now = dict(env, **self.values)
        for nm, f in self.inv(now):
            e.assume(f)
        self.v0 = self.variant(now)

    def has(self, n):
        return n in self.values

    def new(self, n):
        return self.values[n]

    def step(self, env):
        e = CUR
        self.check(env, 'kept')
        v1 = self.variant(env)
        self.state('terminates', z3.And(self.v0 >= 0, v1 < self.v0))
        raise Prune()

    def check(self, env, when):
        try:
            fs = self.inv(env)
        except (KeyError, AttributeError, TypeError) as ex:
            raise Unsupported(f'loop {self.key} does not fit its contract: {ex!r}')
        for nm, f in fs:
            self.state(f'invariant {when}: {nm}', f)

    def state(self, nm, f):
        """an invariant that does not hold decides nothing about the property: the annotation may not fit a rewritten loop"""
        e, t = CUR, time.time()
        r = e.chk(z3.Not(f))
        e.ob(f'loop {self.key}: {nm}', True if r == z3.unsat else None, 'not shown', t=time.time() - t)
        if r != z3.unsat:
            e.incomplete = f'loop {self.key}: {nm}: not shown'


def vf_fmt(s, v):
    vs = v if isinstance(v, tuple) else (v,)
    if any(isinstance(x, (SInt, SArr, SReal)) for x in flat(vs)):
        return s
    return s % v


class NS(dict):
    """globals of a module under proof; a name without a contract makes the path undecided"""
    def __missing__(self, k):
        raise KeyError(k)


import collections, collections.abc, copy as _copy, numbers, functools as _ft, itertools as _it


def s_copy(x):
    if isinstance(x, (list, dict, tuple)):
        return _copy.copy(x)
    if isinstance(x, (SArr, SVec)):
        return x.copy()
    raise Unsupported('copy of ' + type(x).__name__)


STD = dict(product=_it.product, reduce=_ft.reduce, partial=_ft.partial, copy=s_copy, numbers=numbers, Number=numbers.Number,
           OrderedDict=collections.OrderedDict, Iterable=collections.abc.Iterable, warnings=Warn(), np=NP(), numpy=NP(),
           _have_c99_complex=True, AxisError=np.exceptions.AxisError, itertools=_it, functools=_ft)


def load(rel, stubs=None, source=None, only=None, loops=None):
    """execute the text of /repo/<rel> with the imported names bound to contracts -> namespace
    names given in stubs also replace functions *defined* in the module (their callers then see the contract only)"""
    path = os.path.join(REPO, rel)
    if source is None:
        with open(path) as f:
            source = f.read()
    fn = f'<proof:{rel}>'
    tree = ast.parse(source, fn)
    SOURCES[fn] = source.splitlines()
    RAISES[fn] = {l for n in ast.walk(tree) if isinstance(n, ast.Raise) for l in range(n.lineno, n.end_lineno + 1)}
    d = DropImports()
    tree = ast.fix_missing_locations(Fmt().visit(d.visit(tree)))
    lp = Loops(loops or {})
    if loops:
        tree = ast.fix_missing_locations(lp.visit(tree))
    ns = {'__builtins__': BUILTINS, '__vf_fmt__': vf_fmt, '__name__': 'proof.' + rel.replace('/', '.')[:-3]}
    for n in d.names:
        if n not in STD:
            ns[n] = Missing(n)
        else:
            ns[n] = STD[n]
    ns.update({k: v for k, v in STD.items() if k in d.names})
    ns['__vf_loop__'] = lambda key: Loop(key, *lp.table[key])
    for k, v in (stubs or {}).items():
        ns[k] = v
    exec(compile(tree, fn, 'exec', dont_inherit=True), ns)
    for k, v in (stubs or {}).items():
        ns[k] = v
    return ns
