"""The compiled glue (Cython) under contract: the text of the .pyx modules, rendered to Python from Cython's own parse tree on every run
(decython.py), executed symbolically with the C functions replaced by the contracts they are proved against in E1.
Buffers, pointers, strides, shape views and their lifetimes are explicit objects; what C needs of them is an obligation at each call."""
import os, subprocess, weakref
import numpy as np
import z3
import lib, pyvc as V, pyspec as S
from pyvc import SArr, SInt, zi, mk, mkb, Unsupported

PY = '/opt/venv/bin/python'
BIG = 1 << 57
TEXT = {}


def text(mod):
    """Python rendering of pywt/_extensions/<mod>.pyx of the current tree"""
    if mod not in TEXT:
        here = os.path.dirname(os.path.abspath(__file__))
        p = subprocess.run([PY, os.path.join(here, 'decython.py'), os.path.join(V.REPO, 'pywt/_extensions', mod + '.pyx')],
                           capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise Unsupported('rendering of the Cython module: ' + p.stderr[-300:])
        TEXT[mod] = p.stdout
    return TEXT[mod]


# --------------------------------------------------------------- memory
ELEM = {'double': 'f8', 'float': 'f4', 'double complex': 'c16', 'float complex': 'c8', 'double_complex': 'c16', 'float_complex': 'c8',
        'np.float64_t': 'f8', 'np.float32_t': 'f4', 'np.complex128_t': 'c16', 'np.complex64_t': 'c8'}
F64, F32, C128, C64 = (np.dtype(c) for c in ('f8', 'f4', 'c16', 'c8'))
FUSED = {'cdata_t': (F32, F64, C64, C128), 'data_t': (F32, F64)}


class Mem:
    """the memory of an array: content, extents, strides"""
    def __init__(self, arr, origin, strides=None, zeroed=False):
        self.arr, self.origin, self.zeroed = arr, origin, zeroed
        self.shape0 = tuple(arr.shape)
        self.dims = View(list(arr.shape), self)
        self.strides = View(list(strides if strides is not None else cstrides(arr)), self)
        self.written = False


def cstrides(a):
    s, out = a.dtype.itemsize, []
    for n in reversed(a.shape):
        out.append(s)
        s = s * n
    return out[::-1]


class View:
    """memory view of integers (extents or strides); an element is settable when the memory is owned"""
    def __init__(self, vals, owner=None):
        self.vals = vals
        self.owner = weakref.ref(owner) if owner is not None else None

    def live(self):
        if self.owner is not None and self.owner() is None:
            V.CUR.ob('no pointer into a freed array is used', False, 'the array whose extents or strides are pointed to is gone')
            raise V.Prune()
        return self.vals

    @property
    def shape(self):
        return (len(self.vals),)

    @property
    def size(self):
        return len(self.vals)

    def _ix(self, i):
        i = int(i)
        V.CUR.ob('indices into shape and stride buffers are in bounds', 0 <= i < len(self.vals), f'{i} of {len(self.vals)}')
        if not 0 <= i < len(self.vals):
            raise V.Prune()
        return i

    def __getitem__(self, i):
        return self.live()[self._ix(i)]

    def __setitem__(self, i, v):
        V.CUR.ob('the extents of an array are not overwritten', self.owner is None, 'write through a view of the shape of an array')
        self.live()[self._ix(i)] = conv('size_t', v)

    def __len__(self):
        return len(self.vals)

    def __iter__(self):
        return iter(self.live())

    def copy(self):
        return View(list(self.live()))


class NA:
    """np.ndarray as the glue sees it"""
    def __init__(self, mem):
        self.mem = mem

    @property
    def ndim(self):
        return self.mem.arr.ndim

    @property
    def dtype(self):
        return self.mem.arr.dtype

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def size(self):
        return self.mem.arr.size

    @property
    def shape(self):
        return self.mem.dims

    @property
    def strides(self):
        return self.mem.strides

    @property
    def data(self):
        return Ptr(self.mem, 'char')

    def __len__(self):
        raise Unsupported('len of an array in the glue')

    def slen(self):
        return self.mem.dims.vals[0]

    def astype(self, dt, copy=True, order='K'):
        dt = np.dtype(dt)
        if not copy and dt == self.dtype:
            return self
        a = self.mem.arr.astype(dt)
        # the layout of the input is kept: strides not known
        return NA(Mem(a, 'fresh', [V.CUR.int(V.CUR.fresh('stride')) for _ in a.shape]))

    def copy(self, order='C'):
        return NA(Mem(self.mem.arr.copy(), 'fresh'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('attribute of an array in the glue: ' + n)


class MV:
    """one-dimensional contiguous memory view of an array"""
    def __init__(self, mem, arr=None):
        self.mem, self.sub = mem, arr

    @property
    def arr(self):
        return self.mem.arr if self.sub is None else self.sub

    @property
    def size(self):
        return self.arr.shape[0]

    @property
    def shape(self):
        return self.arr.shape

    def __getitem__(self, k):
        if isinstance(k, slice):
            return MV(self.mem, self.arr[k])
        raise Unsupported('element of a buffer in the glue')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('attribute of a memory view: ' + n)


class Ptr:
    def __init__(self, mem, typ):
        self._m, self.typ = weakref.ref(mem), typ

    @property
    def mem(self):
        m = self._m()
        if m is None:
            V.CUR.ob('no pointer into a freed array is used', False, 'the array pointed to is gone')
            raise V.Prune()
        return m


class Null:
    def __bool__(self):
        return False


NULL = Null()


class DimPtr:
    def __init__(self, view):
        self.view = view if view.owner is not None else weakref.ref(view)

    def vals(self):
        v = self.view
        if isinstance(v, weakref.ref):
            v = v()
            if v is None:
                V.CUR.ob('no pointer into a freed array is used', False, 'the shape or stride buffer pointed to is gone')
                raise V.Prune()
        return v.live()


class Struct:
    pass


class Ref:
    def __init__(self, s):
        self.s = s


class CW:
    """wavelet.w"""
    def __init__(self, w):
        self.wav = w


class GWavelet(S.Wavelet):
    @property
    def w(self):
        return CW(self)


# --------------------------------------------------------------- conversions made explicit by the rendering
RANGE = {'size_t': (0, 1 << 64), 'unsigned int': (0, 1 << 32), 'int': (-(1 << 31), 1 << 31), 'pywt_index_t': (-(1 << 63), 1 << 63),
         'np.npy_intp': (-(1 << 63), 1 << 63), 'Py_ssize_t': (-(1 << 63), 1 << 63), 'long': (-(1 << 63), 1 << 63), 'unsigned char': (0, 256), 'unsigned long': (0, 1 << 64),
         'unsigned long long': (0, 1 << 64), 'long long': (-(1 << 63), 1 << 63), 'unsigned': (0, 1 << 32)}


def conv(t, v):
    """value stored in a C integer: in range (no wrap-around)"""
    lo, hi = RANGE[t]
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, V.SBool):
        v = SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, int):
        V.CUR.ob(f'values stored in C integers are representable', lo <= v < hi, f'{v} in {t}')
        return v
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, SInt):
        V.CUR.require('values stored in C integers are representable', z3.And(v.e >= lo, v.e < hi), f'{t}: {v!r}'[:200])
        return v
    raise Unsupported(f'{t} from {type(v).__name__}')


def g_arg(t, v, fused=None):
    if t in RANGE:
        lo, hi = RANGE[t]
        if isinstance(v, (bool, V.SBool)):
            return conv(t, v)
        if not isinstance(v, (int, SInt, np.integer)):
            raise V.stub_exc(TypeError, 'an integer is required')
        if bool(mkb(z3.Or(zi(v) < lo, zi(v) >= hi))) if isinstance(v, SInt) else not lo <= v < hi:
            raise V.stub_exc(OverflowError, 'value too large to convert')
        return v
    if t in ('MODE', 'common.MODE'):
        return v
    if t == 'bint' or t == 'int' and isinstance(v, (bool, V.SBool)):
        return bool(v)
    if t == 'bool':
        if not isinstance(v, bool):
            raise V.stub_exc(TypeError, 'bool expected')
        return v
    if t in ('double', 'float'):
        return v
    if t == 'Wavelet':
        if not isinstance(v, S.Wavelet):
            raise V.stub_exc(TypeError, 'Wavelet expected')
        return v
    if t == 'ContinuousWavelet':
        if not isinstance(v, (S.ContinuousWavelet, GCont)):
            raise V.stub_exc(TypeError, 'ContinuousWavelet expected')
        return v
    return g_set(t, v, None, arg=True)


class GCont:
    """a continuous wavelet object (filled in by the tasks about them)"""


def fuse(t, x):
    a = x.arr if isinstance(x, MV) else x.mem.arr if isinstance(x, NA) else None
    if a is None or a.dtype not in FUSED[t]:
        raise V.stub_exc(TypeError, 'No matching signature found')
    return a.dtype


def g_set(t, v, fused=None, arg=False):
    if t in RANGE:
        return conv(t, v)
    if t in ('np.ndarray',):
        if v is None or isinstance(v, NA):
            return v
        raise V.stub_exc(TypeError, 'ndarray expected') if not isinstance(v, MV) else Unsupported('memory view as array')
    if t.endswith('[::1]'):
        b = t[:-5]
        if b in FUSED or b in ELEM:
            if isinstance(v, MV):
                return v
            if isinstance(v, NA):
                want = (fused,) if fused is not None else FUSED.get(b) or (np.dtype(ELEM[b]),)
                if v.ndim != 1 or v.dtype not in want:
                    raise V.stub_exc(ValueError, 'Buffer dtype mismatch')
                if v.mem.origin == 'input':
                    V.CUR.ob('one-dimensional transforms are given contiguous buffers', v.mem.arr.contig is True, 'possibly strided')
                return MV(v.mem)
            raise V.stub_exc(TypeError, 'buffer expected')
        if b in RANGE:
            if isinstance(v, View):
                return v
            raise Unsupported('integer memory view from ' + type(v).__name__)
    if t in ('', 'object', 'np.dtype', 'Wavelet', 'MODE', 'common.MODE', 'bool', 'bint', 'double', 'float', 'str', 'list', 'tuple', 'dict') or t.endswith('*'):
        return v
    raise Unsupported('assignment to a variable of type ' + t)


def g_new(t):
    if t in ('common.ArrayInfo', 'ArrayInfo'):
        return Struct()
    return None


def g_cast(t, v):
    if t in RANGE:
        if isinstance(v, V.SReal) or isinstance(v, float):
            raise Unsupported('conversion of a float')
        return conv(t, v)
    if t.endswith('*'):
        base = t[:-1].strip()
        if v is NULL:
            return NULL
        if isinstance(v, View):
            if base not in ('size_t', 'pywt_index_t', 'np.npy_intp', 'Py_ssize_t'):
                raise Unsupported(f'cast of an extent pointer to {t}')
            return DimPtr(v)
        if isinstance(v, DimPtr):
            return v
        if isinstance(v, Ptr):
            return Ptr(v.mem, base)
        if isinstance(v, CW):
            return v
    if t in ('double', 'float', 'object', 'np.ndarray'):
        return v
    raise Unsupported(f'cast of {type(v).__name__} to {t}')


def g_view(t, p, shape):
    if len(shape) == 1 and isinstance(p, DimPtr):
        V.CUR.ob('a view of extents or strides has the rank of the array', int(shape[0]) <= len(p.vals()), f'{shape[0]}')
        v = p.view if not isinstance(p.view, weakref.ref) else p.view()
        return v
    raise Unsupported('view of a pointer')


def g_addr(x, *i):
    if not i:
        if isinstance(x, Struct):
            return Ref(x)
        raise Unsupported('address of ' + type(x).__name__)
    i = i[0]
    if isinstance(x, View):
        V.CUR.ob('the address of an element is taken only of non-empty buffers', 0 <= int(i) < max(1, len(x.vals)), '')
        return DimPtr(x)
    if isinstance(x, MV) and isinstance(i, int) and i == 0:
        V.CUR.require('the address of an element is taken only of non-empty buffers', zi(x.size) >= 1, 'buffer may be empty')
        if x.sub is not None:
            raise Unsupported('pointer into a slice')
        return Ptr(x.mem, {F64: 'double', F32: 'float', C128: 'double complex', C64: 'float complex'}[x.arr.dtype])
    raise Unsupported('address of an element')


# --------------------------------------------------------------- numpy as the glue uses it
class GNP:
    float64_t, float32_t, complex128_t, complex64_t = F64, F32, C128, C64
    float64, float32, complex128, complex64, half, complex256 = np.float64, np.float32, np.complex128, np.complex64, np.half, np.clongdouble
    npy_intp = 'np.npy_intp'
    ndarray = NA
    dtype = staticmethod(np.dtype)

    def import_array(self):
        pass

    def __getattr__(self, n):
        raise Unsupported('no contract for numpy.' + n + ' in the glue')

    @staticmethod
    def _shape(s):
        if isinstance(s, View):
            s = tuple(s.live())
        if V.isint(s):
            s = (s,)
        for n in s:
            if isinstance(n, SInt) and not V.CUR.valid(n.e < 1 << 60) and bool(n >= 1 << 60):
                raise V.stub_exc(ValueError, 'Maximum allowed dimension exceeded')
        return tuple(s)

    def zeros(self, shape, dtype=np.float64):
        return NA(Mem(V.NP().zeros(self._shape(shape), dtype), 'fresh', zeroed=True))

    def empty(self, shape, dtype=np.float64):
        return NA(Mem(V.NP().empty(self._shape(shape), dtype), 'fresh'))

    def asarray(self, x, dtype=None):
        if isinstance(x, MV):
            if x.sub is not None:
                raise Unsupported('array of a slice')
            x = NA(x.mem)
        if not isinstance(x, NA):
            raise Unsupported('asarray in the glue')
        return x if dtype is None else x.astype(dtype, copy=False)


# --------------------------------------------------------------- the C library: contracts proved in E1
class Common:
    """common.h"""
    def __init__(self):
        self.__dict__.update(S.ENUM)
        self.COEF_APPROX, self.COEF_DETAIL, self.DWT_TRANSFORM, self.SWT_TRANSFORM = ('coef', 0), ('coef', 1), ('tr', 0), ('tr', 1)
        self.MODE_MAX = S.MODE_MAX

    def __getattr__(self, n):
        raise Unsupported('common.' + n)

    def dwt_buffer_length(self, n, F, mode):
        if bool(mkb(z3.Or(zi(n) < 1, zi(F) < 1))):
            return 0
        return S.coeff_len(n, F, mode)

    def idwt_buffer_length(self, n, F, mode):
        r = S.rec_len(n, F, mode)
        if bool(mkb(zi(r) < 0)):
            return r + (1 << 64)          # unsigned arithmetic of C
        return r

    def reconstruction_buffer_length(self, n, F):
        if bool(mkb(z3.Or(zi(n) < 1, zi(F) < 1))):
            return 0
        return 2 * n + F - 2

    def swt_buffer_length(self, n):
        return n

    def dwt_max_level(self, n, F):
        return S.dwt_max_level(n, F)

    def swt_max_level(self, n):
        return S.swt_max_level(n)


def oblige(name, cond, detail=''):
    if isinstance(cond, bool):
        V.CUR.ob(name, cond, detail)
        ok = cond
    else:
        ok = V.CUR.require(name, cond, detail)
    if not ok:
        raise V.Prune()


def eq(x, y):
    return zi(x) == zi(y)


class CWT:
    """c_wt: the compiled transforms"""
    KINDS = ('double_complex_', 'float_complex_', 'double_', 'float_')

    def __getattr__(self, n):
        for k in self.KINDS:
            if n.startswith(k):
                f = getattr(self, '_' + n[len(k):], None)
                if f is None:
                    break
                dt = np.dtype(ELEM[k[:-1]])
                return lambda *a: f(dt, *a)
        raise Unsupported('c_wt.' + n)

    def buf(self, dt, p, n=None):
        oblige('C is given a buffer, not NULL', isinstance(p, Ptr))
        m = p.mem
        oblige('the instance called is that of the element type of the buffer', m.arr.dtype == dt and np.dtype(ELEM.get(p.typ, 'V1')) == dt, f'{dt} called with {m.arr.dtype} ({p.typ})')
        if n is not None:
            oblige('one-dimensional C functions get one-dimensional buffers', m.arr.ndim == 1)
            oblige('the length passed to C is that of the buffer', eq(m.arr.shape[0], n), f'{m.arr.shape[0]!r} {n!r}')
        return m

    def wav(self, w):
        oblige('C is given the wavelet', isinstance(w, CW))
        return w.wav

    def out(self, m, arr):
        oblige('arguments are not written by the glue', m.origin == 'fresh', 'an argument is the output buffer')
        m.arr = SArr.fresh(m.arr.shape, m.arr.dtype, arr.elem())
        m.written, m.zeroed = True, False

    def dec(self, which, dt, x, n, w, o, on, mode):
        mx, mo, w = self.buf(dt, x, n), self.buf(dt, o, on), self.wav(w)
        oblige('C is not given overlapping buffers', mx is not mo)
        oblige('C is not given an empty signal', zi(n) >= 1)
        oblige('C gets an output buffer of the length it computes', eq(on, S.coeff_len(n, w.dec_len, mode)), f'{on!r}')
        oblige('C is not given one sample in the reflecting modes', z3.Not(z3.And(zi(n) == 1, z3.Or(zi(mode) == S.REFLECT, zi(mode) == S.ANTIREFLECT))))
        self.out(mo, V.CUR.opaque(which, (w, mode, 0), [mx.arr], mo.arr.shape, dt))
        return 0

    def _dec_a(self, *a):
        return self.dec('dwt_a', *a)

    def _dec_d(self, *a):
        return self.dec('dwt_d', *a)

    def rec(self, which, dt, x, n, w, o, on):
        mx, mo, w = self.buf(dt, x, n), self.buf(dt, o, on), self.wav(w)
        oblige('C is not given overlapping buffers', mx is not mo)
        oblige('C is not given an empty signal', zi(n) >= 1)
        oblige('C gets an output buffer of the length it computes', eq(on, 2 * zi(n) + zi(w.rec_len) - 2), f'{on!r}')
        oblige('buffers C adds to are zero', mo.zeroed, 'np.zeros expected')
        self.out(mo, V.CUR.opaque(which, (w,), [mx.arr], mo.arr.shape, dt))
        return 0

    def _rec_a(self, *a):
        return self.rec('rec_a', *a)

    def _rec_d(self, *a):
        return self.rec('rec_d', *a)

    def _idwt(self, dt, a, na, d, nd, o, on, w, mode):
        ma = self.buf(dt, a, na) if a is not NULL else None
        md = self.buf(dt, d, nd) if d is not NULL else None
        mo, w = self.buf(dt, o, on), self.wav(w)
        oblige('C is not given overlapping buffers', mo not in (ma, md))
        if ma is None and md is None or ma is not None and md is not None and not bool(mkb(eq(na, nd))):
            return -1
        n = na if ma is not None else nd
        oblige('C is not given an empty signal', zi(n) >= 1)
        oblige('C gets an output buffer of the length it computes', eq(on, S.rec_len(n, w.rec_len, mode)), f'{on!r}')
        oblige('buffers C adds to are zero', mo.zeroed, 'np.zeros expected')
        ref = ma or md
        Z = lambda: SArr.fresh(ref.arr.shape, dt, lambda idx: z3.RealVal(0))
        self.out(mo, V.CUR.opaque('idwt', (w, mode, 0), [ma.arr if ma else Z(), md.arr if md else Z()], mo.arr.shape, dt))
        return 0

    def swt(self, which, dt, x, n, w, o, on, lvl):
        mx, mo, w = self.buf(dt, x, n), self.buf(dt, o, on), self.wav(w)
        oblige('C is not given overlapping buffers', mx is not mo)
        lvl = self.level(n, lvl)
        oblige('C gets an output buffer of the length it computes', eq(on, n), f'{on!r}')
        self.out(mo, V.CUR.opaque(which, (w, lvl, 0), [mx.arr], mo.arr.shape, dt))
        return 0

    def level(self, n, lvl):
        if isinstance(lvl, SInt):
            lvl = V.CUR.unique(lvl.e)
            if lvl is None:
                raise Unsupported('symbolic stationary level')
        oblige('the stationary level is one the signal has', z3.And(z3.BoolVal(lvl >= 1), zi(n) >= 1, zi(n) % (1 << lvl) == 0), f'level {lvl}')
        return lvl

    def _swt_a(self, *a):
        return self.swt('swt_a', *a)

    def _swt_d(self, *a):
        return self.swt('swt_d', *a)

    def info(self, m, i):
        """the ArrayInfo describes this buffer"""
        oblige('every field of the array description is set', all(hasattr(i, k) for k in ('ndim', 'shape', 'strides')), str(sorted(vars(i))))
        oblige('the array description has the rank of the buffer', int(i.ndim) == m.arr.ndim, f'{i.ndim}')
        sh, st = i.shape, i.strides
        oblige('shape and strides of the array description are pointers to extents', isinstance(sh, DimPtr) and isinstance(st, DimPtr))
        sh, st = sh.vals(), st.vals()
        oblige('the array description has the extents of the buffer', len(sh) >= m.arr.ndim and z3.And([eq(p, q) for p, q in zip(sh, m.arr.shape)] + [z3.BoolVal(True)]))
        ms = m.strides.vals
        oblige('the array description has the strides of the buffer', len(st) >= m.arr.ndim and z3.And([eq(p, q) for p, q in zip(st, ms)] + [z3.BoolVal(True)]))
        return list(sh)

    def _downcoef_axis(self, dt, x, xi, o, oi, w, axis, coef, mode, lvl, tr):
        mx, mo, w = self.buf(dt, x), self.buf(dt, o), self.wav(w)
        self.info(mx, xi)
        self.info(mo, oi)
        axis = int(axis)
        oblige('C is not given overlapping buffers', mx is not mo)
        oblige('the kind of coefficient and transform is one C knows', coef in (('coef', 0), ('coef', 1)) and tr in (('tr', 0), ('tr', 1)), f'{coef} {tr}')
        if mx.arr.ndim != mo.arr.ndim:
            return 1
        if axis >= mx.arr.ndim:
            return 2
        n = mx.arr.shape[axis]
        for k, (p, q) in enumerate(zip(mx.arr.shape, mo.arr.shape)):
            want = p if k != axis or tr == ('tr', 1) else S.coeff_len(p, w.dec_len, mode)
            if not bool(mkb(eq(want, q))):
                return 3 if k == axis else 5
        oblige('C is not given an empty signal', zi(n) >= 1)
        if tr == ('tr', 0):
            oblige('C is not given one sample in the reflecting modes', z3.Not(z3.And(zi(n) == 1, z3.Or(zi(mode) == S.REFLECT, zi(mode) == S.ANTIREFLECT))))
            key, name = (w, mode, axis), 'dwt_'
        else:
            key, name = (w, self.level(n, lvl), axis), 'swt_'
        self.out(mo, V.CUR.opaque(name + 'ad'[coef[1]], key, [mx.arr], mo.arr.shape, dt))
        return 0

    def _idwt_axis(self, dt, a, ai, d, di, o, oi, w, axis, mode):
        mo, w = self.buf(dt, o), self.wav(w)
        self.info(mo, oi)
        ms = []
        for p, i in ((a, ai), (d, di)):
            have = p is not NULL and i is not NULL
            if have:
                m = self.buf(dt, p)
                oblige('the description of a band is a pointer to one', isinstance(i, Ref))
                self.info(m, i.s)
                oblige('C is not given overlapping buffers', m is not mo)
                ms.append(m)
            else:
                ms.append(None)
        ma, md = ms
        if ma is None and md is None:
            return 3
        axis = int(axis)
        nd = mo.arr.ndim
        if any(m is not None and m.arr.ndim != nd for m in ms) or axis >= nd:
            return 1
        for k in range(nd):
            for m in ms:
                if m is None:
                    continue
                p = m.arr.shape[k]
                if k == axis:
                    ref = (ma or md).arr.shape[k]
                    if not bool(mkb(eq(p, ref))) or not bool(mkb(eq(S.rec_len(p, w.rec_len, mode), mo.arr.shape[k]))):
                        return 1
                elif not bool(mkb(eq(p, mo.arr.shape[k]))):
                    return 1
        oblige('C is not given an empty signal', zi((ma or md).arr.shape[axis]) >= 1)
        ref = ma or md
        Z = lambda: SArr.fresh(ref.arr.shape, dt, lambda idx: z3.RealVal(0))
        self.out(mo, V.CUR.opaque('idwt', (w, mode, axis), [ma.arr if ma else Z(), md.arr if md else Z()], mo.arr.shape, dt))
        return 0


class ModeNames:
    def __getattr__(self, n):
        if n in S.ENUM:
            return S.ENUM[n]
        if n == 'MODE_MAX':
            return S.MODE_MAX
        raise Unsupported('MODE.' + n)


class GWarn:
    def warn(self, *a, **k):
        V.CUR.warnings.append(a)


def g_len(x):
    if isinstance(x, (NA, MV)):
        return x.mem.arr.shape[0] if isinstance(x, NA) else x.size
    return V.b_len(x)


def check_dtype(x):
    return S.check_dtype(x.mem.arr if isinstance(x, NA) else x.arr if isinstance(x, MV) else x)


def module(mod, **extra):
    ns = dict(np=GNP(), vf_arg=g_arg, vf_set=g_set, vf_new=g_new, vf_cast=g_cast, vf_view=g_view, vf_addr=g_addr, vf_fuse=fuse, NULL=NULL, common=Common(), c_wt=CWT(),
              MODE=ModeNames(), warnings=GWarn(), _check_dtype=check_dtype, len=g_len, Wavelet=S.Wavelet, vf_missing=lambda n, e: V.Missing(n))
    ns.update(extra)
    return V.load(f'pywt/_extensions/{mod}.pyx', ns, source=text(mod))


def wrap(x):
    if isinstance(x, SArr):
        st = [V.CUR.int(V.CUR.fresh('stride')) for _ in x.shape]
        return NA(Mem(x, 'input', st))
    if isinstance(x, S.Wavelet) and not isinstance(x, GWavelet):
        g = GWavelet.__new__(GWavelet)
        g.__dict__.update(x.__dict__)
        return g
    return x


def unwrap(r):
    if isinstance(r, NA):
        return r.mem.arr
    if isinstance(r, MV):
        return r.arr
    if isinstance(r, (tuple, list)):
        return type(r)(unwrap(x) for x in r)
    return r


def mems(r):
    if isinstance(r, (NA, MV)):
        return [r.mem]
    if isinstance(r, (tuple, list)):
        return [m for x in r for m in mems(x)]
    return []


def meets(e, f, contract, args, kw=None, what='result equals the contract'):
    """the glue function f meets its contract (pyspec) on these arguments"""
    from pylib import compare
    kw = kw or {}
    ga = [wrap(a) for a in args]
    before = [(a.mem, a.mem.arr.elem() if isinstance(a, NA) else None) for a in ga if isinstance(a, NA)]
    k, r = e.call(f, *ga, **kw)
    w0 = list(e.input_writes)
    k2, s = e.call(contract, *args, **kw)
    e.ob('raises exactly when the contract does', k == k2, f'{k} {r!r} / {k2} {s!r}'[:300])
    e.ob('arguments are not written', not w0 and not any(m.written for m, _ in before), str(w0))
    for m, _ in before:
        e.ob('extents of the arguments unchanged', list(m.dims.vals) == list(m.shape0) or all(x is y for x, y in zip(m.dims.vals, m.shape0)), '')
    if k == k2 == 'ok':
        ms = mems(r)
        e.ob('results share no memory with the arguments', all(m.origin == 'fresh' and m.arr.buf.origin == 'fresh' for m in ms), '')
        e.ob('results share no memory with each other', len({id(m) for m in ms}) == len(ms), '')
        compare(e, unwrap(r), s, what)
    return k, r, s
