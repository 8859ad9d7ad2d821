"""Contracts of the compiled transforms and of the wavelet/mode objects, used (a) as what callers see of their callees,
(b) as the vocabulary in which the postconditions of the Python-level transforms are written."""
import numpy as np
import z3
import pyvc as V
from pyvc import SArr, SInt, SReal, zi, mk, Unsupported, Prune

PER, REFLECT, ANTIREFLECT = 5, 6, 8


def _enum():
    """the mode numbers of the current header"""
    import os, re
    src = open(os.path.join(V.lib.CDIR, 'common.h')).read()
    body = src[src.index('MODE_INVALID'):src.index('MODE_MAX')]
    body = re.sub(r'/\*.*?\*/', '', body, flags=re.S)
    val, d = -1, {}
    for part in body.split(','):
        part = part.strip()
        m = re.match(r'(MODE_\w+)\s*(?:=\s*(-?\d+))?$', part)
        if m:
            if m.group(2) is not None:
                val = int(m.group(2))
            d[m.group(1)] = val
            val += 1
    return d


ENUM = _enum()
NAMES = dict(zero='MODE_ZEROPAD', constant='MODE_CONSTANT_EDGE', symmetric='MODE_SYMMETRIC', reflect='MODE_REFLECT', periodic='MODE_PERIODIC',
             smooth='MODE_SMOOTH', periodization='MODE_PERIODIZATION', antisymmetric='MODE_ANTISYMMETRIC', antireflect='MODE_ANTIREFLECT')
MODE = {k: ENUM[v] for k, v in NAMES.items()}
PER, REFLECT, ANTIREFLECT = MODE['periodization'], MODE['reflect'], MODE['antireflect']
MODE_MAX = max(MODE.values()) + 1


class ModesStub:
    modes = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect", "antisymmetric", "antireflect"]

    def from_object(self, mode):
        if V.b_isinstance(mode, int):
            if isinstance(mode, SInt):
                if not V.CUR.valid(z3.And(mode.e >= 0, mode.e < MODE_MAX)):
                    raise Unsupported('mode number')
                return mode
            if not 0 <= mode < MODE_MAX:
                raise V.stub_exc(ValueError, 'Invalid mode.')
            return mode
        if isinstance(mode, str) and mode in MODE:
            return MODE[mode]
        raise V.stub_exc(ValueError, 'Unknown mode name')

    def __getattr__(self, n):
        if n in MODE:
            return MODE[n]
        raise Unsupported('Modes.' + n)


Modes = ModesStub()


class Wavelet:
    """a discrete wavelet: filters of even length >= 2, known by identity; scale: all four filters multiplied by 2^(scale/2)"""
    def __init__(self, name='w', filter_bank=None):
        if not isinstance(name, str):
            raise Unsupported('wavelet name')
        k = V.CUR.memo.setdefault('wavelets', {})
        scale = 0
        self.name = base = name
        if filter_bank is not None:
            fb = list(filter_bank)
            if len(fb) != 4 or not all(isinstance(f, Filt) for f in fb) or [f.i for f in fb] != [0, 1, 2, 3] or any(f.w != fb[0].w or f.k != fb[0].k for f in fb):
                raise Unsupported('construction of a filter bank')
            base, scale = fb[0].w.base, fb[0].k
        if base not in k:
            F = V.CUR.int('F_' + base, 2)
            V.CUR.assume(F.e % 2 == 0)
            k[base] = F
        self.base, self.dec_len, self.scale = base, k[base], scale
        self.rec_len = self.dec_len
        self.orthogonal = V.CUR.bool('orth_' + base) if filter_bank is None else None
        self.biorthogonal = True

    @property
    def filter_bank(self):
        return tuple(Filt(self, i, self.scale) for i in range(4))

    def __eq__(self, o):
        return isinstance(o, Wavelet) and o.base == self.base and o.scale == self.scale

    def __hash__(self):
        return hash(self.base)

    def __getattr__(self, n):
        raise Unsupported('Wavelet.' + n)


class Filt(V.Deferred):
    """one filter of a bank, times 2^(k/2)"""
    def __init__(self, w, i, k=0):
        self.w, self.i, self.k = w, i, k

    @staticmethod
    def expo(c):
        import math
        c = float(c)
        if c > 0:
            n = round(2 * math.log2(c))
            if abs(c - 2.0 ** (n / 2)) < 4e-16 * c:
                return n
        raise Unsupported('filter scaled by %r' % c)

    def __mul__(self, c):
        return Filt(self.w, self.i, self.k + self.expo(c))
    __rmul__ = __mul__

    def __truediv__(self, c):
        return Filt(self.w, self.i, self.k - self.expo(c))

    def __getattr__(self, n):
        raise Unsupported('attribute of a filter: ' + n)


class ContinuousWavelet:
    pass


def DiscreteContinuousWavelet(name):
    return Wavelet(name)


def as_wavelet(w):
    return w if isinstance(w, Wavelet) else Wavelet(w)


def check_dtype(x):
    """_check_dtype: the documented rule"""
    if not isinstance(x, SArr):
        if isinstance(x, (SInt, SReal, list, tuple)):
            return np.dtype('f8')
        raise Unsupported('_check_dtype of ' + type(x).__name__)
    return rule(x.dtype)


def rule(dt):
    dt = np.dtype(dt).newbyteorder('=')
    if dt in (np.float64, np.float32, np.complex64, np.complex128):
        return dt
    if dt == np.half:
        return np.dtype('f4')
    if dt == np.dtype('clongdouble'):
        return np.dtype('c16')
    return np.dtype('f8')


def coeff_len(n, F, mode):
    """specified number of coefficients of one level"""
    if isinstance(mode, SInt):
        return V.CUR.norm(z3.If(mode.e == PER, (zi(n) + 1) / 2, (zi(n) + zi(F) - 1) / 2))
    return V.CUR.norm((zi(n) + 1) / 2 if mode == PER else (zi(n) + zi(F) - 1) / 2)


def rec_len(n, F, mode):
    if isinstance(mode, SInt):
        return V.CUR.norm(z3.If(mode.e == PER, 2 * zi(n), 2 * zi(n) - zi(F) + 2))
    return V.CUR.norm(2 * zi(n) if mode == PER else 2 * zi(n) - zi(F) + 2)


def dwt_coeff_len(data_len, filter_len, mode):
    if isinstance(filter_len, Wavelet):
        filter_len = filter_len.dec_len
    mode = Modes.from_object(mode)
    if bool(data_len < 1):
        raise V.stub_exc(ValueError, 'data_len')
    return coeff_len(data_len, filter_len, mode)


_dml = z3.Function('dwt_max_level', z3.IntSort(), z3.IntSort(), z3.IntSort())
_sml = z3.Function('swt_max_level', z3.IntSort(), z3.IntSort())


def dwt_max_level(n, F):
    if isinstance(F, str):
        F = Wavelet(F)
    if isinstance(F, Wavelet):
        F = F.dec_len
    e = _dml(zi(n), zi(F))
    V.CUR.assume(e >= 0)
    V.CUR.assume(z3.Implies(zi(n) < 2 * (zi(F) - 1), e == 0))
    V.CUR.assume(z3.Implies(e == 0, z3.Or(zi(n) < 2 * (zi(F) - 1), zi(F) < 2)))
    return SInt(e)


def swt_max_level(n):
    e = _sml(zi(n))
    V.CUR.assume(e >= 0)
    for k in range(0, 5):
        V.CUR.assume(z3.Implies(zi(n) >= 1, (e >= k) == (zi(n) % (1 << k) == 0)))
    return SInt(e)


# --------------------------------------------------------------- single-level transforms along an axis
class Rec:
    """transforms taken on this path, for the perfect-reconstruction lemma"""


def line_dtype(dt):
    return rule(dt)


def DWT(x, wav, mode, axis):
    """specification: both bands of the single-level transform of x along axis (0 <= axis < ndim, extents admissible)"""
    shape = list(x.shape)
    shape[axis] = coeff_len(x.shape[axis], wav.dec_len, mode)
    dt = rule(x.dtype)
    key = (wav, mode, axis)
    a = V.CUR.opaque('dwt_a', key, [x], shape, dt)
    d = V.CUR.opaque('dwt_d', key, [x], shape, dt)
    log = V.CUR.memo.setdefault('dwtlog', [])
    log.append((wav, mode, axis, SArr.fresh(x.shape, x.dtype, x.elem()), a.copy(), d.copy()))
    return a, d


def dwt_axis(data, wavelet, mode, axis=0):
    """contract of _extensions._dwt.dwt_axis"""
    if not isinstance(data, SArr):
        raise Unsupported('dwt_axis of ' + type(data).__name__)
    if not isinstance(wavelet, Wavelet):
        raise V.stub_exc(TypeError, 'wavelet')
    mode = Modes.from_object(mode)
    axis = int(axis)
    if axis < 0:
        raise V.stub_exc(OverflowError, 'axis')
    if axis >= data.ndim:
        raise V.stub_exc(ValueError, 'Axis greater than data dimensions')
    n = data.shape[axis]
    if bool(n < 1):
        raise V.stub_exc(ValueError, 'empty')
    refl = z3.Or(zi(mode) == REFLECT, zi(mode) == ANTIREFLECT)
    if bool(V.mkb(z3.And(zi(n) == 1, refl))):
        raise V.stub_exc(ValueError, 'one sample')
    return DWT(data, wavelet, mode, axis)


def dwt_single(data, wavelet, mode):
    """contract of dwt_single: a C-contiguous buffer of one of the four types"""
    if data.ndim != 1 or data.dtype not in (np.float32, np.float64, np.complex64, np.complex128):
        raise V.stub_exc(ValueError, 'buffer')
    V.CUR.ob('dwt_single is given a contiguous buffer', data.contig is True, 'possibly strided')
    return dwt_axis(data, wavelet, mode, 0)


def IDWT(a, d, wav, mode, axis, lemma=True):
    """specification of the single-level reconstruction (both bands of equal extents; a missing one is zeros)"""
    ref = a if a is not None else d
    shape = list(ref.shape)
    shape[axis] = rec_len(ref.shape[axis], wav.rec_len, mode)
    dts = [rule(x.dtype) for x in (a, d) if x is not None]
    dt = dts[0] if len(dts) == 1 else promote(*dts)
    Z = lambda: SArr.fresh(ref.shape, ref.dtype, lambda idx: z3.RealVal(0))
    a = a if a is not None else Z()
    d = d if d is not None else Z()
    r = V.CUR.opaque('idwt', (wav, mode, axis), [a, d], shape, dt)
    if lemma:
        # perfect reconstruction (C05), line by line: on lines whose bands are those of a line of x, that line of x is returned
        for w2, m2, ax2, x, ra, rd in V.CUR.memo.get('dwtlog', []):
            if ax2 == axis and w2.base == wav.base and w2.scale + wav.scale == 0 and x.ndim == a.ndim and V.CUR.par_eq(m2, mode) and lines(a, ra, axis) and lines(d, rd, axis):
                er, ex = r.elem(), x.elem()
                r = SArr.fresh(shape, dt, lambda idx: z3.If(z3.And([i < zi(n) for i, n in zip(idx, x.shape)]), ex(idx), er(idx)))
                V.CUR.memo['used_pr'] = True
                break
        else:
            r = iswt_lemma(r, a, d, wav, mode, axis)
    return r


def lines(got, ref, axis):
    """got and ref have the same lines along axis, for every line of ref"""
    e = V.CUR
    if not e.valid(z3.And([zi(g) == zi(r) if k == axis else zi(g) >= zi(r) for k, (g, r) in enumerate(zip(got.shape, ref.shape))])):
        return False
    idx = [z3.Int(e.fresh('l')) for _ in got.shape]
    return e.valid(z3.Implies(z3.And(e.inb(idx, ref.shape)), got.elem()(idx) == ref.elem()(idx)))


def promote(x, y):
    """dtype two bands are processed in: one type if equal, else double precision, complex if one is"""
    if x == y:
        return x
    return np.dtype('c16') if 'c' in (x.kind, y.kind) else np.dtype('f8')


def apply_of(t, name):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and t.decl().name().startswith(name + '!')


def settle(e, t, pre):
    """simplify a term under in-bounds assumptions: conditions they settle disappear"""
    t = z3.simplify(t)
    for _ in range(24):
        its = V.ifs(t)
        for c in its:
            if e.valid(z3.Implies(pre, c)):
                t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(True))))
                break
            if e.valid(z3.Implies(pre, z3.Not(c))):
                t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(False))))
                break
        else:
            return t
    return t


def iswt_lemma(r, a, d, wav, mode, axis):
    """consequence of perfect reconstruction and of the definition of the stationary transform (lemma, proved on paper in DESIGN.md):
    the samples of one parity of one coset of a stationary transform are the periodized transform of that coset, shifted by the parity"""
    e = V.CUR
    logs = e.memo.get('swtlog', [])
    if not logs or not V.isint(mode) or not e.valid(zi(mode) == PER):
        return r
    idx = [z3.Int(e.fresh('l')) for _ in d.shape]
    pre = z3.And(e.inb(idx, d.shape))
    t = settle(e, d.elem()(idx), pre)
    if not apply_of(t, 'swt_d'):
        return r
    for w2, lvl, ax2, x, ea, ed in logs:
        td = ed.elem()(idx)
        if ax2 != axis or w2.base != wav.base or w2.scale + wav.scale != 0 or not td.decl().eq(t.decl()):
            continue
        args = [t.arg(k) for k in range(t.num_args())]
        step = 1 << (lvl - 1)
        l = idx[axis]
        c = z3.simplify(args[axis] - 2 * step * l)
        N = zi(x.shape[axis])
        free = all(not occurs(l, g) for k, g in enumerate(args) if k != axis) and not occurs(l, c)
        if not (free and e.valid(z3.And(zi(d.shape[axis]) * 2 * step == N, c >= 0, c < 2 * step))):
            continue
        if not e.valid(z3.Implies(pre, a.elem()(idx) == ea.elem()(args))):
            continue
        er, ex, dsh = r.elem(), x.elem(), d.shape

        def val(i2):
            sub = [(l0, v) for l0, v in zip(idx, i2)]
            g = [z3.substitute(q, *sub) for q in args]
            p = z3.substitute(c, *sub) + step * i2[axis]
            g[axis] = z3.If(p >= N, p - N, p)
            ok = [z3.And(v >= 0, v < zi(n)) for k, (v, n) in enumerate(zip(i2, r.shape))]
            return z3.If(z3.And(ok), ex(g), er(i2))
        V.CUR.memo['used_swt_pr'] = True
        return SArr.fresh(r.shape, r.dtype, val)
    return r


def occurs(v, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def SWT1(x, wav, lvl, axis):
    """specification: both bands of level lvl of the stationary transform of x along axis"""
    dt = rule(x.dtype)
    a = V.CUR.opaque('swt_a', (wav, lvl, axis), [x], x.shape, dt)
    d = V.CUR.opaque('swt_d', (wav, lvl, axis), [x], x.shape, dt)
    V.CUR.memo.setdefault('swtlog', []).append((wav, lvl, axis, SArr.fresh(x.shape, x.dtype, x.elem()), a.copy(), d.copy()))
    return a, d


def swt_axis(data, wavelet, level, start_level, axis=0, trim_approx=False):
    """contract of _extensions._swt.swt_axis"""
    if not isinstance(data, SArr):
        raise Unsupported('swt_axis of ' + type(data).__name__)
    if not isinstance(wavelet, Wavelet):
        raise V.stub_exc(TypeError, 'wavelet')
    axis = int(axis)
    if not 0 <= axis < data.ndim:
        V.CUR.ob('swt_axis is given an axis of the array', False, f'{axis} of {data.ndim}')
        raise Prune()
    if bool(V.mkb(z3.Or(zi(level) < 0, zi(start_level) < 0))):
        raise V.stub_exc(OverflowError, 'negative')
    n = data.shape[axis]
    if bool(n % 2 == 1) or bool(n < 1) or bool(level < 1):
        raise V.stub_exc(ValueError, 'arguments')
    mx = swt_max_level(n)
    if bool(start_level >= mx) or bool(start_level + level > mx):
        raise V.stub_exc(ValueError, 'level')
    if not isinstance(trim_approx, bool):
        raise Unsupported('trim_approx')
    out, a = [], data
    for i in V.b_range(level):
        lv = start_level + i + 1
        if isinstance(lv, SInt):
            lv = V.CUR.unique(lv.e)
            if lv is None:
                raise Unsupported('symbolic stationary level')
        a, d = SWT1(a, wavelet, lv, axis)
        out.append(d if trim_approx else (a, d))
    if trim_approx:
        out.append(a)
    return out[::-1]


def swt1(data, wavelet, level, start_level, trim_approx=False):
    """contract of _extensions._swt.swt"""
    V.CUR.ob('the 1-D stationary transform is given a contiguous 1-D buffer of one of the four types',
             data.ndim == 1 and data.contig is True and data.dtype == rule(data.dtype), f'{data.ndim} {data.dtype}')
    return swt_axis(data, wavelet, level, start_level, 0, trim_approx)


def idwt_axis(coefs_a, coefs_d, wavelet, mode, axis=0):
    """contract of _extensions._dwt.idwt_axis"""
    for x in (coefs_a, coefs_d):
        if x is not None and not isinstance(x, SArr):
            raise Unsupported('idwt_axis of ' + type(x).__name__)
    if not isinstance(wavelet, Wavelet):
        raise V.stub_exc(TypeError, 'wavelet')
    mode = Modes.from_object(mode)
    axis = int(axis)
    if axis < 0:
        raise V.stub_exc(OverflowError, 'axis')
    if coefs_a is None and coefs_d is None:
        return None
    if coefs_a is not None and coefs_d is not None:
        ra, rd = rule(coefs_a.dtype), rule(coefs_d.dtype)
        V.CUR.ob('idwt_axis is given bands of one type (or one that the glue converts)', ra == rd or ra.itemsize != rd.itemsize, f'{ra} {rd}')
    ref = coefs_a if coefs_a is not None else coefs_d
    if axis >= ref.ndim:
        raise V.stub_exc(ValueError, 'axis')
    if bool(ref.shape[axis] < 1):
        raise V.stub_exc(ValueError, 'empty')
    if coefs_a is not None and coefs_d is not None:
        if coefs_a.ndim != coefs_d.ndim:
            raise V.stub_exc(RuntimeError, 'shape')
        for p, q in zip(coefs_a.shape, coefs_d.shape):
            if not bool(p == q):
                raise V.stub_exc(RuntimeError, 'shape')
    n = rec_len(ref.shape[axis], wavelet.rec_len, mode)
    if bool(n < 0):
        raise V.stub_exc(ValueError, 'too few coefficients for this wavelet')
    return IDWT(coefs_a, coefs_d, wavelet, mode, axis)


def idwt_single(cA, cD, wavelet, mode):
    V.CUR.ob('idwt_single is given two 1-D bands of one type', cA.ndim == cD.ndim == 1 and cA.dtype == cD.dtype and cA.dtype == rule(cA.dtype),
             f'{cA.ndim} {cD.ndim} {cA.dtype} {cD.dtype}')
    V.CUR.ob('idwt_single is given contiguous buffers', cA.contig is True and cD.contig is True, 'possibly strided')
    if not bool(cA.size == cD.size):
        raise V.stub_exc(ValueError, 'size')
    if bool(rec_len(cA.shape[0], wavelet.rec_len, Modes.from_object(mode)) == 0):
        raise V.stub_exc(ValueError, 'too few coefficients for this wavelet')
    return idwt_axis(cA, cD, wavelet, mode, 0)


# --------------------------------------------------------------- n-D reference compositions
def dwtn_spec(x, wavs, modes, axes):
    cur = {'': x}
    for ax, w, m in zip(axes, wavs, modes):
        new = {}
        for k, v in cur.items():
            new[k + 'a'], new[k + 'd'] = dwt_axis(v, w, m, ax)
        cur = new
    return cur


def idwtn_spec(coeffs, wavs, modes, axes):
    """bands missing in coeffs are zeros"""
    cur = dict(coeffs)
    for j in range(len(axes) - 1, -1, -1):
        ax, w, m = axes[j], wavs[j], modes[j]
        new = {}
        import itertools
        for key in (''.join(c) for c in itertools.product('ad', repeat=j)):
            new[key] = idwt_axis(*unify(cur.get(key + 'a'), cur.get(key + 'd')), w, m, ax)
        cur = new
    return cur['']


def unify(a, d):
    if a is not None and d is not None:
        ra, rd = rule(a.dtype), rule(d.dtype)
        dt = promote(ra, rd)
        a = a if a.dtype == dt else a.astype(dt)
        d = d if d.dtype == dt else d.astype(dt)
    return a, d


ALL = dict(Wavelet=Wavelet, ContinuousWavelet=ContinuousWavelet, DiscreteContinuousWavelet=DiscreteContinuousWavelet, Modes=Modes,
           _check_dtype=check_dtype, dwt_axis=dwt_axis, idwt_axis=idwt_axis, dwt_single=dwt_single, idwt_single=idwt_single,
           _dwt_coeff_len=dwt_coeff_len, _dwt_max_level=dwt_max_level, dwt_coeff_len=dwt_coeff_len, dwt_max_level=dwt_max_level,
           swt_max_level=swt_max_level, _swt_axis=swt_axis, _swt=swt1)


def stubs(*names, **more):
    d = {n: ALL[n] for n in names}
    d.update(more)
    return d


# --------------------------------------------------------------- contracts of the public functions (verified against their bodies)
NPC = V.NP()
AxisError = np.exceptions.AxisError


def per_axis_w(w, axes):
    if V.b_isinstance(w, (str, Wavelet)):
        return [as_wavelet(w)] * len(axes)
    if isinstance(w, (list, tuple)):
        if len(w) == 1:
            return [as_wavelet(w[0])] * len(axes)
        if len(w) != len(axes):
            raise V.stub_exc(ValueError, 'wavelets')
        return [as_wavelet(x) for x in w]
    raise V.stub_exc(ValueError, 'wavelet')


def per_axis_m(m, axes):
    if V.b_isinstance(m, (str, int)):
        return [Modes.from_object(m)] * len(axes)
    if isinstance(m, (list, tuple)):
        if len(m) == 1:
            return [Modes.from_object(m[0])] * len(axes)
        if len(m) != len(axes):
            raise V.stub_exc(ValueError, 'modes')
        return [Modes.from_object(x) for x in m]
    raise V.stub_exc(ValueError, 'mode')


def nat(x):
    """array the transform works on: same values, no promise of identity"""
    if not isinstance(x, SArr):
        raise Unsupported('array expected')
    return x


def norm_axis(axis, nd):
    axis = int(axis)
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise V.stub_exc(AxisError, 'axis')
    return axis


def dwt(data, wavelet, mode='symmetric', axis=-1):
    data = nat(data)
    w, m = as_wavelet(wavelet), Modes.from_object(mode)
    return dwt_axis(data, w, m, norm_axis(axis, data.ndim))


def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
    if cA is None and cD is None:
        raise V.stub_exc(ValueError, 'no coefficients')
    ref = nat(cA if cA is not None else cD)
    w, m = as_wavelet(wavelet), Modes.from_object(mode)
    ax = norm_axis(axis, ref.ndim)
    cA, cD = unify(cA, cD)
    if ref.ndim == 1 and bool(ref.shape[0] >= 1) and bool(rec_len(ref.shape[0], w.rec_len, m) == 0):
        if cA is not None and cD is not None and not bool(cA.shape[0] == cD.shape[0]):
            raise V.stub_exc(ValueError, 'size')
        raise V.stub_exc(ValueError, 'too few coefficients for this wavelet')    # an empty result in more than one dimension
    return idwt_axis(cA, cD, w, m, ax)


def dwtn(data, wavelet, mode='symmetric', axes=None):
    data = nat(data)
    if data.ndim < 1:
        raise V.stub_exc(ValueError, '0-d')
    axes = list(range(data.ndim)) if axes is None else [a + data.ndim if a < 0 else a for a in axes]
    ms, ws = per_axis_m(mode, axes), per_axis_w(wavelet, axes)
    return dwtn_spec(data, ws, ms, axes)


def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
    c = {k: nat(v) for k, v in coeffs.items() if v is not None}
    if not c or any(not set(k) <= set('ad') for k in c) or len({len(k) for k in c}) > 1:
        raise V.stub_exc(ValueError, 'keys')
    n = len(next(iter(c)))
    shape = next(iter(c.values())).shape
    for v in c.values():
        if v.ndim != len(shape) or not all(bool(p == q) for p, q in zip(v.shape, shape)):
            raise V.stub_exc(ValueError, 'shapes')
    nd = len(shape)
    axes = list(range(n)) if axes is None else [a + nd if a < 0 else a for a in axes]
    ms, ws = per_axis_m(mode, axes), per_axis_w(wavelet, axes)
    if any(not 0 <= a < nd for a in axes):
        raise V.stub_exc(AxisError, 'axis')
    return idwtn_spec(c, ws, ms, axes)


def dwt2(data, wavelet, mode='symmetric', axes=(-2, -1)):
    axes = tuple(axes)
    if len(axes) != 2 or nat(data).ndim < len(set(axes)):
        raise V.stub_exc(ValueError, 'axes')
    c = dwtn(data, wavelet, mode, axes)
    return c['aa'], (c['da'], c['ad'], c['dd'])


def idwt2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
    LL, (HL, LH, HH) = coeffs
    axes = tuple(axes)
    if len(axes) != 2:
        raise V.stub_exc(ValueError, 'axes')
    return idwtn({'aa': LL, 'da': HL, 'ad': LH, 'dd': HH}, wavelet, mode, axes)


ALL.update(dwt=dwt, idwt=idwt, dwtn=dwtn, idwtn=idwtn, dwt2=dwt2, idwt2=idwt2)


# --------------------------------------------------------------- multilevel transforms
def as_level(level, ns, Fs):
    mx = V.smin(*[dwt_max_level(n, F) for n, F in zip(ns, Fs)])
    if level is None:
        return mx
    if bool(level < 0):
        raise V.stub_exc(ValueError, 'level')
    return level


def wavedec(data, wavelet, mode='symmetric', level=None, axis=-1):
    data, w = nat(data), as_wavelet(wavelet)
    if not -data.ndim <= axis < data.ndim:
        raise V.stub_exc(AxisError, 'axis')
    level = as_level(level, [data.shape[axis]], [w.dec_len])
    a, out = data, []
    for _ in V.b_range(level):
        a, d = dwt(a, w, mode, axis)
        out.append(d)
    return [a] + out[::-1]


def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
    """each detail band may be None; an approximation one longer than the detail loses its last sample"""
    if len(coeffs) < 1:
        raise V.stub_exc(ValueError, 'empty')
    a = coeffs[0]
    for d in coeffs[1:]:
        if a is not None and d is not None:
            if not (-a.ndim <= axis < a.ndim and -d.ndim <= axis < d.ndim):
                raise V.stub_exc(AxisError, 'axis')
            if bool(a.shape[axis] == d.shape[axis] + 1):
                k = [slice(None)] * a.ndim
                k[axis] = slice(0, d.shape[axis])
                a = a[tuple(k)]
            elif not bool(a.shape[axis] == d.shape[axis]):
                raise V.stub_exc(ValueError, 'shape')
        a = idwt(a, d, wavelet, mode, axis)
    return a


def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
    data = nat(data)
    axes = tuple(axes)
    if data.ndim < 2 or len(axes) != 2 or len(set(axes)) != 2:
        raise V.stub_exc(ValueError, 'axes')
    if any(not -data.ndim <= a < data.ndim for a in axes):
        raise V.stub_exc(AxisError, 'axis')
    ws = per_axis_w(wavelet, axes)
    level = as_level(level, [data.shape[a] for a in axes], [w.dec_len for w in ws])
    a, out = data, []
    for _ in V.b_range(level):
        a, d = dwt2(a, wavelet, mode, axes)
        out.append(d)
    return [a] + out[::-1]


def trim(a, shape):
    """drop the one extra sample per axis that a reconstruction of an odd length has"""
    k = []
    for p, q in zip(a.shape, shape):
        if bool(p == q):
            k.append(slice(None))
        elif bool(p == q + 1):
            k.append(slice(0, q))
        else:
            raise V.stub_exc(ValueError, 'shape')
    return a[tuple(k)]


def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
    if len(coeffs) < 1 or len(set(axes)) != len(axes):
        raise V.stub_exc(ValueError, 'coeffs')
    a = coeffs[0]
    for d in coeffs[1:]:
        d = tuple(d)
        have = [x for x in d if x is not None]
        if have and a is not None:
            a = trim(a, have[0].shape)
        a = idwt2((a, d), wavelet, mode, axes)
    return a


def axes_n(shape, axes):
    nd = len(shape)
    if nd < 1:
        raise V.stub_exc(ValueError, '0-d')
    if axes is None:
        axes = range(nd)
    elif V.b_isinstance(axes, int):
        axes = (axes,)
    axes = tuple(axes)
    if any(not -nd <= a < nd for a in axes):
        raise V.stub_exc(AxisError, 'axis')
    if len({a % nd for a in axes}) != len(axes):
        raise V.stub_exc(ValueError, 'axes')
    return axes


def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
    data = nat(data)
    axes = axes_n(data.shape, axes)
    ws = per_axis_w(wavelet, axes)
    level = as_level(level, [data.shape[a] for a in axes], [w.dec_len for w in ws])
    a, out = data, []
    for _ in V.b_range(level):
        c = dwtn(a, wavelet, mode, axes)
        a = c.pop('a' * len(axes))
        out.append(c)
    return [a] + out[::-1]


def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
    if len(coeffs) < 1:
        raise V.stub_exc(ValueError, 'empty')
    if len(coeffs) == 1:
        return coeffs[0]
    a, ds = coeffs[0], [dict(d) for d in coeffs[1:]]
    arr = [x for x in [a] + [v for d in ds for v in d.values()] if x is not None]
    if not arr:
        raise V.stub_exc(ValueError, 'nothing')
    nd = arr[0].ndim
    if any(x.ndim != nd for x in arr):
        raise V.stub_exc(ValueError, 'dimensions')
    axes = tuple(range(nd)) if axes is None else (axes,) if V.b_isinstance(axes, int) else tuple(axes)
    if len(set(axes)) != len(axes):
        raise V.stub_exc(ValueError, 'axes')
    for j, d in enumerate(ds):
        if a is None and not d:
            continue
        if j > 0 and a is not None and d:
            a = trim(a, next(iter(d.values())).shape)
        d['a' * len(axes)] = a
        a = idwtn(d, wavelet, mode, axes)
    return a


ALL.update(wavedec=wavedec, waverec=waverec, wavedec2=wavedec2, waverec2=waverec2, wavedecn=wavedecn, waverecn=waverecn)


# --------------------------------------------------------------- stationary transforms
def scaled(w, k):
    r = Wavelet.__new__(Wavelet)
    r.__dict__.update(w.__dict__)
    r.scale = w.scale + k
    return r


def swt(data, wavelet, level=None, start_level=0, axis=-1, trim_approx=False, norm=False):
    data, w = nat(data), as_wavelet(wavelet)
    axis = norm_axis(axis, data.ndim)
    if level is None:
        if bool(data.shape[axis] < 1):
            raise V.stub_exc(ValueError, 'empty')
        level = swt_max_level(data.shape[axis])
    return swt_axis(data, scaled(w, -1) if norm else w, level, start_level, axis, trim_approx)


def swtn(data, wavelet, level, start_level=0, axes=None, trim_approx=False, norm=False):
    data = nat(data)
    if data.ndim < 1:
        raise V.stub_exc(ValueError, '0-d')
    axes = list(range(data.ndim)) if axes is None else [norm_axis(a, data.ndim) for a in axes]
    if len(set(axes)) != len(axes):
        raise V.stub_exc(ValueError, 'axes')
    ws = per_axis_w(wavelet, axes)
    ws = [scaled(w, -1) for w in ws] if norm else ws
    a, out = data, []
    for i in V.b_range(level):
        cur = {'': a}
        for ax, w in zip(axes, ws):
            cur = {k + b: v for k, x in cur.items() for b, v in zip('ad', swt_axis(x, w, 1, start_level + i, ax)[0])}
        key = 'a' * len(axes)
        a = cur[key]
        if trim_approx:
            cur = {k: v for k, v in cur.items() if k != key}
        out.append(cur)
    if trim_approx:
        out.append(a)
    return out[::-1]


def swt2(data, wavelet, level, start_level=0, axes=(-2, -1), trim_approx=False, norm=False):
    axes = tuple(axes)
    if len(axes) != 2 or len(set(axes)) != 2:
        raise V.stub_exc(ValueError, 'axes')
    c = swtn(data, wavelet, level, start_level, axes, trim_approx, norm)
    if trim_approx:
        return [c[0]] + [(v['da'], v['ad'], v['dd']) for v in c[1:]]
    return [(v['aa'], (v['da'], v['ad'], v['dd'])) for v in c]


ALL.update(swt=swt, swt2=swt2, swtn=swtn)
