"""C15 above the C sources: the compiled glue (cwt_psi_single, ContinuousWavelet), the C table of continuous wavelets, integration, frequencies, cwt itself."""
from pylib import *
import math, os, re, shutil, subprocess, tempfile, time
import glue as G
from pyvc import SReal, zi, mkb, mk, Unsupported, real
FAM = {'gaus': ('GAUS', 5, 0, ('1',)), 'mexh': ('MEXH', 8, 0, ()), 'morl': ('MORL', 8, 0, ()), 'cgau': ('CGAU', 5, 1, ('1',)), 'shan': ('SHAN', 20, 1, ()), 'fbsp': ('FBSP', 20, 1, ()), 'cmor': ('CMOR', 8, 1, ())}
DEFAULTS = {'shan': (0.5, 1.0, 0), 'fbsp': (1.0, 0.5, 2), 'cmor': (1.0, 0.5, 0)}       # bandwidth, centre, order
CPLX = ('cgau', 'shan', 'fbsp', 'cmor')
FP = ['pywt/_extensions/_cwt.pyx: cwt_psi_single', 'pywt/_extensions/_pywt.pyx: ContinuousWavelet']
TFN = ['pywt/_extensions/c/wavelets.c: continuous_wavelet, blank_continuous_wavelet']
BE = 'evaluation of the compiled table (finite domain, exhaustive)'
DRIVER = r'''
#include <stdio.h>
#include "wavelets.h"
int main(void) {
    static const char *nm[] = {"gaus", "mexh", "morl", "cgau", "shan", "fbsp", "cmor"};
    static const int code[] = {GAUS, MEXH, MORL, CGAU, SHAN, FBSP, CMOR};
    for (int k = 0; k < 7; k++)
        for (int o = 0; o <= 200; o++) {
            ContinuousWavelet *w = continuous_wavelet(code[k], o);
            if (!w) { printf("N %s %d\n", nm[k], o); continue; }
            printf("W %s %d %s %d %d %d %d %a %a %a %a %d\n", nm[k], o, w->base.short_name, w->complex_cwt, (int)w->base.orthogonal, (int)w->base.biorthogonal, is_discrete_wavelet(code[k]),
                   w->lower_bound, w->upper_bound, w->bandwidth_frequency, w->center_frequency, (int)w->fbsp_order);
            free_continuous_wavelet(w);
        }
    return 0;
}
'''


def table(deadline):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vf15_')
    try:
        open(d + '/d.c', 'w').write(DRIVER)
        cs = [os.path.join(lib.CDIR, x) for x in ('wavelets.c', 'common.c')]
        r = subprocess.run(['clang', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover', '-I' + lib.CDIR, 'd.c', *cs, '-lm', '-o', 'd'], cwd=d, capture_output=True, text=True, timeout=120)
        if r.returncode:
            return [lib.ob('continuous_wavelet: table', 'undecided', BE, 0, r.stderr[-300:])]
        r = subprocess.run(['./d'], cwd=d, capture_output=True, text=True, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [lib.ob('continuous_wavelet: every family and order 0 to 200 runs without memory error', 'proved' if r.returncode == 0 else 'refuted', BE, time.time() - t0, r.stderr[-300:])]
    got = {}
    for l in r.stdout.splitlines():
        p = l.split()
        got[p[1], int(p[2])] = None if p[0] == 'N' else (p[3], int(p[4]), int(p[7]), *[float.fromhex(x) for x in p[8:12]], int(p[12]))
    for f, (_, b, c, num) in FAM.items():
        bw, ce, M = DEFAULTS.get(f, (0.0, 0.0, 0))
        want = (f, c, 0, -float(b), float(b), bw, ce, M)
        os_ = range(1, 9) if num else [0]
        rep = [dict(t='psi', w=f + {1: '2'}.get(len(num), '') if f not in DEFAULTS else f + {'shan': '1.5-1.0', 'cmor': '1.5-1.0', 'fbsp': '2-1.5-1.0'}[f], dt='f8', level=5, length=None, b=None)]
        bad = [(o, got.get((f, o))) for o in os_ if got.get((f, o)) != want]
        res.append(lib.ob(f'continuous_wavelet: {f} has its name, complex flag, support and default parameters', 'proved' if not bad else 'refuted', BE, 0, str(bad[:2]) + f' expected {want}', rep))
        if num:
            bad = [o for o in range(9, 201) if got.get((f, o)) is not None]
            res.append(lib.ob(f'continuous_wavelet: {f} beyond order 8 is refused', 'proved' if not bad else 'refuted', BE, 0, str(bad[:3])))
    return res


# --------------------------------------------------------------- glue
class ContinuousWavelet(G.GCont):
    """what cwt_psi_single sees of the object (its accessors are verified below)"""
    def __init__(self, fam, number):
        e = V.CUR
        self.short_family_name, self.family_number = fam, number
        self.complex_cwt = fam in CPLX
        b, c, M = e.const_real('B'), e.const_real('C'), e.int('M', 1, 1 << 20)
        e.assume(z3.And(b.e > 0, c.e > 0))
        self.bandwidth_frequency, self.center_frequency, self.fbsp_order = (b, c, None) if fam in ('shan', 'cmor') else (b, c, M) if fam == 'fbsp' else (None, None, None)

    def __getattr__(self, n):
        raise Unsupported('ContinuousWavelet.' + n)


def params_of(w):
    f = w.short_family_name
    return {'gaus': lambda: [w.family_number], 'cgau': lambda: [w.family_number], 'shan': lambda: [w.bandwidth_frequency, w.center_frequency],
            'cmor': lambda: [w.bandwidth_frequency, w.center_frequency], 'fbsp': lambda: [w.fbsp_order, w.bandwidth_frequency, w.center_frequency]}.get(f, lambda: [])()


def psi_contract(x, w, n):
    """contract of cwt_psi_single: psi (or its two parts) at the points of x"""
    if bool(mkb(zi(n) < 1)):
        raise V.stub_exc(RuntimeError, 'length')
    f = w.short_family_name
    parts = ('re', 'im') if f in CPLX else ('re',)
    r = tuple(V.CUR.opaque(f'psi_{f}_{p}', params_of(w), [x], (n,), x.dtype) for p in parts)
    return r if len(r) == 2 else r[0]


def psi_c(fam):
    def f(dt, x, *a):
        k = 2 if fam in CPLX else 1
        outs, n, par = a[:k], a[k], list(a[k + 1:])
        c = V_C
        mx = c.buf(dt, x, n)
        ms = [c.buf(dt, o, n) for o in outs]
        G.oblige('C is not given overlapping buffers', len({id(m) for m in ms + [mx]}) == len(ms) + 1)
        G.oblige('every parameter of the wavelet is passed', len(par) == {'gaus': 1, 'cgau': 1, 'shan': 2, 'cmor': 2, 'fbsp': 3}.get(fam, 0))
        for p, m in zip(('re', 'im'), ms):
            c.out(m, V.CUR.opaque(f'psi_{fam}_{p}', par, [mx.arr], m.arr.shape, dt))
    return f


class CPsi(G.CWT):
    pass


V_C = CPsi()
for _f in FAM:
    setattr(CPsi, '_' + _f, staticmethod(psi_c(_f)))


def cwtm():
    return G.module('_cwt', c_wt=V_C)


class WStruct:
    """the C object"""
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        raise Unsupported('field ' + n)


def enum_codes():
    src = open(os.path.join(lib.CDIR, 'wavelets.h')).read()
    src = re.sub(r'/\*.*?\*/|//[^\n]*', '', src, flags=re.S)
    r = {}
    for body in re.findall(r'enum\s*\w*\s*\{(.*?)\}', src, re.S):
        v = -1
        for p in body.split(','):
            m = re.match(r'\s*(\w+)\s*(?:=\s*(-?\d+))?\s*$', p)
            if m:
                v = int(m.group(2)) if m.group(2) else v + 1
                r[m.group(1)] = v
    return r


class WaveletC:
    """wavelet.pxd: enums, and continuous_wavelet by the contract proved of the table"""
    def __init__(self):
        self.codes = enum_codes()
        self.freed = []

    def __getattr__(self, n):
        if n in self.codes:
            return self.codes[n]
        raise Unsupported('wavelet.' + n)

    def is_discrete_wavelet(self, c):
        d = [self.codes[k] for k in ('HAAR', 'RBIO', 'DB', 'SYM', 'COIF', 'BIOR', 'DMEY')]
        k = [self.codes[v[0]] for v in FAM.values()]
        return 1 if c in d else 0 if c in k else -1

    def continuous_wavelet(self, code, order):
        for f, (c, b, cp, num) in FAM.items():
            if self.codes[c] == code:
                break
        else:
            return G.NULL
        if num and order > 8:
            return G.NULL
        bw, ce, M = DEFAULTS.get(f, (0.0, 0.0, 0))
        return WStruct(complex_cwt=cp, lower_bound=-float(b), upper_bound=float(b), bandwidth_frequency=bw, center_frequency=ce, fbsp_order=M,
                       base=WStruct(short_name=f.encode(), family_name=f.encode(), orthogonal=0, biorthogonal=0, symmetry=0))

    def free_continuous_wavelet(self, w):
        self.freed.append(w)


class GNP15(G.GNP):
    def linspace(self, a, b, n, dtype=None):
        if bool(mkb(zi(n) < 0)):
            raise V.stub_exc(ValueError, 'Number of samples must be non-negative')
        for x in (n,):
            if isinstance(x, SInt) and bool(x >= 1 << 60):
                raise V.stub_exc(ValueError, 'Maximum allowed dimension exceeded')
        r = G.NA(G.Mem(V.CUR.opaque('linspace', [a, b, n], [], (n,), np.dtype(dtype or 'f8')), 'fresh'))
        r.mem.arr.contig = True
        return r

    def asarray(self, x, dtype=None):
        if isinstance(x, SArr):
            return x if dtype is None else x.astype(dtype, copy=False)
        return super().asarray(x, dtype)


def linspec(a, b, n, dt):
    return V.CUR.opaque('linspace', [a, b, n], [], (n,), np.dtype(dt))


def times_i(x):
    f, el = V.CUR.func('imaginary_unit_times', 1), x.elem()
    return SArr.fresh(x.shape, np.result_type(x.dtype, np.complex64), lambda idx: f(el(idx)))


def na_mul(self, o):
    if o == 1j and isinstance(o, complex):
        return G.NA(G.Mem(times_i(self.mem.arr), 'fresh'))
    raise Unsupported('product in the glue')


def na_add(self, o):
    if isinstance(o, G.NA):
        return G.NA(G.Mem(self.mem.arr + o.mem.arr, 'fresh'))
    raise Unsupported('sum in the glue')


class NA15(G.NA):
    pass


G.NA.__mul__ = G.NA.__rmul__ = na_mul
G.NA.__add__ = na_add


def g_cast(t, v):
    if t in G.RANGE and isinstance(v, float):
        if v != v or not G.RANGE[t][0] - 1 < v < G.RANGE[t][1]:
            V.CUR.ob('conversions of a float to an integer are defined', False, f'{v} to {t}')
            raise V.Prune()
        return int(v)
    if t in ('double', 'float') and isinstance(v, int):
        return float(v)
    if t.startswith('wavelet.'):
        return v
    if t in ('pywt_index_t',) and (v is None or isinstance(v, (str, list))):
        raise V.stub_exc(TypeError, 'an integer is required')
    return G.g_cast(t, v)


def powf(a, b):
    r = a ** b
    return r


def pywtm(**k):
    ns = G.module('_pywt', wavelet=WaveletC(), re=re, np=GNP15(), vf_cast=g_cast, pow=powf, cwt_psi_single=stub_psi, **enum_codes(), **k)
    return ns


def stub_psi(data, w, n):
    """the contract, with the preconditions of the glue"""
    if not isinstance(data, (G.MV, G.NA)):
        raise Unsupported('buffer')
    arr = data.arr if isinstance(data, G.MV) else data.mem.arr
    if bool(mkb(zi(n) < 0)):
        raise V.stub_exc(OverflowError, "can't convert negative value to size_t")
    if bool(mkb(zi(n) >= 1)):
        G.oblige('the output length is the number of grid points', G.eq(arr.shape[0], n))
    r = psi_contract(arr, w, n)
    wr = lambda x: G.NA(G.Mem(x, 'fresh'))
    return tuple(wr(x) for x in r) if isinstance(r, tuple) else wr(r)


def glue_tasks(T):
    def add(key, run, **k):
        T.append(task(key, run, FP, **k))
    for f in FAM:
        for dt in ('f8', 'f4'):
            def single(e, f=f, dt=dt):
                n = e.int('n', 0)
                e.assume(n.e < 1 << 57)
                x = e.input('x', (n,), dt)
                x.contig = True
                w = ContinuousWavelet(f, e.int('order', 1, 8) if FAM[f][3] else 0)
                nx = G.NA(G.Mem(x, 'input'))
                k, r = e.call(cwtm()['cwt_psi_single'], nx, w, n)
                w0 = list(e.input_writes)
                k2, s = e.call(psi_contract, x, w, n)
                e.ob('raises exactly when the contract does', k == k2, f'{k} {r!r} / {k2} {s!r}'[:300])
                e.ob('arguments are not written', not w0 and not nx.mem.written, str(w0))
                if k == k2 == 'ok':
                    compare(e, G.unwrap(r), s, 'psi is that of the family, its parameters and the grid')
                    ms = G.mems(r)
                    e.ob('results share no memory', len({id(m) for m in ms + [nx.mem]}) == len(ms) + 1, '')
            add(f'cwt_psi_single, {f}, {dt}', single)

            def wf(e, f=f, dt=dt, level=None, length=False):
                ns = pywtm()
                cls = ns['ContinuousWavelet']
                w = cls.__new__(cls)
                number = e.int('order', 1, 8) if FAM[f][3] else 0
                B, C, M = e.const_real('B'), e.const_real('C'), e.int('M', 1, 1 << 20)
                e.assume(z3.And(B.e > 0, C.e > 0))
                lo, hi = e.const_real('lo'), e.const_real('hi')
                w.w = WStruct(complex_cwt=int(f in CPLX), lower_bound=lo, upper_bound=hi, bandwidth_frequency=B, center_frequency=C, fbsp_order=M, base=WStruct(short_name=f.encode()))
                w.number, w.dt, w.name = number, np.dtype(dt), f
                e.ob('accessors give the parameters', w.bandwidth_frequency is B and w.center_frequency is C and w.fbsp_order is M and w.short_family_name == f
                     and w.family_number is number and w.complex_cwt == (f in CPLX), '')
                if length:
                    n = e.int('n')
                    e.assume(z3.And(n.e > -(1 << 57), n.e < 1 << 57))
                    k, r = e.call(w.wavefun, 8, n)
                    k_, r_ = e.call(w.wavefun, length=n)
                    e.ob('length takes precedence over the level', k == k_, '')
                    bad = bool(mkb(n.e < 1))
                elif level is None:
                    n, bad = 256, False
                    k, r = e.call(w.wavefun)
                else:
                    n = 2 ** level if level >= 0 else 0
                    bad = n < 1
                    k, r = e.call(w.wavefun, level)
                e.ob('refused exactly for an empty grid', (k == 'raise') == bad, f'{k} {r!r}'[:200])
                if k != 'ok' or bad:
                    return
                e.ob('psi and its grid', isinstance(r, list) and len(r) == 2, '')
                e.ob('results share no memory', len({id(m) for m in G.mems(r)}) == 2, '')
                x = linspec(lo, hi, n, dt)
                compare(e, G.unwrap(r[1]), x, 'the grid goes from the lower to the upper bound in equal steps')
                v = psi_contract(x, w, n)
                compare(e, G.unwrap(r[0]), v if not isinstance(v, tuple) else v[0] + times_i(v[1]), 'psi at every grid point, both parts')
                if length and k_ == 'ok':
                    compare(e, G.unwrap(r_[0]), G.unwrap(r[0]), 'same with the default level')
            for lv in (None, -1, 0, 1, 10):
                add(f'wavefun, {f}, {dt}, level {lv}', lambda e, wf=wf, lv=lv: wf(e, level=lv))
            add(f'wavefun, {f}, {dt}, any length', lambda e, wf=wf: wf(e, length=True))

    def ctor(e):
        ns = pywtm()
        cls = ns['ContinuousWavelet']

        def make(*a, **k):
            w = cls.__new__(cls)
            w.w = G.NULL
            w.__cinit__(*a, **k)
            return w
        names = [f'{f}{o}' for f in ('gaus', 'cgau') for o in range(1, 9)] + ['mexh', 'morl', 'shan', 'fbsp', 'cmor']
        for nm in names:
            for spell in (nm, nm.upper(), nm.capitalize()):
                for kw in ({}, {'dtype': np.float32}, {'dtype': np.float64}, {'dtype': np.dtype('f4')}):
                    k, w = e.call(make, spell, **kw)
                    f = nm[:4]
                    bw, ce, M = DEFAULTS.get(f, (0.0, 0.0, 0))
                    ok = k == 'ok' and w.short_family_name == f and (not FAM[f][3] or w.family_number == int(nm[4:])) and np.dtype(w.dt) == np.dtype(kw.get('dtype', 'f8')) \
                        and (w.lower_bound, w.upper_bound) == (-FAM[f][1], FAM[f][1]) and w.complex_cwt is (f in CPLX) and w.name == nm \
                        and (w.w.bandwidth_frequency, w.w.center_frequency, w.w.fbsp_order) == (bw, ce, M)
                    e.ob(f'ContinuousWavelet({nm!r}) is the wavelet of that name', ok, f'{spell} {kw} {k} {w!r}'[:200] if k != 'ok' else str(vars(w.w)))
        num = ['0.5', '1', '1.5', '2', '10', '0.25', '3.0', '100', '12.75', '1.0']
        for f in ('shan', 'cmor', 'fbsp'):
            for i, b in enumerate(num):
                for c in num:
                    M = (i % 6) + 1
                    nm = f'{f}{M}-{b}-{c}' if f == 'fbsp' else f'{f}{b}-{c}'
                    k, w = e.call(make, nm)
                    e.ob(f'{f}: parameters in the name are those of the wavelet', k == 'ok' and (w.bandwidth_frequency, w.center_frequency) == (float(b), float(c)) and w.w.fbsp_order == (M if f == 'fbsp' else 0)
                         and (w.lower_bound, w.upper_bound) == (-FAM[f][1], FAM[f][1]), f'{nm}: {k} ' + (str(vars(w.w)) if k == 'ok' else repr(w)[:100]))
        for nm in ('gaus0', 'gaus9', 'cgau9', 'gaus', 'cgau', 'db2', 'haar', 'foo', '', 'mor', 'cmor1.5', 'shan1', 'fbsp1-2', 'cmor1-2-3', 'shan1-2-3', 'fbsp0-1-1', 'fbsp1.5-1-1', 'fbsp1-1-1-1'):
            k, w = e.call(make, nm)
            e.ob(f'ContinuousWavelet({nm!r}) is refused', k == 'raise' and isinstance(w, ValueError), f'{k} {w!r}'[:100])
        for dt in ('f2', 'c16', 'i4', 'c8'):
            k, w = e.call(make, 'mexh', dtype=np.dtype(dt))
            e.ob(f'dtype {dt} is refused', k == 'raise' and isinstance(w, ValueError), f'{k} {w!r}'[:100])
        w = make('cmor1.5-1.0')
        w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency = -3.0, 4.0, 2.0, 0.5
        e.ob('bounds and frequencies can be set', (w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency) == (-3, 4, 2, .5), '')
        red = w.__reduce__()
        e.ob('pickling keeps name and dtype', red[0] is cls and red[1] == ('cmor1.5-1.0', w.dt), str(red))
    add('ContinuousWavelet: construction', ctor)


# --------------------------------------------------------------- numpy for integration and cwt
class FArr:
    """np.fft.fft(a, size): the transform of the lines of a, zero-padded to size"""
    __array_ufunc__ = None

    def __init__(self, a, size):
        self.a, self.size = a, size

    def __mul__(self, o):
        if not isinstance(o, FArr):
            raise Unsupported('product with a spectrum')
        return FProd(self, o)
    __rmul__ = __mul__

    def __getattr__(self, n):
        raise Unsupported('attribute of a spectrum: ' + n)


class FProd:
    __array_ufunc__ = None

    def __init__(self, p, q):
        self.p, self.q = p, q

    def __getattr__(self, n):
        raise Unsupported('attribute of a spectrum: ' + n)


def rvalid(e):
    """valid / not / cannot tell"""
    e = z3.simplify(V.zb(e))
    if z3.is_true(e) or z3.is_false(e):
        return z3.is_true(e)
    r = V.CUR.chk(z3.Not(e))
    if r == z3.unknown:
        raise Unsupported('nonlinear arithmetic')
    return r == z3.unsat


class RArr:
    """arange(n) * m"""
    __array_ufunc__ = None
    ndim = 1
    dtype = np.dtype(float)
    vf_take = None

    def __init__(self, n, m):
        self.n, self.m = n, m

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __mul__(self, o):
        return RArr(self.n, self.m * real(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return RArr(self.n, self.m / real(o))

    def astype(self, dt):
        if np.dtype(dt).kind not in 'iu':
            raise Unsupported('conversion of a grid')
        return floor_of(self)

    def __getattr__(self, n):
        raise Unsupported('attribute of a grid: ' + n)


def floor_of(r):
    G_ = V.CUR
    lst = G_.memo.setdefault('floors', [])
    for m, J in lst:
        if m.eq(r.m) or rvalid(m == r.m):
            break
    else:
        if not rvalid(r.m > 0):
            raise Unsupported('sign of the step')
        J = z3.Function(G_.fresh('sample'), z3.IntSort(), z3.IntSort())
        G_.assume(J(0) == 0)
        lst.append((r.m, J))
    return IArr(r.n, J)


class IArr:
    """indices J(0..n-1), J nondecreasing from 0"""
    __array_ufunc__ = None
    ndim = 1
    dtype = np.dtype(int)

    def __init__(self, n, J):
        self.n, self.J = n, J

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __len__(self):
        raise Unsupported('len')

    def astype(self, dt):
        return self

    def vf_take(self, a):
        if a.ndim != 1:
            raise Unsupported('sampling of a multidimensional array')
        n, J, size = zi(self.n), self.J, zi(a.shape[0])
        self.mono(z3.IntVal(0), n - 1)
        if bool(mkb(z3.And(n >= 1, J(n - 1) >= size))):
            raise IndexError('index out of bounds')
        el = a.elem()
        return SArr.fresh((self.n,), a.dtype, lambda idx: el([J(zi(idx[0]))]))

    def mono(self, a, b):
        V.CUR.assume(z3.Implies(z3.And(0 <= a, a <= b), z3.And(0 <= self.J(a), self.J(a) <= self.J(b))))

    def __getitem__(self, k):
        if isinstance(k, int) and k == -1:
            if bool(mkb(zi(self.n) < 1)):
                raise IndexError('index -1 is out of bounds')
            self.mono(z3.IntVal(0), zi(self.n) - 1)
            return SInt(self.J(zi(self.n) - 1))
        if isinstance(k, IMask):
            return extract(k, self)
        raise Unsupported('index of sampling positions')

    def __lt__(self, o):
        return IMask(self, o)

    def __le__(self, o):
        return IMask(self, o + 1)

    def __getattr__(self, n):
        raise Unsupported('attribute of sampling positions: ' + n)


class IMask:
    def __init__(self, j, size):
        self.j, self.size = j, size

    def __getattr__(self, n):
        raise Unsupported('attribute of a mask: ' + n)


def extract(m, j):
    if not isinstance(m, IMask) or m.j.J is not j.J or not V.CUR.valid(zi(m.j.n) == zi(j.n)):
        raise Unsupported('np.extract')
    lst = V.CUR.memo.setdefault('extract', [])
    for J, n, size, r in lst:
        if J is j.J and V.CUR.valid(z3.And(zi(n) == zi(j.n), zi(size) == zi(m.size))):
            return IArr(r, J)
    n, J, s = zi(j.n), j.J, zi(m.size)
    r = z3.Int(V.CUR.fresh('kept'))
    V.CUR.assume(z3.And(0 <= r, r <= n, z3.Implies(r >= 1, J(r - 1) < s), z3.Implies(r < n, J(r) >= s)))
    j.mono(r, n - 1)
    j.mono(z3.IntVal(0), r)
    lst.append((J, j.n, m.size, SInt(r)))
    return IArr(SInt(r), J)


def conv_line(a, k):
    """np.convolve of two lines"""
    n = zi(a.shape[0]) + zi(k.shape[0]) - 1
    dt = np.result_type(a.dtype, k.dtype)
    for p, args, f in V.CUR.opaques.get('convolve', []):
        if V.CUR.same(args[0], k) and V.CUR.same(args[1], a):
            a, k = k, a
            break
    return V.CUR.opaque('convolve', [], [a, k], (SInt(z3.simplify(n)),), dt)


class NP15(V.NP):
    class fft:
        @staticmethod
        def fft(a, n=None, axis=-1):
            if not isinstance(a, SArr) or axis not in (-1, a.ndim - 1):
                raise Unsupported('np.fft.fft')
            return FArr(a, a.shape[-1] if n is None else n)

        @staticmethod
        def ifft(p, n=None, axis=-1):
            if n is not None or axis != -1 or not isinstance(p, FProd):
                raise Unsupported('np.fft.ifft')
            a, k = (p.p.a, p.q.a)
            if a.ndim == 1 and k.ndim > 1:
                a, k = k, a
            s = p.p.size
            if not bool(mkb(zi(s) == zi(p.q.size))):
                raise ValueError('operands could not be broadcast together')
            need = zi(a.shape[-1]) + zi(k.shape[-1]) - 1
            e = V.CUR
            if bool(mkb(zi(s) < need)):
                f = z3.Function(e.fresh('circular'), *([z3.IntSort()] * a.ndim), V.RealS)
                return SArr.fresh(a.shape[:-1] + (s,), np.dtype('c16'), lambda idx: f(*[zi(i) for i in idx]))
            if k.ndim != 1:
                raise Unsupported('product of spectra')
            if a.ndim == 1:
                el = conv_line(a, k).elem()
                return SArr.fresh((s,), np.dtype('c16'), lambda idx: z3.If(idx[0] < need, el(idx), z3.RealVal(0)))
            if a.ndim != 2 or not isinstance(a.shape[0], int):
                raise Unsupported('spectrum of many lines')
            rows = [conv_line(a[r], k).elem() for r in range(a.shape[0])]

            def el2(idx):
                v = z3.RealVal(0)
                for r in range(len(rows) - 1, -1, -1):
                    v = z3.If(zi(idx[0]) == r, rows[r]([idx[1]]), v) if r < len(rows) - 1 else rows[r]([idx[1]])
                return z3.If(zi(idx[1]) < need, v, z3.RealVal(0))
            return SArr.fresh((a.shape[0], s), np.dtype('c16'), el2)

    def convolve(self, a, v, mode='full'):
        if mode != 'full' or not (isinstance(a, SArr) and isinstance(v, SArr) and a.ndim == v.ndim == 1):
            raise Unsupported('np.convolve')
        if bool(mkb(z3.Or(zi(a.shape[0]) < 1, zi(v.shape[0]) < 1))):
            raise V.stub_exc(ValueError, 'cannot be empty')
        return conv_line(a, v)

    def diff(self, a, n=1, axis=-1):
        if n != 1 or axis not in (-1, a.ndim - 1):
            raise Unsupported('np.diff')
        return a[..., 1:] - a[..., :-1]

    def conj(self, a):
        if a.dtype.kind != 'c':
            return a.copy()
        f, el = V.CUR.func('conjugate', 1), a.elem()
        return SArr.fresh(a.shape, a.dtype, lambda idx: f(el(idx)))
    conjugate = conj

    def sqrt(self, x):
        if isinstance(x, SReal):
            return SReal(V.CUR.func('sqrt', 1)(x.e))
        return super().sqrt(x)

    def arange(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], SReal) and not k:
            e, r = V.CUR, a[0].e
            lst = e.memo.setdefault('aranges', [])
            for x, n in lst:
                if x.eq(r) or rvalid(x == r):
                    return RArr(n, z3.RealVal(1))
            n = e.int(e.fresh('points'), 0)
            if not rvalid(r > 0):
                raise Unsupported('np.arange of an unknown sign')
            e.assume(z3.And(n.e >= 1, z3.ToReal(n.e) >= r, z3.ToReal(n.e) - 1 < r))
            lst.append((r, n))
            return RArr(n, z3.RealVal(1))
        return super().arange(*a, **k)

    def floor(self, x):
        if isinstance(x, RArr):
            return floor_of(x)
        raise Unsupported('np.floor')

    def extract(self, c, a):
        return extract(c, a)

    def size(self, x):
        return len(x.v) if isinstance(x, V.SVec) else super().size(x)

    def atleast_1d(self, x):
        if isinstance(x, (SReal, SInt)):
            return Scales([x])
        return super().atleast_1d(x)

    def array(self, x, *a, **k):
        if isinstance(x, (list, tuple)) and len(x) and all(isinstance(y, SReal) for y in x):
            return Scales(x)
        return super().array(x, *a, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, (list, tuple)) and len(x) and all(isinstance(y, SReal) for y in x):
            return Scales(x)
        if isinstance(x, Scales):
            return x
        return super().asarray(x, dtype, **k)

    def cumsum(self, x, axis=None):
        if isinstance(x, SArr):
            if x.ndim != 1:
                raise Unsupported('np.cumsum')
            return V.CUR.opaque('cumsum', [], [x], x.shape, x.dtype)
        return super().cumsum(x, axis)

    def argmax(self, x):
        if not isinstance(x, SArr) or x.ndim != 1:
            raise Unsupported('np.argmax')
        if bool(mkb(zi(x.shape[0]) < 1)):
            raise V.stub_exc(ValueError, 'empty')
        e = V.CUR
        lst = e.memo.setdefault('argmax', [])
        for y, r in lst:
            if e.same(x, y):
                return r
        r = e.int(e.fresh('argmax'), 0)
        e.assume(r.e < zi(x.shape[0]))
        lst.append((x, r))
        return r

    def abs(self, x):
        return V.CUR_abs(x)
    absolute = abs

    def real(self, x):
        return x.real


class Scales(V.SVec):
    dtype = np.dtype(float)

    def _z(self, o, f):
        if isinstance(o, (int, float, SReal)) and not isinstance(o, bool):
            return Scales([f(a, o) for a in self.v])
        if isinstance(o, Scales):
            return Scales([f(a, b) for a, b in zip(self.v, o.v)])
        return super()._z(o, f)

    def __truediv__(self, o):
        return self._z(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._z(o, lambda a, b: b / a)

    def __itruediv__(self, o):
        self.v = self._z(o, lambda a, b: a / b).v
        return self

    def astype(self, dt, copy=True):
        if np.dtype(dt).kind == 'f':
            return Scales(self.v)
        raise Unsupported('conversion of scales')


def arr_abs(x):
    if x.dtype.kind == 'c':
        f, el = V.CUR.func('modulus', 1), x.elem()
        return SArr.fresh(x.shape, np.dtype('f8'), lambda idx: f(el(idx)))
    return V.ew(lambda a: z3.If(a >= 0, a, -a), x)


SArr.__abs__ = arr_abs
V.CUR_abs = arr_abs


def re_part(self):
    if self.dtype.kind != 'c':
        return self
    f, el = V.CUR.func('real_part', 1), self.elem()
    return SArr.fresh(self.shape, np.dtype('f4') if self.dtype == np.complex64 else np.dtype('f8'), lambda idx: f(el(idx)))


SArr.real = property(re_part)


def _const_real(self, name):
    return SReal(z3.Real(name))


Engine.const_real = _const_real


class CW15(S.ContinuousWavelet):
    def __init__(self, cplx, name='cw'):
        self.complex_cwt, self.name = cplx, name

    def __getattr__(self, n):
        raise Unsupported('ContinuousWavelet.' + n)


class _FloatType(type):
    """stands for the type float: a symbolic number stays itself"""
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SReal))

    def __eq__(cls, o):
        return o is float or o is s_float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0, *a):
        if isinstance(x, (SInt, SReal)):
            return SReal(real(x))
        if isinstance(x, SArr) and x.ndim == 0:
            return SReal(x.at([]))
        return float(x, *a)


class s_float(metaclass=_FloatType):
    pass


FN1 = ['pywt/_functions.py: integrate_wavelet, _integrate, central_frequency, scale2frequency, frequency2scale']


def fft1(x):
    return V.CUR.opaque('fft', [], [x], x.shape, np.dtype('c16'))


def fmod(**k):
    def dcw(name):
        V.CUR.memo.setdefault('named', []).append(name)
        return V.CUR.memo['wavelet by name']
    return V.load('pywt/_functions.py', S.stubs('Wavelet', **{**dict(float=s_float, ContinuousWavelet=S.ContinuousWavelet, DiscreteContinuousWavelet=dcw, warnings=V.Warn(), fft=fft1, np=NP15()), **k}))


class FW(S.ContinuousWavelet):
    """a wavelet whose wavefun gives these arrays"""
    def __init__(self, k, e, dt):
        n = e.int('n', 2)
        self.n = n
        self.arrs = [e.input(f'f{i}', (n,), dt) for i in range(k - 1)] + [e.input('x', (n,), 'f8')]
        x = self.arrs[-1].elem()
        e.assume(z3.And(x([zi(n) - 1]) > x([z3.IntVal(0)]), x([z3.IntVal(1)]) > x([z3.IntVal(0)])))
        self.levels = []

    def wavefun(self, level=8):
        self.levels.append(level)
        return list(self.arrs)

    def __getattr__(self, n):
        raise Unsupported('attribute of a wavelet: ' + n)


def func_tasks(T):
    def add(key, run, **k):
        T.append(task(key, run, FN1, timeout=10000, **k))
    for k in (2, 3, 5):
        for dt in ('f8', 'c16', 'f4'):
            if k > 2 and dt != 'f8':
                continue
            for how in ('object', 'name', 'default precision'):
                def integ(e, k=k, dt=dt, how=how):
                    w = FW(k, e, dt)
                    e.memo['wavelet by name'] = w
                    p = e.int('precision', 0)
                    a = (w if how != 'name' else 'name',) + ((p,) if how != 'default precision' else ())
                    st, r = e.call(fmod()['integrate_wavelet'], *a)
                    e.ob('succeeds', st == 'ok', repr(r)[:200])
                    e.ob('wavelet function at the requested precision', len(w.levels) == 1 and (w.levels[0] is p or w.levels[0] == 8 and how == 'default precision'), str(w.levels))
                    e.ob('arguments are not written', not e.input_writes, str(e.input_writes))
                    if st != 'ok':
                        return
                    ps = {2: [0], 3: [1], 5: [1, 3]}[k]
                    r = list(r)
                    e.ob('one integral for each wavelet function, and the grid', len(r) == len(ps) + 1, str(len(r)))
                    if len(r) != len(ps) + 1:
                        return
                    x = w.arrs[-1]
                    step = x[1] - x[0]
                    for g, i in zip(r, ps):
                        c = e.opaque('cumsum', [], [w.arrs[i]], w.arrs[i].shape, w.arrs[i].dtype)
                        e.require_same('the integral is the running sum of psi times the step of the grid', g, c * step, dtype=dt != 'f4')
                        e.ob('the integral shares no memory with psi', g.buf.origin == 'fresh', '')
                    e.require_same('the grid is returned', r[-1], x)
                add(f'integrate_wavelet, {k} functions, {dt}, {how}', integ)

                def cf(e, k=k, dt=dt, how=how):
                    w = FW(k, e, dt)
                    e.memo['wavelet by name'] = w
                    p = e.int('precision', 0)
                    a = (w if how != 'name' else 'name',) + ((p,) if how != 'default precision' else ())
                    st, r = e.call(fmod()['central_frequency'], *a)
                    e.ob('succeeds', st == 'ok', repr(r)[:200])
                    e.ob('wavelet function at the requested precision', len(w.levels) == 1 and (w.levels[0] is p or w.levels[0] == 8 and how == 'default precision'), str(w.levels))
                    if st != 'ok':
                        return
                    x, psi = w.arrs[-1], w.arrs[0 if k == 2 else 1]
                    lst = e.memo.get('argmax', [])
                    F = arr_abs(fft1(psi))[1:]
                    e.ob('one spectrum, of psi without its mean, is searched', len(lst) == 1 and e.same(lst[0][0], F), '')
                    if len(lst) != 1:
                        return
                    n, b = zi(w.n), lst[0][1].e + 1
                    D = real(x[-1] - x[0])
                    R = real(r)
                    kk = z3.If(2 * b <= n, b, n - b)
                    # the frequency times the domain is the number of the dominant bin, folded to at most half (b is at most one off in the middle of an odd grid)
                    ok = z3.Or(R == z3.ToReal(kk) / D, z3.And(n % 2 == 1, z3.Or(2 * b == n - 1, 2 * b == n + 1), z3.Or(R == z3.ToReal(b) / D, R == z3.ToReal(n - b) / D)))
                    e.require('the frequency is that of the dominant bin of the spectrum over the length of the grid', ok, '')
                add(f'central_frequency, {k} functions, {dt}, {how}', cf)

    for nm in ('scale2frequency', 'frequency2scale'):
        for vec in (0, 2):
            for dp in (False, True):
                def sf(e, nm=nm, vec=vec, dp=dp):
                    calls = []
                    c = e.const_real('cf')
                    e.assume(c.e > 0)

                    def central(w, precision=8):
                        calls.append((w, precision))
                        return c
                    p = e.int('precision', 0)
                    s = [e.const_real(f's{i}') for i in range(vec or 1)]
                    for x in s:
                        e.assume(x.e > 0)
                    a = Scales(s) if vec else s[0]
                    st, r = e.call(fmod(central_frequency=central)[nm], 'w', a, *([] if dp else [p]))
                    e.ob('succeeds', st == 'ok', repr(r)[:200])
                    if st != 'ok':
                        return
                    e.ob('central frequency of this wavelet at this precision', len(calls) == 1 and calls[0][0] == 'w' and (calls[0][1] is p or dp and calls[0][1] == 8), str(calls))
                    rs = r.v if vec else [r]
                    e.require('central frequency divided by the argument', z3.And([real(x) == c.e / y.e for x, y in zip(rs, s)]))
                add(f'{nm}, {vec or "scalar"}, {"default precision" if dp else "any precision"}', sf)


FN2 = ['pywt/_cwt.py: cwt, next_fast_len']
_nfl = z3.Function('next_fast_len', z3.IntSort(), z3.IntSort())


def next_fast(n):
    V.CUR.assume(_nfl(zi(n)) >= zi(n))
    return SInt(_nfl(zi(n)))


def cwt_tasks(T, tier):
    def load(**k):
        return V.load('pywt/_cwt.py', {**dict(float=s_float, np=NP15(), ceil=math.ceil, floor=math.floor, ContinuousWavelet=S.ContinuousWavelet, Wavelet=S.Wavelet, AxisError=np.exceptions.AxisError,
                                              _check_dtype=S.check_dtype), **k})

    def run(e, shape, axis, dt, cplx, method, ns, named, default):
        w = CW15(cplx)
        N = e.int('N', 1)
        sh = tuple(N if s is None else s for s in shape)
        data = e.input('data', sh, dt)
        scales = [e.const_real(f's{i}') for i in range(ns or 1)]
        pos = bool(mkb(z3.And([s.e > 0 for s in scales])))
        arg = Scales(scales) if ns else scales[0]
        per = e.const_real('period')
        e.assume(per.e > 0)
        cf = e.const_real('cf')
        e.assume(cf.e > 0)
        n = e.int('npsi', 2)
        P = e.input('integral of psi', (n,), 'c16' if cplx else 'f8')
        X = e.input('grid', (n,), 'f8')
        xe = X.elem()
        x0, x1, xn = xe([z3.IntVal(0)]), xe([z3.IntVal(1)]), xe([zi(n) - 1])
        e.assume(z3.And(x1 > x0, xn >= x1))
        log = []

        def integ(wv, precision=8):
            log.append(('integral', wv, precision))
            return P, X

        def s2f(wv, s, precision=8):
            log.append(('frequency', wv, precision))
            return Scales([cf / x for x in s.v]) if isinstance(s, V.SVec) else cf / s

        def dcw(name):
            log.append(('name', name))
            return w
        m = load(integrate_wavelet=integ, scale2frequency=s2f, DiscreteContinuousWavelet=dcw, next_fast_len=next_fast)
        kw = {}
        if not default:
            kw = dict(sampling_period=per, method=method, axis=axis)
        k, r = e.call(m['cwt'], data, arg, 'name' if named else w, **kw)
        w0 = list(e.input_writes)
        e.ob('arguments are not written', not w0, str(w0))
        if not pos:
            e.ob('scales that are not positive are refused', k == 'raise' and isinstance(r, ValueError), f'{k} {r!r}'[:100])
            return
        e.ob('the integral and the frequencies are those of this wavelet at precision 10', [l for l in log if l[0] != 'name'][:1] == [('integral', w, 10)] and
             all(l[1] is w and l[2] == 10 for l in log if l[0] != 'name') and (not named or ('name', 'name') in log), str(log))
        # specification
        np_ = NP15()
        nd = len(sh)
        ax = axis % nd
        rd = S.rule(dt)
        out_dt = np.result_type(rd, np.complex64) if cplx else rd
        psi = np_.conj(P) if cplx else P
        line = np_.moveaxis(SArr.fresh(sh, rd, data.elem()), ax, -1) if nd > 1 else SArr.fresh(sh, rd, data.elem())
        import itertools
        rows = []
        small = False
        for s in scales:
            J = np_.arange(SReal(s.e * (xn - x0) + 1)) / SReal(s.e * (x1 - x0))
            J = J.astype(int)
            J[-1]
            J = extract(IMask(J, n), J)
            pe = psi.elem()
            nk = zi(J.n)
            if bool(mkb(nk < 1)):
                raise Unsupported('no sample of psi')
            ker = SArr.fresh((J.n,), psi.dtype, lambda idx, J=J, nk=nk: pe([J.J(nk - 1 - zi(idx[0]))]))
            if bool(mkb(nk == 1)):
                small = True
                break
            els = {}
            L = zi(N) + nk - 1
            q = (L - 1 - zi(N)) / 2                       # floor of half the excess
            sq = np_.sqrt(s).e
            for lead in itertools.product(*[range(v) for v in line.shape[:-1]]):
                c = conv_line(line[lead] if lead else line, ker).elem()
                els[lead] = lambda i, c=c, sq=sq, q=q: -sq * (c([q + i + 1]) - c([q + i]))
            rows.append(els)
        if small:
            e.ob('a scale too small for a difference is refused', k == 'raise' and isinstance(r, ValueError), f'{k} {r!r}'[:150])
            return
        e.ob('succeeds', k == 'ok', f'{r!r}'[:200])
        if k != 'ok':
            return
        e.ob('coefficients and frequencies', isinstance(r, tuple) and len(r) == 2, '')
        c, fr = r
        e.ob('one row per scale, of the shape of the data', isinstance(c, SArr) and c.ndim == nd + 1 and c.shape[0] == len(scales) and all(V.CUR.valid(zi(p) == zi(q_)) for p, q_ in zip(c.shape[1:], sh)), repr(c))
        e.ob('dtype is complex exactly for a complex wavelet or complex data', c.dtype == out_dt, str(c.dtype))
        e.ob('coefficients are a new array', c.buf.origin == 'fresh', '')
        ce = c.elem()
        i = z3.Int('position')
        # real_part where a complex result is stored in a real array: never for a real wavelet and real data by fft
        for j, els in enumerate(rows):
            for lead, f in els.items():
                idx = list(lead[:ax]) + [i] + list(lead[ax:])
                got = ce([z3.IntVal(j)] + [zi(v) for v in idx])
                want = f(i)
                rp = V.CUR.func('real_part', 1)
                if out_dt.kind != 'c' and method == 'fft':
                    # the values are real: real_part of a real value is the value
                    want_ = [want, rp(want)]
                else:
                    want_ = [want]
                if out_dt.kind != 'c':
                    want_ = [want, rp(want)]
                e.require('every coefficient is -sqrt(scale) times the difference of the convolution of its line with the resampled integral, centred',
                          z3.Implies(z3.And(i >= 0, i < zi(N)), z3.Or([got == v for v in want_])), f'scale {j}, line {lead}')
        fs = fr.v if isinstance(fr, V.SVec) else None
        e.ob('one frequency for each scale', fs is not None and len(fs) == len(scales), repr(fr)[:100])
        if fs is not None and len(fs) == len(scales):
            e.require('frequencies are central frequency / scale / sampling period', z3.And([real(f) == cf.e / s.e / (1 if default else per.e) for f, s in zip(fs, scales)]))

    cases = []
    for method in ('conv', 'fft'):
        for cplx in (False, True):
            for dt in ('f8', 'f4', 'c16', 'c8', 'i4', 'f2'):
                cases.append(((None,), 0, dt, cplx, method, 1, False, False))
            cases += [((None,), -1, 'f8', cplx, method, 2, True, False), ((None,), 0, 'f8', cplx, method, 0, False, False)]
            for sh, ax in (((2, None), 1), ((2, None), -1), ((None, 2), 0), ((None, 2), -2), ((3, None), -1), ((1, None), 1), ((2, 2, None), 2), ((2, None, 2), 1), ((None, 2, 1), 0), ((2, None, 3), -2), ((1, 2, None), -1)):
                cases.append((sh, ax, 'f8', cplx, method, 1, False, False))
            cases += [((2, None), 1, 'c16', cplx, method, 1, False, False), ((None, 2), 0, 'f4', cplx, method, 2, True, False)]
    cases += [((None,), -1, 'f8', False, 'conv', 1, False, True), ((2, None), -1, 'f8', True, 'conv', 2, True, True)]
    for c in cases:
        sh, ax, dt, cplx, me, ns, named, df = c
        key = f'cwt, shape {"x".join("N" if s is None else str(s) for s in sh)}, axis {ax}, {dt}, {"complex" if cplx else "real"} wavelet, {me}, ' + \
              (f'{ns} scales' if ns else 'scalar scale') + (', by name' if named else '') + (', defaults' if df else '')
        T.append(task(key, lambda e, c=c: run(e, *c), FN2, timeout=10000, cost=2 + len(sh)))

    def refuse(e):
        w = CW15(False)
        data = e.input('data', (e.int('N', 1),), 'f8')
        m = load(integrate_wavelet=lambda *a, **k: (e.input('P', (4,), 'f8'), e.input('X', (4,), 'f8')), scale2frequency=None, DiscreteContinuousWavelet=None, next_fast_len=next_fast)
        s = e.const_real('s')
        e.assume(s.e > 0)
        k, r = e.call(m['cwt'], data, Scales([s]), w, 1., 'other')
        e.ob('an unknown method is refused', k == 'raise' and isinstance(r, ValueError), f'{k} {r!r}'[:100])
        k, r = e.call(m['cwt'], data, Scales([s]), w, axis=(0,))
        e.ob('several axes are refused', k == 'raise', f'{k} {r!r}'[:100])
    T.append(task('cwt, refusals', refuse, FN2))

    def nfl(deadline):
        t0 = time.time()
        import numpy
        try:
            f = V.load('pywt/_cwt.py', dict(np=numpy, ceil=math.ceil, floor=math.floor), only=None)['next_fast_len']
            bad = []
            for k in range(0, 41):
                for n in {1 << k, (1 << k) - 1, (1 << k) + 1} - {0}:
                    r = f(n)
                    if not (int(r) == r and n <= r < 2 * n or n == 1 and r == 1):
                        bad.append((n, r))
            st = 'proved' if not bad else 'refuted'
        except BaseException as ex:
            st, bad = 'undecided', repr(ex)
        return [lib.ob('next_fast_len: at least n, at every power of two up to 2^40 and its neighbours (np.log2 is nondecreasing)', st, 'evaluation at the steps of a step function', time.time() - t0, str(bad)[:200])]
    T.append(lib.Task('next_fast_len', nfl, 1, FN2))


def tasks_C15(tier='quick'):
    T = [lib.Task('table of continuous wavelets', table, 5, TFN)]
    glue_tasks(T)
    func_tasks(T)
    cwt_tasks(T, tier)
    return T


if __name__ == '__main__':
    go(tasks_C15)
