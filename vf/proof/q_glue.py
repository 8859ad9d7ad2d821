"""The compiled glue meets the contracts its Python callers are verified against (pyspec), for every extent, content, wavelet and mode; the C functions are
the contracts proved in E1.  In particular: lengths, pointers, strides, instances and output buffers passed to C are the right ones."""
from pylib import *
import glue as G
D4 = ['f8', 'f4', 'c16', 'c8']
BIG = G.BIG
zi = V.zi


def small(e, *xs):
    for x in xs:
        if isinstance(x, SInt):
            e.assume(x.e < BIG)
    return xs[0] if len(xs) == 1 else xs


def wv(e, name='w'):
    w = S.Wavelet(name)
    small(e, w.dec_len)
    return w


def shp(e, nd, pre='N', lo=0):
    s = sizes(e, nd, pre, lo)
    for n in s:
        small(e, n)
    return s


def inp1(e, name, n, dt):
    a = e.input(name, (n,), dt)
    a.contig = True
    return a


GLUE_TRUST = ['rendering of the .pyx text from Cython 3.0 parse tree as Python (vf/proof/decython.py); Cython-generated conversions as modelled in vf/proof/glue.py',
              'contracts of the C functions (vf/proof/glue.py, CWT): those proved under C01, C02, C04 and C07 for 1-D lines; the axis functions of wt.template.c, which walk the lines, are trusted here and run by the bounded part']
GLUE_ASSUME = ['extents and filter lengths below 2^57 in the compiled glue; ranks 1 to 3 and levels up to 3 enumerated there']


# --------------------------------------------------------------- contracts of upcoef and downcoef
def downcoef(do_a, data, wav, mode, level):
    if bool(level < 1):
        raise V.stub_exc(ValueError, 'level')
    a = data
    for i in range(level):
        n = a.shape[0]
        if bool(n < 1):
            raise V.stub_exc(RuntimeError, 'length')
        if bool(V.mkb(z3.And(zi(n) == 1, z3.Or(zi(mode) == S.REFLECT, zi(mode) == S.ANTIREFLECT)))):
            raise V.stub_exc(ValueError, 'one sample')
        last = i == level - 1
        a = V.CUR.opaque('dwt_a' if do_a or not last else 'dwt_d', (wav, mode, 0), [a], (S.coeff_len(n, wav.dec_len, mode),), a.dtype)
    return a


def upcoef(do_a, coeffs, wav, level, take):
    if bool(level < 1):
        raise V.stub_exc(ValueError, 'level')
    a = coeffs
    for i in range(level):
        n = a.shape[0]
        if bool(n < 1):
            raise V.stub_exc(RuntimeError, 'length')
        a = V.CUR.opaque('rec_a' if do_a or i else 'rec_d', (wav,), [a], (2 * n + wav.rec_len - 2,), a.dtype)
    n = a.shape[0]
    if bool(V.mkb(z3.And(zi(take) > 0, zi(take) < zi(n)))):
        lo = (n - take) // 2
        a = a[lo:lo + take]
    return a


def swt1(data, wav, level, start, trim=False):
    return S.swt_axis(data, wav, level, start, 0, trim)


def coeff_len(n, F, mode):
    if bool(V.mkb(z3.Or(zi(n) < 0, zi(F) < 0, zi(n) >= 1 << 64, zi(F) >= 1 << 64))):
        raise V.stub_exc(OverflowError, 'range')
    if bool(V.mkb(z3.Or(zi(n) < 1, zi(F) < 1))):
        raise V.stub_exc(ValueError, 'length')
    return S.coeff_len(n, F, mode)


def max_level(n, F):
    if bool(V.mkb(z3.Or(zi(n) < 0, zi(F) < 0, zi(n) >= 1 << 64, zi(F) >= 1 << 64))):
        raise V.stub_exc(OverflowError, 'range')
    return S.dwt_max_level(n, F)


def swt_max(n):
    if bool(V.mkb(z3.Or(zi(n) < 0, zi(n) >= 1 << 64))):
        raise V.stub_exc(OverflowError, 'range')
    if bool(n < 1):
        raise V.stub_exc(ValueError, 'empty')
    return S.swt_max_level(n)


def idwt_single(cA, cD, wavelet, mode):
    if not bool(cA.size == cD.size):
        raise V.stub_exc(ValueError, 'size')
    if cA.dtype != cD.dtype:
        raise V.stub_exc(ValueError, 'dtype')
    n = S.rec_len(cA.shape[0], wavelet.rec_len, mode)
    if bool(n < 1):
        raise V.stub_exc(ValueError, 'too few coefficients for this wavelet')
    return S.IDWT(cA, cD, wavelet, mode, 0, lemma=False)


def idwt_axis(a, d, wavelet, mode, axis=0):
    r = S.idwt_axis(a, d, wavelet, mode, axis)
    return r


_mods = {}


def dwtm():
    return G.module('_dwt')


def swtm():
    return G.module('_swt', Wavelet=S.Wavelet)


def sel(*names):
    return lambda key: any(n in key for n in names)


def tasks_glue(tier='quick', only=None):
    T = []

    def add(fn, key, run, **k):
        if only is None or fn in only:
            T.append(task(f'{fn} (compiled glue), {key}', run, [f'pywt/_extensions/{"_swt" if "swt" in fn else "_dwt"}.pyx: {fn}'], **k))

    def lens(e):
        n, F = e.int('n'), e.int('F')
        G.meets(e, dwtm()['dwt_coeff_len'], coeff_len, (n, F, sym_mode(e)))

    def lens2(e):
        n, F = e.int('n'), e.int('F')
        e.assume(z3.And(n.e < 1 << 62, F.e < 1 << 62))
        G.meets(e, dwtm()['dwt_max_level'], max_level, (n, F))
    add('dwt_coeff_len', 'any lengths', lambda e: lens(e))
    add('dwt_max_level', 'any lengths', lambda e: lens2(e))
    add('swt_max_level', 'any length', lambda e: G.meets(e, swtm()['swt_max_level'], swt_max, (e.int('n'),)))
    for dt in D4:
        def single(e, dt=dt):
            G.meets(e, dwtm()['dwt_single'], lambda x, w, m: S.dwt_axis(x, w, m, 0), (inp1(e, 'x', shp(e, 1)[0], dt), wv(e), sym_mode(e)))
        add('dwt_single', dt, single)

        def isingle(e, dt=dt, d2=None):
            n, m = shp(e, 1)[0], shp(e, 1, 'M')[0]
            e.assume(n.e >= 1)
            G.meets(e, dwtm()['idwt_single'], idwt_single, (inp1(e, 'a', n, dt), inp1(e, 'd', m, d2 or dt), wv(e), sym_mode(e)))
        add('idwt_single', dt, isingle)
        add('idwt_single', f'{dt}, {D4[D4.index(dt) - 1]}', lambda e, dt=dt: isingle(e, dt, D4[D4.index(dt) - 1]))
        for lv in (0, 1, 2, 3):
            for do_a in (True, False):
                def down(e, dt=dt, lv=lv, do_a=do_a):
                    G.meets(e, dwtm()['downcoef'], downcoef, (do_a, inp1(e, 'x', shp(e, 1)[0], dt), wv(e), sym_mode(e), lv))

                def up(e, dt=dt, lv=lv, do_a=do_a):
                    n = shp(e, 1)[0]
                    e.assume(n.e < BIG // 16)
                    t = e.int('take', 0)
                    small(e, t)
                    G.meets(e, dwtm()['upcoef'], upcoef, (do_a, inp1(e, 'x', n, dt), wv(e), lv, t))
                add('downcoef', f'{dt}, level {lv}, {"approximation" if do_a else "detail"}', down)
                add('upcoef', f'{dt}, level {lv}, {"approximation" if do_a else "detail"}', up)
        for lv, st in ((0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2)):
            for trim in (False, True):
                def sw(e, dt=dt, lv=lv, st=st, trim=trim):
                    G.meets(e, swtm()['swt'], swt1, (inp1(e, 'x', shp(e, 1)[0], dt), wv(e), lv, st, trim))
                add('swt', f'{dt}, level {lv}, start level {st}' + (', trimmed' if trim else ''), sw)
    for dt in D4:
        def swl(e, dt=dt):
            l, s = e.int('level', 0, (1 << 64) - 1), e.int('start', 0, (1 << 64) - 1)
            n = shp(e, 1, lo=1)[0]
            e.assume(l.e + s.e > S._sml(n.e))
            G.meets(e, swtm()['swt'], swt1, (inp1(e, 'x', n, dt), wv(e), l, s, False))

        def swal(e, dt=dt):
            l, s = e.int('level', 0, (1 << 64) - 1), e.int('start', 0, (1 << 64) - 1)
            sh = shp(e, 2, lo=1)
            e.assume(l.e + s.e > S._sml(sh[1].e))
            G.meets(e, swtm()['swt_axis'], S.swt_axis, (e.input('x', sh, dt), wv(e), l, s, 1, False))
        add('swt', f'{dt}, any level beyond what the length allows', swl)
        add('swt_axis', f'{dt}, any level beyond what the length allows', swal)
    DX = D4 + ['f2', 'i4', '>f8', '>c8', '?']
    for nd in (1, 2, 3):
        for ax in range(nd + 1):
            for dt in (DX if nd == 2 else D4):
                def axis(e, nd=nd, ax=ax, dt=dt):
                    G.meets(e, dwtm()['dwt_axis'], S.dwt_axis, (e.input('x', shp(e, nd), dt), wv(e), sym_mode(e), ax))
                add('dwt_axis', f'rank {nd}, axis {ax}, {dt}', axis)
                for which in ('ad', 'a', 'd'):
                    def iaxis(e, nd=nd, ax=ax, dt=dt, which=which):
                        sh = shp(e, nd)
                        a = e.input('a', sh, dt) if 'a' in which else None
                        d = e.input('d', shp(e, nd, 'M') if which == 'ad' else sh, dt) if 'd' in which else None
                        G.meets(e, dwtm()['idwt_axis'], idwt_axis, (a, d, wv(e), sym_mode(e), ax))
                    add('idwt_axis', f'rank {nd}, axis {ax}, {dt}, bands {which}', iaxis, cost=2)
            for dt in D4:
                if ax == nd:
                    continue
                for lv, st in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1)):
                    for trim in (False, True):
                        def swa(e, nd=nd, ax=ax, dt=dt, lv=lv, st=st, trim=trim):
                            G.meets(e, swtm()['swt_axis'], S.swt_axis, (e.input('x', shp(e, nd), dt), wv(e), lv, st, ax, trim))
                        add('swt_axis', f'rank {nd}, axis {ax}, {dt}, level {lv}, start level {st}' + (', trimmed' if trim else ''), swa)
    for p, q in (('f8', 'f4'), ('f4', 'f8'), ('c8', 'c16'), ('c16', 'c8'), ('f4', 'c8'), ('c8', 'f4'), ('f4', 'c16'), ('i4', 'f4'), ('f2', 'f8')):
        def mix(e, p=p, q=q):
            sh = shp(e, 2, lo=1)
            G.meets(e, dwtm()['idwt_axis'], mixed, (e.input('a', sh, p), e.input('d', sh, q), wv(e), sym_mode(e), 1))
        add('idwt_axis', f'bands of types {p} and {q}', mix)

    def ranks(e):
        G.meets(e, dwtm()['idwt_axis'], S.idwt_axis, (e.input('a', shp(e, 2, lo=1), 'f8'), e.input('d', shp(e, 1, 'M', lo=1), 'f8'), wv(e), sym_mode(e), 0))
    add('idwt_axis', 'bands of different rank', ranks)
    add('idwt_axis', 'no bands', lambda e: G.meets(e, dwtm()['idwt_axis'], S.idwt_axis, (None, None, wv(e), sym_mode(e), 0)))
    return T


def mixed(a, d, w, m, ax):
    """bands of types of different sizes: both in the larger"""
    ra, rd = S.rule(a.dtype), S.rule(d.dtype)
    dt = ra if ra.itemsize >= rd.itemsize else rd
    return S.idwt_axis(a.astype(dt), d.astype(dt), w, m, ax)


if __name__ == '__main__':
    go(tasks_glue)
