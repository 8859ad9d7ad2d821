"""dtype rule and complex linearity of every transform"""
import itertools, random, warnings
import numpy as np
from . import core, ref
from .b_C16 import leaves

F1 = ['dwt', 'downcoef', 'pad', 'dwt2', 'dwtn', 'swt', 'swt2', 'swtn', 'wavedec', 'wavedec2', 'wavedecn', 'fswavedecn', 'mra', 'mra2', 'mran', 'cwt', 'wp', 'wp2', 'wpn']
F2 = ['idwt', 'idwt2', 'idwtn', 'upcoef', 'iswt', 'iswt2', 'iswtn', 'waverec', 'waverec2', 'waverecn', 'fswaverecn']
DTS = ['f2', 'f4', 'f8', 'g', 'c8', 'c16', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '?']
SW = ['f2', 'f4', 'f8', 'c8', 'c16', 'i2', 'i4', 'i8', 'u4']


def res(d):
    d = np.dtype(d).newbyteorder('=')
    return {'float16': 'f4', 'float32': 'f4', 'complex64': 'c8', 'complex128': 'c16'}.get(d.name, 'f8')


def cases(tier, rng):
    k = 0
    for rep in range(24 if tier == 'quick' else 200):
        for f in F1:
            for d in DTS + ['>' + s for s in SW]:
                if f == 'pad' and d in ('?', 'u1', 'u2', 'u4', 'u8', '>u4', 'g', 'i1'):
                    continue
                k += 1
                yield dict(f=f, d=[d], seed=rng.randrange(1 << 30))
    for rep in range(1 if tier == 'quick' else 6):
        for f in F2:
            for d in itertools.product(['f2', 'f4', 'f8', 'c8', 'c16', 'i4', 'u1', '>f4', '>c16', '>i2'], repeat=2):
                yield dict(f=f, d=list(d), seed=rng.randrange(1 << 30))


def promote(ds):
    return np.result_type(*[np.dtype(res(d)) for d in ds])


def mk(shape, d, rng):
    lim = 9
    t = np.dtype(d)
    a = np.array([rng.randrange(0 if t.kind in 'ub' else -lim, lim + 1) for _ in range(int(np.prod(shape)))], float).reshape(shape)
    if t.kind == 'c':
        a = a + 1j * np.array([rng.randrange(-lim, lim + 1) for _ in range(a.size)]).reshape(shape)
    return a.astype(t)


def same(f, got, re, im, dt, tol, ex_dtype=True):
    G, R, I = list(leaves(got)), list(leaves(re)), list(leaves(im)) if im is not None else None
    if len(G) != len(R) or not G:
        return f'{f}: structure differs'
    # cancellation: errors are relative to the largest entry of the whole result
    big = max([float(np.max(np.abs(v))) for _, v in R + (I or []) if v.size] or [0.0])
    for k, (p, a) in enumerate(G):
        want = R[k][1].astype(complex) + 1j * I[k][1] if I else R[k][1]
        tol_ = tol * max(1.0, big / (1.0 + float(np.max(np.abs(want)))) if want.size else 1.0)
        e = core.diff(a, want, tol_, f'{f}{p}', dt)
        if e:
            return e
    return None


def run(c):
    import pywt
    warnings.simplefilter('ignore')
    rng = random.Random(c['seed'])
    f = c['f']
    nd = rng.choice([1, 2, 2, 3])
    if f in ('dwt2', 'idwt2', 'swt2', 'iswt2', 'wavedec2', 'waverec2', 'mra2', 'wp2'):
        nd = max(nd, 2)
    if f in ('downcoef', 'upcoef'):
        nd = 1
    nd1 = nd == 1
    sw = f in ('swt', 'swt2', 'swtn', 'iswt', 'iswt2', 'iswtn', 'mra', 'mra2', 'mran')
    shape = [rng.choice([4, 8]) if sw else rng.randrange(2, 9) for _ in range(nd)]
    m = rng.choice([q for q in ref.MODES if 'reflect' not in q]) if f.startswith('wp') or 'wave' in f else rng.choice(ref.MODES)
    F = rng.choice([2, 4, 6])
    w, b = core.int_wavelet(F, rng.randrange(3))
    if f in ('mra', 'mra2', 'mran', 'fswavedecn', 'fswaverecn') or f.startswith('wp') or sw:
        w = rng.choice(['haar', 'db2'])
    ax = rng.randrange(-nd, nd)
    axes = tuple(rng.sample(range(nd), 2)) if nd >= 2 else None
    lev = rng.choice([1, 1, 2])
    if f == 'downcoef' and 'reflect' in m:
        lev = 1
    part = rng.choice('ad')
    me = rng.choice(['conv', 'fft'])
    cw = rng.choice(['mexh', 'gaus2', 'cmor1-1'])
    tr = rng.choice(['swt', 'dwt'])
    wid = [(rng.randrange(4), rng.randrange(4)) for _ in range(nd)]

    def wp(K, x, **kw):
        t = K(x, w, m, 2, **kw)
        o = [n.data for n in t.get_level(2)] + [n.data for n in t.get_level(1)]
        n = pywt_new(K, w, m, kw)
        for q in t.get_level(2):
            n[q.path] = q.data
        if tuple(s for s in x.shape) and all(s % 4 == 0 for s in x.shape):
            o.append(n.reconstruct(update=False))
        return o + [t.reconstruct(update=False)]

    def pywt_new(K, w, m, kw):
        return K(None, w, m, **kw)

    fn = {
        'dwt': lambda x: pywt.dwt(x, w, m, ax), 'downcoef': lambda x: [pywt.downcoef(part, x, w, m, lev)],
        'pad': lambda x: [pywt.pad(x, wid, m)], 'dwt2': lambda x: pywt.dwt2(x, w, m, axes), 'dwtn': lambda x: pywt.dwtn(x, w, m),
        'swt': lambda x: pywt.swt(x, w, lev, 0, ax, bool(c['seed'] & 1)), 'swt2': lambda x: pywt.swt2(x, w, lev, 0, axes, bool(c['seed'] & 1)),
        'swtn': lambda x: pywt.swtn(x, w, lev, trim_approx=bool(c['seed'] & 1)),
        'wavedec': lambda x: pywt.wavedec(x, w, m, lev, ax), 'wavedec2': lambda x: pywt.wavedec2(x, w, m, lev, axes),
        'wavedecn': lambda x: pywt.wavedecn(x, w, m, lev), 'fswavedecn': lambda x: [pywt.fswavedecn(x, w, m, lev).coeffs],
        'mra': lambda x: pywt.mra(x, w, lev, ax, tr, 'periodization'), 'mra2': lambda x: pywt.mra2(x, w, lev, axes, tr + '2', 'periodization'),
        'mran': lambda x: pywt.mran(x, w, lev, transform=tr + 'n', mode='periodization'),
        'cwt': lambda x: [pywt.cwt(x, [1, 2.5], cw, 1.0, me, ax)[0]],
        'wp': lambda x: wp(pywt.WaveletPacket, x, axis=ax), 'wp2': lambda x: wp(pywt.WaveletPacket2D, x, axes=axes),
        'wpn': lambda x: wp(pywt.WaveletPacketND, x, axes=tuple(range(nd)))}
    if f in fn:
        d = c['d'][0]
        x = mk(shape, d, rng)
        g = fn[f]
        got = g(x)
        dt = np.dtype(res(d))
        cx = dt.kind == 'c'
        W = np.float64
        re = g(x.real.astype(W))
        im = g(x.imag.astype(W)) if cx else None
        if f == 'cwt' and cw.startswith('cmor'):
            dt = np.result_type(dt, np.complex64)
        if f == 'pad' and dt.kind == 'f':
            dt = None                          # pad works in the dtype numpy's pad chooses
        if f == 'pad' and cx:
            dt = None if d[0] == '>' else x.dtype.newbyteorder('=')
        tol = (3e-4 if res(d) in ('f4', 'c8') else 1e-10)
        if f == 'pad':
            tol = 2e-2 if d in ('f2', '>f2') else tol
        return same(f, got, re, im, dt, tol)
    # inverses: bands of two dtypes
    dts = c['d']
    want_dt = promote(dts)

    def rec(bands_of):
        """bands_of(shape) -> array; called in a fixed order"""
        if f == 'idwt':
            return [pywt.idwt(bands_of(shape), bands_of(shape), w, m, ax)]
        if f == 'upcoef':
            return [pywt.upcoef(part, bands_of(shape), w, lev)]
        if f == 'idwt2':
            return [pywt.idwt2((bands_of(shape), (bands_of(shape), bands_of(shape), bands_of(shape))), w, m, axes)]
        if f == 'idwtn':
            return [pywt.idwtn({''.join(q): bands_of(shape) for q in itertools.product('ad', repeat=nd)}, w, m)]
        d3 = lambda: (bands_of(shape), bands_of(shape), bands_of(shape))
        dn = lambda q: {k: ig if q and set(k) == {'a'} else bands_of(shape) for k in map(''.join, itertools.product('ad', repeat=nd))}
        tr_ = bool(c['seed'] & 1)
        L = 1 + (c['seed'] >> 1) % 2
        ig = np.zeros(shape, 'f4')          # approximations of finer levels are not used
        if f == 'iswt':
            return [pywt.iswt([bands_of(shape) for _ in range(L + 1)] if tr_ else [(bands_of(shape) if not q else ig, bands_of(shape)) for q in range(L)], w, axis=ax)]
        if f == 'iswt2':
            return [pywt.iswt2([bands_of(shape)] + [d3() for _ in range(L)] if tr_ else [(bands_of(shape) if not q else ig, d3()) for q in range(L)], w, axes=axes)]
        if f == 'iswtn':
            lv = [dn(q) for q in range(L)]
            if tr_:
                lv = [[q.pop('a' * nd) for q in lv][0]] + lv
            return [pywt.iswtn(lv, w)]
        S = list(shape)
        if f == 'waverec':
            t = pywt.wavedec(np.zeros(shape), w, m, lev, ax)
            return [pywt.waverec([bands_of(a.shape) for a in t], w, m, ax)]
        if f == 'waverec2':
            t = pywt.wavedec2(np.zeros(shape), w, m, lev, axes)
            return [pywt.waverec2([bands_of(t[0].shape)] + [tuple(bands_of(a.shape) for a in l) for l in t[1:]], w, m, axes)]
        if f == 'waverecn':
            t = pywt.wavedecn(np.zeros(shape), w, m, lev)
            return [pywt.waverecn([bands_of(t[0].shape)] + [{k: bands_of(l[k].shape) for k in sorted(l)} for l in t[1:]], w, m)]
        r = pywt.fswavedecn(np.zeros(shape), w, m, lev)
        r.coeffs  # noqa
        new = pywt.FswavedecnResult(bands_of(r.coeffs.shape), r.coeff_slices, r.wavelets, [getattr(pywt.Modes, q) for q in r.modes], r.axes)
        return [pywt.fswaverecn(new)]
    if f in ('upcoef', 'fswaverecn'):
        want_dt = np.dtype(res(dts[0]))

    def gen(how):
        r2 = random.Random(c['seed'] + 1)
        n = [0]

        def h(sh):
            d = dts[n[0]] if n[0] < 2 and f not in ('iswt', 'iswt2', 'iswtn') else r2.choice(dts)
            n[0] += 1
            used.add(d)
            a = mk(list(sh), d, r2)
            return a if how is None else getattr(a, how).astype(float) if how == 'real' else (a.imag.astype(float) if a.dtype.kind == 'c' else np.zeros(a.shape))
        return h
    used = set()
    got = rec(gen(None))
    if f not in ('upcoef', 'fswaverecn'):
        want_dt = promote(sorted(used))
    gd = got[0].dtype
    if len({str(np.dtype(d)) for d in used}) > 1:
        # bands of different types: any type that loses neither precision nor an imaginary part
        if not np.can_cast(want_dt, gd) or gd.kind != want_dt.kind:
            return f'{f}: dtype {gd} from bands {sorted(used)}'
        want_dt = gd
    re = rec(gen('real'))
    im = rec(gen('imag')) if want_dt.kind == 'c' else None
    low = any(res(d) in ('f4', 'c8') for d in dts)
    return same(f, got, re, im, want_dt, 3e-4 if low else 1e-10)
