"""no mutation, no aliasing, repeatability"""
import copy, random, warnings
import numpy as np
from . import core, ref
from .b_C06 import layout

FN = ['dwt', 'idwt', 'downcoef', 'upcoef', 'pad', 'dwt2', 'idwt2', 'dwtn', 'idwtn', 'swt', 'iswt', 'swt2', 'iswt2', 'swtn', 'iswtn',
      'wavedec', 'waverec', 'wavedec2', 'waverec2', 'wavedecn', 'waverecn', 'fswavedecn', 'fswaverecn',
      'coeffs_to_array', 'array_to_coeffs', 'ravel_coeffs', 'unravel_coeffs', 'threshold', 'threshold_firm', 'cwt',
      'mra', 'imra', 'mra2', 'imra2', 'mran', 'imran', 'qmf', 'orthogonal_filter_bank', 'Wavelet', 'wavefun', 'cwavefun', 'tables',
      'wp', 'wp2', 'wpn', 'integrate']
# functions whose documented job is to hand back the caller's own coefficients
VIEW_OK = {'array_to_coeffs', 'unravel_coeffs', 'coeffs_to_array'}


def cases(tier, rng):
    for i in range(24000 if tier == 'quick' else 200000):
        yield dict(f=FN[i % len(FN)], seed=rng.randrange(1 << 30), bad=rng.random() < .25)


def leaves(o, path='', seen=None):
    if isinstance(o, np.ndarray):
        yield path, o
    elif isinstance(o, dict):
        for k in o:
            yield from leaves(o[k], f'{path}[{k!r}]')
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, f'{path}[{i}]')


def snap(o):
    """a deep description: container identities and array bytes"""
    if isinstance(o, np.ndarray):
        return ('A', id(o), o.shape, o.strides, str(o.dtype), o.tobytes(), o.flags.writeable)
    if isinstance(o, dict):
        return ('D', id(o), tuple((k, snap(o[k])) for k in o))
    if isinstance(o, list):
        return ('L', id(o), tuple(snap(v) for v in o))
    if isinstance(o, tuple):
        return ('T', tuple(snap(v) for v in o))
    if type(o).__name__ == 'Wavelet':
        return ('W', o.name, tuple(map(tuple, o.filter_bank)), o.orthogonal, o.biorthogonal, o.vanishing_moments_psi)
    return ('V', repr(o))


def vals(o):
    if isinstance(o, np.ndarray):
        return ('A', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return ('D', tuple((k, vals(o[k])) for k in o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(vals(v) for v in o))
    return ('V', repr(o))


def build(f, rng, bad):
    """returns (callable, argument containers, view_ok)"""
    import pywt
    nd = rng.choice([1, 2, 3])
    if f in ('dwt2', 'idwt2', 'swt2', 'iswt2', 'wavedec2', 'waverec2', 'mra2', 'imra2', 'wp2'):
        nd = max(nd, 2)
    D = rng.choice(['f8', 'f8', 'f4', 'c16', 'c8'])
    sw = f in ('swt', 'iswt', 'swt2', 'iswt2', 'swtn', 'iswtn', 'mra', 'imra', 'mra2', 'imra2', 'mran', 'imran')
    pow2 = sw and rng.random() < .95
    shape = [rng.choice([4, 8]) if pow2 else rng.randrange(2, 10) for _ in range(nd)]
    x = core.data(shape, D, rng.randrange(1 << 20))
    x = layout(x, rng.choice(['C', 'C', 'F', 'rev', 'step', 'bswap' if D != 'list' else 'C']), rng)
    w = rng.choice(['haar', 'db2', 'db2', 'bior2.2'])
    if rng.random() < .4 or f == 'Wavelet':
        w = pywt.Wavelet(w)
    m = rng.choice(ref.MODES)
    lev = rng.choice([1, 1, 2])
    ax = rng.randrange(-nd, nd)
    axes = tuple(rng.sample(range(nd), 2)) if nd >= 2 else None
    naxes = None if rng.random() < .3 else rng.sample(range(nd), rng.randrange(1, nd + 1))

    def breakit(co):
        """corrupt the last array of a coefficient structure so that a late step raises"""
        if not bad:
            return co
        ps = list(leaves(co))
        if not ps:
            return co
        kind = rng.random()
        tgt = ps[-1][1] if kind < .7 else rng.choice(ps)[1]
        new = np.zeros([n + 3 for n in tgt.shape], tgt.dtype)

        def sub(o):
            if o is tgt:
                return new
            if isinstance(o, dict):
                return {k: sub(v) for k, v in o.items()}
            if isinstance(o, (list, tuple)):
                return type(o)(sub(v) for v in o)
            return o
        return sub(co)
    if bad and f in ('dwt', 'downcoef', 'upcoef', 'swt', 'wavedec', 'cwt', 'mra', 'wavedecn', 'dwtn', 'swtn', 'mran', 'fswavedecn', 'dwt2', 'swt2', 'wavedec2', 'mra2', 'pad'):
        k = rng.choice(['ax', 'w', 'm'])
        if k == 'ax':
            ax, axes = nd + 2, (0, nd + 1)
            naxes = [0, nd + 1]
        elif k == 'w':
            w = 'nope'
        else:
            m = 'nope'
    if f == 'dwt':
        return (lambda: pywt.dwt(x, w, m, ax)), [x, w], False
    if f == 'idwt':
        n = x.shape[ax]
        b = core.data(shape, D, 5)
        a, d = breakit([x, b])
        if rng.random() < .3 and not bad:
            a, d = rng.choice([(x, None), (None, x)])
        return (lambda: pywt.idwt(a, d, w, m, ax)), [a, d, w], False
    if f == 'downcoef':
        v = core.data([rng.randrange(2, 20)], D, 3)
        p = rng.choice(['a', 'd', 'a', 'x' if bad else 'a'])
        return (lambda: pywt.downcoef(p, v, w, m, lev)), [v, w], False
    if f == 'upcoef':
        v = core.data([rng.randrange(2, 20)], D, 3)
        p = rng.choice(['a', 'd'])
        t = rng.choice([0, 0, 3, -1 if bad else 2])
        return (lambda: pywt.upcoef(p, v, w, lev, t)), [v, w], False
    if f == 'pad':
        wd = [[rng.randrange(4), rng.randrange(4)] for _ in range(nd)]
        if rng.random() < .2:
            wd = [[0, 0]] * nd
        return (lambda: pywt.pad(x, wd, m)), [x, wd], False
    if f == 'dwt2':
        W = [w, 'db2'] if rng.random() < .3 else w
        return (lambda: pywt.dwt2(x, W, m, axes)), [x, W], False
    if f == 'idwt2':
        c = breakit([core.data(shape, D, 1), tuple(core.data(shape, D, k) for k in (2, 3, 4))])
        if rng.random() < .3 and not bad:
            c = [c[0], (None,) + c[1][1:]]
        return (lambda: pywt.idwt2(c, w, m, axes)), [c], False
    if f == 'dwtn':
        W = [w] * (len(naxes) if naxes else nd)
        M = [m] * (len(naxes) if naxes else nd)
        return (lambda: pywt.dwtn(x, W, M, naxes)), [x, W, M, naxes], False
    if f == 'idwtn':
        k = len(naxes) if naxes else nd
        import itertools
        c = {''.join(q): core.data(shape, D, i) for i, q in enumerate(itertools.product('ad', repeat=k))}
        if rng.random() < .4 and not bad:
            q = rng.choice(sorted(c))
            if rng.random() < .5:
                c[q] = None
            elif len(c) > 1:
                del c[q]
        c = breakit(c)
        return (lambda: pywt.idwtn(c, w, m, naxes)), [c, naxes], False
    tn, no = rng.random() < .5, rng.random() < .3
    if f in ('swt', 'iswt'):
        import functools
        g = lambda: pywt.swt(x, w, lev, 0, ax, tn, no)
        if f == 'swt':
            return g, [x, w], False
        c = breakit(g())
        return (lambda: pywt.iswt(c, w, no, ax)), [c, w], False
    if f in ('swt2', 'iswt2'):
        g = lambda: pywt.swt2(x, w, lev, 0, axes, tn, no)
        if f == 'swt2':
            return g, [x, w], False
        c = breakit(g())
        return (lambda: pywt.iswt2(c, w, no, axes)), [c, w], False
    if f in ('swtn', 'iswtn'):
        g = lambda: pywt.swtn(x, w, lev, 0, naxes, tn, no)
        if f == 'swtn':
            return g, [x, w, naxes], False
        c = breakit(g())
        return (lambda: pywt.iswtn(c, w, naxes, no)), [c, w, naxes], False
    if f in ('wavedec', 'waverec'):
        g = lambda: pywt.wavedec(x, w, m, lev, ax)
        if f == 'wavedec':
            return g, [x, w], False
        c = breakit(g())
        if rng.random() < .3 and not bad:
            c[rng.randrange(1, len(c))] = None
        return (lambda: pywt.waverec(c, w, m, ax)), [c, w], len(c) < 2
    if f in ('wavedec2', 'waverec2'):
        g = lambda: pywt.wavedec2(x, w, m, lev, axes)
        if f == 'wavedec2':
            return g, [x, w], False
        c = breakit(g())
        if rng.random() < .3 and not bad:
            c[1] = (None,) + tuple(c[1][1:])
        return (lambda: pywt.waverec2(c, w, m, axes)), [c, w], len(c) < 2
    if f in ('wavedecn', 'waverecn', 'coeffs_to_array', 'ravel_coeffs', 'array_to_coeffs', 'unravel_coeffs'):
        g = lambda: pywt.wavedecn(x, w, m, lev, naxes)
        if f == 'wavedecn':
            return g, [x, w, naxes], False
        c = breakit(g()) if f != 'array_to_coeffs' and f != 'unravel_coeffs' else g()
        if f == 'waverecn':
            if rng.random() < .3 and not bad:
                del c[1][sorted(c[1])[0]]
            return (lambda: pywt.waverecn(c, w, m, naxes)), [c, w, naxes], len(c) < 2
        if f == 'coeffs_to_array':
            p = rng.choice([0, None, 5])
            return (lambda: pywt.coeffs_to_array(c, p, naxes)), [c, naxes], len(c) < 2
        if f == 'ravel_coeffs':
            return (lambda: pywt.ravel_coeffs(c, naxes)), [c, naxes], False
        if f == 'array_to_coeffs':
            a, s = pywt.coeffs_to_array(c, 0, naxes)
            return (lambda: pywt.array_to_coeffs(a, s, 'wavedecn')), [a, s], True
        a, s, h = pywt.ravel_coeffs(c, naxes)
        return (lambda: pywt.unravel_coeffs(a, s, h, 'wavedecn')), [a, s, h], True
    if f in ('fswavedecn', 'fswaverecn'):
        L = [lev] * (len(naxes) if naxes else nd)
        g = lambda: pywt.fswavedecn(x, w, m, L, naxes)
        if f == 'fswavedecn':
            return (lambda: (lambda r: (r.coeffs, r.approx, [r[k] for k in r.detail_keys()]))(g())), [x, w, L, naxes], 'self'
        r = g()
        return (lambda: pywt.fswaverecn(r)), [r.coeffs], False
    if f == 'threshold':
        md = rng.choice(['soft', 'hard', 'garrote', 'greater', 'less', 'zz' if bad else 'soft'])
        y = x if md not in ('greater', 'less') else x.real.copy()
        y = rng.choice([y, y.real.astype(int)])
        return (lambda: pywt.threshold(y, 2, md, rng_sub)), [y], False
    if f == 'threshold_firm':
        y = x
        return (lambda: pywt.threshold_firm(y, 2, 1 if bad else 4)), [y], False
    if f == 'cwt':
        sc = rng.choice([[1., 2.], np.array([2., 3.]), np.array([1, 2]), np.array([3., -1.]) if bad else np.array([3.])])
        W = rng.choice(['mexh', 'gaus1', 'cmor1.5-1.0']) if not bad or w != 'nope' else 'nope'
        me = rng.choice(['conv', 'fft'])
        return (lambda: pywt.cwt(x, sc, W, 0.5, me, min(ax, nd - 1))), [x, sc], False
    tr = rng.choice(['swt', 'dwt'])
    mm = m if tr == 'dwt' else 'periodization'
    w2 = rng.choice(['haar', 'db2'])
    if f in ('mra', 'imra'):
        g = lambda: pywt.mra(x, w2, lev, ax, tr, mm)
        if f == 'mra':
            return g, [x], False
        c = breakit(g())
        return (lambda: pywt.imra(c)), [c], False
    if f in ('mra2', 'imra2'):
        g = lambda: pywt.mra2(x, w2, lev, axes, 'swt2' if tr == 'swt' else 'dwt2', mm)
        if f == 'mra2':
            return g, [x], False
        c = breakit(g())
        return (lambda: pywt.imra2(c)), [c], False
    if f in ('mran', 'imran'):
        g = lambda: pywt.mran(x, w2, lev, naxes, 'swtn' if tr == 'swt' else 'dwtn', mm)
        if f == 'mran':
            return g, [x, naxes], False
        c = breakit(g())
        return (lambda: pywt.imran(c)), [c], False
    if f == 'qmf':
        v = core.data([rng.randrange(1, 9)], 'f8', 1)
        return (lambda: pywt.qmf(v)), [v], False
    if f == 'orthogonal_filter_bank':
        v = np.abs(core.data([rng.choice([2, 4, 6, 3 if bad else 8])], 'f8', 1)) + 1
        return (lambda: pywt.orthogonal_filter_bank(v)), [v], 'self'
    if f == 'Wavelet':
        fb = [core.data([4], 'f8', k) for k in range(4 if not bad else 3)]
        return (lambda: [list(map(list, pywt.Wavelet('q', fb).filter_bank))]), [fb], False
    if f == 'wavefun':
        W = pywt.Wavelet(rng.choice(['db2', 'bior2.2', 'haar', 'sym4']))
        return (lambda: W.wavefun(rng_lev)), [W], False
    if f == 'cwavefun':
        W = pywt.ContinuousWavelet(rng.choice(['mexh', 'cgau2', 'gaus3', 'shan1-1', 'cmor1-1']))
        return (lambda: W.wavefun(4)), [], False
    if f == 'integrate':
        nm = rng.choice(['db2', 'bior2.2', 'gaus1', 'cgau1'])
        return (lambda: pywt.integrate_wavelet(nm, 4)), [], False
    if f == 'tables':
        nm = rng.choice(['db3', 'bior2.4', 'sym5', 'coif2', 'rbio1.3', 'dmey', 'haar'])
        W = pywt.Wavelet(nm)
        return (lambda: [W.filter_bank, W.inverse_filter_bank, W.dec_lo, W.dec_hi, W.rec_lo, W.rec_hi, pywt.wavelist('db'), pywt.wavelist(),
                         pywt.families(), pywt.families(False), W.get_filters_coeffs() if False else 0]), [], 'lists'
    if f in ('wp', 'wp2', 'wpn'):
        K = {'wp': pywt.WaveletPacket, 'wp2': pywt.WaveletPacket2D, 'wpn': pywt.WaveletPacketND}[f]
        key = 'axis' if f == 'wp' else 'axes'
        A = {'wp': nd - 1, 'wp2': axes, 'wpn': tuple(range(nd))}[f]

        def g():
            t = K(x, rng_w, m, 2, **{key: A})
            out = [np.array(n.data) for n in t.get_level(1)]
            leaf = np.array(t.get_level(2)[0].data)
            r = np.array(t.reconstruct(update=False))
            for n in t.get_level(1):
                n.data[...] = 0
            t.reconstruct(update=True)
            return out + [leaf, r]
        return g, [x], False
    raise KeyError(f)


rng_sub, rng_lev, rng_w = 0, 3, 'db2'


def call(g):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return 'ok', g()
        except Exception as e:
            return 'raise', e


def disturb(rng):
    """unrelated calls in between"""
    import pywt
    for _ in range(2):
        k = rng.randrange(6)
        x = np.arange(8.) * rng.randrange(1, 5)
        try:
            if k == 0:
                pywt.dwt(x, 'db3')
            elif k == 1:
                pywt.wavedecn(np.outer(x, x), 'db2', level=1)
            elif k == 2:
                pywt.iswtn(pywt.swtn(np.outer(x, x), 'haar', 2), 'haar')
            elif k == 3:
                pywt.dwt(x, 'zzz')
            elif k == 4:
                w = pywt.Wavelet('db2')
                w.dec_lo[0] = 3
                w.filter_bank[0][0] = 9
                w.orthogonal = False
            else:
                w = pywt.ContinuousWavelet('gaus1')
                w.upper_bound = 1
                pywt.threshold(x, 2)
        except Exception:
            pass


def run(c):
    rng = random.Random(c['seed'])
    f = c['f']
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g, args, vo = build(f, rng, c['bad'])
    except (ValueError, TypeError) as e:
        return None        # the arguments could not even be prepared (e.g. a length swt refuses)
    s0 = snap(args)
    st, r1 = call(g)
    if snap(args) != s0:
        return f'{f}: arguments changed' + (f' (it raised {r1!r})' if st == 'raise' else '')
    disturb(rng)
    st2, r2 = call(g)
    if snap(args) != s0:
        return f'{f}: arguments changed by the second call'
    if st != st2:
        return f'{f}: first call {st} {r1!r}, second call {st2} {r2!r}'
    if st == 'raise':
        return None if type(r1) is type(r2) else f'{f}: raised {r1!r} then {r2!r}'
    v1 = vals(r1)
    if v1 != vals(r2):
        return f'{f}: the same call gave different results'
    L1, L2, LA = list(leaves(r1)), list(leaves(r2)), list(leaves(args))
    if not vo or vo in ('self', 'lists'):
        for p, a in L1:
            for q, b in LA:
                if np.shares_memory(a, b):
                    return f'{f}: result{p} shares memory with argument{q}'
        for p, a in L1:
            for q, b in L2:
                if np.shares_memory(a, b):
                    return f'{f}: results of two calls share memory'
        if not vo:
            for i, (p, a) in enumerate(L1):
                for q, b in L1[:i]:
                    if np.shares_memory(a, b):
                        return f'{f}: result{p} shares memory with result{q}'
    if not vo or vo in ('self', 'lists'):
        # scribble over everything returned, then call again
        def scribble(o):
            if isinstance(o, np.ndarray):
                if o.flags.writeable:
                    o[...] = 77
            elif isinstance(o, dict):
                for k in list(o):
                    scribble(o[k])
                o.clear()
            elif isinstance(o, (list, tuple)):
                for e in o:
                    scribble(e)
                if isinstance(o, list):
                    o.clear()
        scribble(r1)
        if snap(args) != s0:
            return f'{f}: writing into the result changed an argument'
        st3, r3 = call(g)
        if st3 != 'ok' or vals(r3) != v1:
            return f'{f}: writing into an earlier result changed a later one'
    return None
