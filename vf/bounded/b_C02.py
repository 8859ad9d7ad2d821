"""adversarial calls.  Run in an AddressSanitizer build of the extension modules: an out-of-bounds access
ends the worker, an endless loop is ended by the alarm; `run` itself accepts any result and any Python exception."""
import itertools, random, signal, warnings
import numpy as np
from . import core, ref
from .b_C06 import layout

FN = ['dwt', 'idwt', 'downcoef', 'upcoef', 'pad', 'dwt2', 'idwt2', 'dwtn', 'idwtn', 'swt', 'iswt', 'swt2', 'iswt2', 'swtn', 'iswtn',
      'wavedec', 'waverec', 'wavedec2', 'waverec2', 'wavedecn', 'waverecn', 'fswavedecn', 'dwt_axis', 'idwt_axis', 'lens', 'wavefun',
      'Wavelet', 'cwt', 'wp', 'mra', 'swt_axis', 'dwt', 'idwt', 'downcoef', 'upcoef', 'dwt_axis', 'idwt_axis', 'swt', 'arr', 'cwtpsi', 'single']
SAN = 'address'


def cases(tier, rng):
    for i in range(40000 if tier == 'quick' else 400000):
        yield dict(f=FN[i % len(FN)], seed=rng.randrange(1 << 30))


def run(c):
    if 'via' in c:      # counter-model of a proof obligation: only crashes and hangs count here
        import importlib
        try:
            importlib.import_module('bounded.b_' + c['via']).run(c['c'])
        except Exception:
            pass
        return None
    import pywt
    from pywt._extensions import _dwt, _swt, _pywt
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(25)
    rng = random.Random(c['seed'])
    f = c['f']
    nd = rng.choice([1, 1, 2, 3]) if '2' not in f else rng.choice([2, 2, 3, 1])
    if f in ('downcoef', 'upcoef', 'single'):
        nd = 1
    dim = lambda: rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33]) if rng.random() < .8 else rng.randrange(0, 70)
    shape = [min(dim(), 70 if nd == 1 else 17) for _ in range(nd)]
    D = rng.choice(['f8', 'f4', 'c16', 'c8'])
    big = rng.random() < .25
    F = rng.choice([2, 2, 4, 6, 8, 14, 20, 38, 76, 3, 1])
    if nd > 1 and (big or F > 8) and f in ('wavedec2', 'wavedecn', 'fswavedecn', 'wp'):
        F, big = min(F, 6), False           # keep expansive multilevel transforms small
    arr = lambda sh: layout(core.data(sh, D if rng.random() < .85 else rng.choice(list(core.DT)), rng.randrange(1000)), rng.choice(['C', 'C', 'F', 'rev', 'step', 'off', 'bswap', 'unaligned']), rng)
    other = lambda sh: [max(0, n + rng.choice([0, 0, 0, 0, 0, 1, -1, 5])) for n in sh]
    x = arr(shape)
    if big:
        w = rng.choice(['haar', 'db2', 'db38', 'bior6.8', 'rbio1.5', 'coif17', 'dmey', 'sym20', 'bior3.1'])
    else:
        w = core.int_wavelet(F, 0)[0]
    m = rng.choice(ref.MODES + [4, 99, -1, 'bad', None]) if rng.random() < .2 else rng.choice(ref.MODES)
    ax = rng.choice([0, -1, nd - 1, -nd, nd, -nd - 1, 7, 1 << 33, -(1 << 33)]) if rng.random() < .5 else rng.randrange(-nd, nd)
    axes = tuple(rng.choice([0, -1, 1, nd - 1, nd, -nd - 1, 5]) for _ in range(2 if '2' in f else rng.randrange(0, 4))) if rng.random() < .6 else \
        tuple(rng.sample(range(nd), min(nd, 2)))
    lev = rng.choice([0, 1, 1, 1, 2, 3, 5, 9, -1, None, 40, 1 << 40])
    ilev = rng.choice([0, 1, 1, 2, 3, 6, -1, -5])
    W = [w, 'db2'] if rng.random() < .1 else w
    try:
        if f == 'dwt':
            pywt.dwt(x, w, m, ax)
        elif f == 'idwt':
            pywt.idwt(x if rng.random() < .9 else None, arr(other(shape)) if rng.random() < .9 else None, w, m, ax)
        elif f == 'downcoef':
            pywt.downcoef(rng.choice(['a', 'd', 'x']), x, w, m, rng.choice([1, 1, 2, 3, 0, -1, 60]))
        elif f == 'upcoef':
            pywt.upcoef(rng.choice(['a', 'd', 'x']), x, w, ilev, rng.choice([0, 0, 1, 2, 3, 17, 100, 100000, -1, -7]))
        elif f == 'pad':
            pywt.pad(x, rng.choice([3, 0, (2, 5), [(1, 40)] * nd, [(0, 0)] * nd, -1, [(200, 0)] * nd if nd == 1 else 1]), m)
        elif f == 'dwt2':
            pywt.dwt2(x, W, m, axes)
        elif f == 'idwt2':
            pywt.idwt2((arr(shape), tuple(arr(other(shape)) if rng.random() < .9 else None for _ in range(3))), W, m, axes)
        elif f == 'dwtn':
            pywt.dwtn(x, w, m, axes or None)
        elif f == 'idwtn':
            k = len(axes) or nd
            pywt.idwtn({''.join(q): arr(other(shape) if rng.random() < .2 else shape) for q in itertools.product('ad', repeat=k) if rng.random() < .9}, w, m, axes or None)
        elif f in ('swt', 'mra'):
            L = rng.choice([1, 1, 2, 3, 4, 0, -1, 70, None])
            if f == 'mra':
                pywt.mra(x, w, L, ax, rng.choice(['swt', 'dwt']))
            else:
                pywt.swt(x, w, L, rng.choice([0, 0, 0, 1, 2, 3, -1, 62, 63, 64, 65, 1000]), ax, rng.random() < .5)
        elif f == 'swt_axis':
            _swt.swt_axis(x.astype(core.DT[D]), pywt.Wavelet(w) if isinstance(w, str) else w, rng.choice([1, 2, 3, 0, 63]), rng.choice([0, 1, 2, 62, 63, 64]), rng.randrange(nd))
        elif f == 'swt2':
            pywt.swt2(x, W, rng.choice([1, 2, 3, 0]), rng.choice([0, 0, 1, 3]), axes)
        elif f == 'swtn':
            pywt.swtn(x, w, rng.choice([1, 2, 3, 0]), rng.choice([0, 0, 1, 3]), axes or None)
        elif f == 'iswt':
            n = rng.choice([1, 2, 3])
            pywt.iswt([(arr(other(shape)), arr(other(shape))) for _ in range(n)], w, axis=ax if rng.random() < .5 else -1)
        elif f == 'iswt2':
            n = rng.choice([1, 2])
            pywt.iswt2([(arr(other(shape)), tuple(arr(other(shape) if rng.random() < .1 else shape) for _ in range(3))) for _ in range(n)], W, axes=axes)
        elif f == 'iswtn':
            n = rng.choice([1, 2])
            k = len(axes) or nd
            pywt.iswtn([{''.join(q): arr(other(shape) if rng.random() < .1 else shape) for q in itertools.product('ad', repeat=k)} for _ in range(n)], w, axes or None)
        elif f == 'wavedec':
            pywt.wavedec(x, w, m, min(lev, 40) if lev else lev, ax)
        elif f == 'waverec':
            n = rng.choice([0, 1, 2, 4])
            sh, co = list(shape), []
            for _ in range(n + 1):
                co.append(arr(other(sh)))
                if ax in range(-nd, nd) and co[-1].shape[ax]:
                    sh[ax] = max(0, 2 * sh[ax] - F + 2)
            pywt.waverec(co[:1] + co[:1] + co[1:], w, m, ax)
        elif f == 'wavedec2':
            pywt.wavedec2(x, W, m, min(lev, 12) if lev else lev, axes)
        elif f == 'waverec2':
            c2 = pywt.wavedec2(core.data(shape, D, 1), 'db2', 'symmetric', 2, (0, 1)) if min(shape) > 0 else [x, (x, x, x)]
            pywt.waverec2(c2, W, m, axes)
        elif f == 'wavedecn':
            pywt.wavedecn(x, w, m, min(lev, 12) if lev else lev, axes or None)
        elif f == 'waverecn':
            cn = pywt.wavedecn(core.data(shape, D, 1), 'haar', 'symmetric', 2) if min(shape) > 0 else [x]
            pywt.waverecn(cn, w, m, axes or None)
        elif f == 'fswavedecn':
            r = pywt.fswavedecn(x, w, m, rng.choice([None, 0, 1, 2, 5]), axes or None)
            pywt.fswaverecn(r)
        elif f == 'dwt_axis':
            W2 = pywt.Wavelet(w) if isinstance(w, str) else w
            _dwt.dwt_axis(x, W2, pywt.Modes.from_object(m), ax if abs(ax) < 100 else 3)
        elif f == 'idwt_axis':
            W2 = pywt.Wavelet(w) if isinstance(w, str) else w
            _dwt.idwt_axis(x if rng.random() < .9 else None, arr(other(shape)) if rng.random() < .9 else None, W2, pywt.Modes.from_object(m), ax if abs(ax) < 100 else 3)
        elif f == 'lens':
            pywt.dwt_max_level(rng.choice([-1, 0, 1, 5, 1 << 40, 1 << 63, 3.0]), rng.choice([0, 1, 2, -1, 5, 1 << 63, w]))
            pywt.swt_max_level(rng.choice([-1, 0, 1, 5, 1 << 40, 1 << 63, 48]))
            pywt.dwt_coeff_len(rng.choice([-1, 0, 1, 5, 1 << 40]), rng.choice([0, 1, 2, -1, 5, w]), m)
        elif f == 'wavefun':
            W2 = pywt.Wavelet(w) if isinstance(w, str) else w
            W2.wavefun(rng.choice([0, 1, 2, 3, 5, -1]))
        elif f == 'cwtpsi':
            W2 = pywt.ContinuousWavelet(rng.choice(['gaus1', 'gaus9', 'cgau8', 'mexh', 'shan1-1', 'fbsp2-1-1', 'fbsp0-1-1', 'cmor1-1', 'morl', 'cmor', 'gaus', 'cgau0']))
            W2.wavefun(rng.choice([0, 1, 4, -1]), rng.choice([None, 0, 1, 5, -3]))
        elif f == 'Wavelet':
            n = rng.choice([0, 1, 2, 3, 5, 8])
            fb = [list(range(n))] * rng.choice([4, 4, 4, 3, 0]) if rng.random() < .6 else [list(range(n)), list(range(n + 1))] * 2
            W2 = pywt.Wavelet(rng.choice(['x', '', 'db', 'db0', 'db39', 'db99999999999', 'bior1.2', 'bior9.9', 'rbio0.0', 'bior1.', 'coif18', 'sym1', 'sym21', 'dmey2', 'haar3', 'HAAR']), rng.choice([fb, None]))
            W2.wavefun(1)
            pywt.dwt([1., 2, 3], W2)
        elif f == 'cwt':
            pywt.cwt(x, rng.choice([[1], [1, 3.3], [0], [-1], [], [1e-3], 500, [float('nan')]]), rng.choice(['mexh', 'gaus3', 'cmor1-1', 'db2', 'zz']), 1.0, rng.choice(['conv', 'fft']), ax)
        elif f == 'wp':
            t = rng.choice([pywt.WaveletPacket, pywt.WaveletPacket2D, pywt.WaveletPacketND])(x, w, m, rng.choice([None, 1, 2, 3]))
            for n in t.get_level(1):
                n.data
            n = t[t.get_level(1)[0].path]
            n.data = arr(other(n.data.shape)) if rng.random() < .3 else n.data
            t.reconstruct()
        elif f == 'arr':
            cn = pywt.wavedecn(core.data(shape, D, 1), w, 'symmetric', 1)
            a, s = pywt.coeffs_to_array(cn)
            pywt.array_to_coeffs(a[tuple(slice(0, rng.choice([n, max(n - 1, 0)])) for n in a.shape)], s, rng.choice(['wavedecn', 'wavedec2', 'wavedec']))
            r, s1, s2 = pywt.ravel_coeffs(cn)
            pywt.unravel_coeffs(r[:len(r) - rng.choice([0, 1, 5])], s1, s2, rng.choice(['wavedecn', 'wavedec2']))
        elif f == 'single':
            W2 = pywt.Wavelet(w) if isinstance(w, str) else w
            y = np.ascontiguousarray(x.astype(core.DT[D]))
            mo = pywt.Modes.from_object(m)
            z = np.ascontiguousarray(arr(other(shape)).astype(core.DT[D]))
            k = rng.randrange(5)
            if k == 0:
                _dwt.dwt_single(y, W2, mo)
            elif k == 1:
                _dwt.idwt_single(y, z, W2, mo)
            elif k == 2:
                _dwt.upcoef(rng.random() < .5, y, W2, ilev, rng.choice([0, 1, 5, 1000]))
            elif k == 3:
                _dwt.downcoef(rng.random() < .5, y, W2, mo, ilev)
            else:
                _swt.swt(y, W2, rng.choice([1, 2, 3, 0]), rng.choice([0, 1, 2, 62, 63, 64]), rng.random() < .5)
    except Exception:
        pass
    signal.alarm(0)
    return None
