import itertools
import numpy as np
from . import core, ref
from .b_C01 import ok_mode
MODES = ref.MODES


def int_pr_bank(kind):
    """exact dyadic perfect-reconstruction banks (lifting); all values exactly representable"""
    if kind == 'haar2':       # unnormalised Haar, even length 2
        return [[.5, .5], [-.5, .5], [1, 1], [1, -1]]
    lo = {'53': ([0, -.125, .25, .75, .25, -.125], [0, -.5, 1, -.5, 0, 0], [0, .5, 1, .5, 0, 0], [0, -.125, -.25, .75, -.25, -.125])}
    return [list(map(float, f)) for f in lo[kind]]


def cases(tier, rng):
    q = tier == 'quick'
    dts = ['f8', 'c16', 'f4', 'c8']
    # the discrete Meyer bank is documented as an FIR approximation (PR error 4e-3): not a PR bank
    names = [n for n in core.builtin() if n != 'dmey']
    k = 0
    for i, nm in enumerate(names):
        for m in MODES:
            for N in sorted({1, 2, 3, 4 + (i + k) % 23, 30 + (i * 7 + k) % 61} | ({5, 6, 7, 8, 16, 17, 33, 64, 101, 128} if not q else set())):
                if ok_mode(m, N):
                    k += 1
                    yield dict(nd=1, shape=[N], w=nm, mode=m, dtype=dts[k % 4] if k % 3 else 'f8', seed=k, axis=-1)
    for kind in ('haar2', '53'):
        for m in MODES:
            for N in range(1, 40):
                if ok_mode(m, N):
                    k += 1
                    yield dict(nd=1, shape=[N], w=kind, mode=m, dtype=dts[k % 4], seed=k, axis=0)
    for i in range(3750 if q else 25000):
        nd = rng.choice([2, 2, 3, 3, 4])
        shape = [rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16]) for _ in range(nd)]
        while np.prod(shape) > 3000:
            shape[rng.randrange(nd)] = 2
        fn = rng.choice(['axis', 'n', 'n', '2'])
        na = 1 if fn == 'axis' else 2 if fn == '2' else rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        w = [rng.choice(names + ['53', 'haar2']) for _ in axes]
        mo = [rng.choice(MODES) for _ in axes]
        for j, (a, m) in enumerate(zip(axes, mo)):
            if not ok_mode(m, shape[a]):
                mo[j] = 'symmetric'
        yield dict(nd=nd, fn=fn, shape=shape, w=w, mode=mo, dtype=rng.choice(dts), seed=i, axes=[a - nd if rng.random() < .3 else a for a in axes],
                   order=rng.choice(['C', 'F', 'T']))


_pr = {}


def wave(nm):
    import pywt
    if nm in ('haar2', '53'):
        if nm not in _pr:
            _pr[nm] = pywt.Wavelet(nm, filter_bank=int_pr_bank(nm))
        return _pr[nm]
    return core.wav(nm)[0]


def tol(dt, names):
    return max(core.tol_of(dt), 2e-9)


def crop(y, shape, what):
    if any(g not in (s, s + s % 2) for g, s in zip(y.shape, shape)):
        return None, f'{what}: shape {y.shape} for input shape {shape}'
    return y[tuple(slice(s) for s in shape)], None


def run(c):
    import pywt
    shape = tuple(c['shape'])
    x = core.data(shape, c['dtype'], c['seed'])
    if c['nd'] == 1:
        w = wave(c['w'])
        a, d = pywt.dwt(x, w, c['mode'], axis=c['axis'])
        y, e = crop(pywt.idwt(a, d, w, c['mode'], axis=c['axis']), shape, 'idwt')
        if e is None and y.shape[0] and len(pywt.idwt(a, d, w, c['mode'])) != shape[0] + shape[0] % 2:
            e = 'length'
        return e or core.diff(y, x, tol(c['dtype'], c['w']), 'idwt(dwt(x))', c['dtype'])
    if c['order'] == 'F':
        x = np.asfortranarray(x)
    elif c['order'] == 'T':
        x = np.ascontiguousarray(x.T).T
    ws, mo, axes = tuple(wave(n) for n in c['w']), tuple(c['mode']), tuple(c['axes'])
    if c['fn'] == 'axis':
        a, d = pywt.dwt(x, ws[0], mo[0], axis=axes[0])
        y = pywt.idwt(a, d, ws[0], mo[0], axis=axes[0])
    elif c['fn'] == '2':
        y = pywt.idwt2(pywt.dwt2(x, ws, mo, axes), ws, mo, axes)
    else:
        y = pywt.idwtn(pywt.dwtn(x, ws, mo, axes), ws, mo, axes)
    want_shape = list(shape)
    for a in axes:
        want_shape[a] += want_shape[a] % 2
    if y.shape != tuple(want_shape):
        return f'shape {y.shape}, expected {tuple(want_shape)}'
    y, e = crop(y, shape, 'rec')
    return e or core.diff(y, x, 3 * tol(c['dtype'], c['w']), 'round trip', c['dtype'])
