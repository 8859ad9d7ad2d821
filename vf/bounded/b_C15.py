import math
import numpy as np
from . import core

GS = {1: 1, 2: -1, 3: -1, 4: 1, 5: 1, 6: -1, 7: -1, 8: 1}
CN = {1: 2, 2: 10, 3: 76, 4: 764, 5: 9496, 6: 140152, 7: 2390480, 8: 46206736}
CONT = [f'gaus{i}' for i in range(1, 9)] + [f'cgau{i}' for i in range(1, 9)] + ['mexh', 'morl']


def param(rng):
    return rng.choice(['0.5', '1', '1.5', '2', '3', '0.3', '1.1', '0.75'])


def pname(rng):
    k = rng.choice(['cmor', 'shan', 'fbsp'])
    b, f = param(rng), param(rng)
    return f'{k}{b}-{f}' if k != 'fbsp' else f'fbsp{rng.choice([1, 2, 3, 4, 5])}-{b}-{f}'


ORTH = ['haar', 'db2', 'db5', 'sym4', 'coif1', 'dmey']


def cases(tier, rng):
    n = 3 if tier == 'quick' else 20
    for w in CONT:
        yield dict(t='moments', w=w)
    for _ in range(n):
        for w in CONT + [pname(rng) for _ in range(40)]:
            for dt in ('f8', 'f4'):
                yield dict(t='psi', w=w, dt=dt, level=rng.choice([0, 1, 3, 5, 8, 10]),
                           length=rng.choice([None, 1, 2, 5, 33, 100, 257]),
                           b=rng.choice([None, None, [-3, 3], [-2.5, 7], [0, 4], [-0.1, 0.3]]))
    m = 1200 if tier == 'quick' else 12000
    for i in range(m):
        w = rng.choice(CONT + [pname(rng) for _ in range(6)])
        shape = rng.choice([[1], [2], [7], [20], [33], [64], [101], [3, 8], [4, 2, 6], [5, 1], [8, 3]])
        yield dict(t='cwt', w=w, shape=shape, axis=rng.randrange(-len(shape), len(shape)), dt=rng.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i8']),
                   sc=[rng.choice([1, 2, 3, 4, 7, 1.5, 2.25, 10, 0.8, 13.7]) for _ in range(rng.choice([1, 1, 2, 3, 5]))],
                   scalar=rng.random() < .2, per=rng.choice([1.0, 0.5, 0.01, 3.0]), seed=i, lay=rng.choice(['C', 'C', 'F', 'rev']))
    for w in CONT[:3] + ['cmor1.5-1.0']:
        for bad in ([0], [-1], [1, 0], [2, -0.5]):
            yield dict(t='bad', w=w, sc=bad)
    for w in CONT + ORTH + ['bior2.2', 'bior1.3', 'rbio3.1', 'cmor1.5-1.0', 'shan1.5-1.0', 'fbsp2-1-1']:
        for p in (3, 5, 8, 10):
            yield dict(t='integ', w=w, p=p)


def closed(name, x):
    """closed form at the float64 points x"""
    x = np.asarray(x, float)
    g = np.exp(-x * x)
    if name.startswith('gaus'):
        n = int(name[4:])
        h = np.polynomial.hermite.hermval(x, [0] * n + [1])          # physicists' H_n; d^n e^{-x^2} = (-1)^n H_n e^{-x^2}
        nrm = math.sqrt(math.prod(range(1, 2 * n, 2)) * math.sqrt(math.pi / 2))
        return (-1) ** (n // 2) * (-1) ** n * h * g / nrm
    if name.startswith('cgau'):
        n = int(name[4:])
        # d^n (e^{-ix-x^2}) = P_n e^{...}; P_{n+1} = P_n' + P_n * (-i - 2x)
        P = np.polynomial.Polynomial([1 + 0j])
        q = np.polynomial.Polynomial([-1j, -2])
        for _ in range(n):
            P = P.deriv() + P * q
        return P(x) * np.exp(-1j * x) * g / math.sqrt(CN[n] * math.sqrt(math.pi / 2))
    if name == 'mexh':
        return 2 / (math.sqrt(3) * math.pi ** .25) * (1 - x * x) * np.exp(-x * x / 2)
    if name == 'morl':
        return np.exp(-x * x / 2) * np.cos(5 * x)
    v = [float(t) for t in name[4:].split('-')]
    if name.startswith('cmor'):
        B, C = v
        return np.exp(-x * x / B) * np.exp(2j * np.pi * C * x) / math.sqrt(math.pi * B)
    if name.startswith('shan'):
        B, C = v
        return math.sqrt(B) * np.sinc(B * x) * np.exp(2j * np.pi * C * x)
    M, B, C = v
    return math.sqrt(B) * np.sinc(B * x / M) ** int(M) * np.exp(2j * np.pi * C * x)


BND = {'gaus': 5, 'cgau': 5, 'mexh': 8, 'morl': 8, 'cmor': 8, 'shan': 20, 'fbsp': 20}


def run(c):
    import pywt
    t, w = c['t'], c['w']
    if t == 'psi':
        W = pywt.ContinuousWavelet(w, dtype=core.DT[c['dt']])
        lo, hi = -BND[w[:4]], BND[w[:4]]
        if c['b']:
            W.lower_bound, W.upper_bound = lo, hi = c['b']
        psi, x = W.wavefun(c['level'], c['length']) if c['length'] else W.wavefun(c['level'])
        n = c['length'] or 2 ** c['level']
        e = core.diff(x, np.linspace(lo, hi, n), 1e-6 if c['dt'] == 'f4' else 1e-14, 'grid')
        if e:
            return e
        want = closed(w, x)
        cp = w[:4] in ('cgau', 'cmor', 'shan', 'fbsp')
        if W.complex_cwt != cp or (np.asarray(psi).dtype.kind == 'c') != cp:
            return f'complex flag {W.complex_cwt}, psi dtype {psi.dtype}'
        # rounding of the argument of the oscillating factors grows with |x|
        return core.diff(psi, want, 3e-4 if c['dt'] == 'f4' else 1e-11, f'{w} psi')
    if t == 'moments':
        W = pywt.ContinuousWavelet(w)
        if w == 'morl':
            return None
        W.lower_bound, W.upper_bound = -12, 12
        psi, x = W.wavefun(length=4801)
        h = x[1] - x[0]
        if abs((np.abs(psi) ** 2).sum() * h - 1) > 1e-9:
            return f'energy {(np.abs(psi) ** 2).sum() * h}'
        if abs(psi.sum() * h) > 1e-9:
            return f'mean {psi.sum() * h}'
        return None
    if t == 'integ':
        D = pywt.DiscreteContinuousWavelet(w)
        f = D.wavefun(c['p'])
        got = pywt.integrate_wavelet(w, c['p'])
        x = f[-1]
        step = x[1] - x[0]
        ps = {2: [0], 3: [1], 5: [1, 3]}[len(f)]
        if len(got) != len(ps) + 1:
            return f'integrate_wavelet returned {len(got)} items'
        for g, i in zip(got, ps):
            e = core.diff(g, np.cumsum(f[i]) * step, 1e-12, 'integral')
            if e:
                return e
        e = core.diff(got[-1], x, 0.0, 'grid')
        if e:
            return e
        psi = f[ps[0]]
        sp = np.abs(np.fft.fft(psi))
        sp[0] = -1
        k = int(np.argmax(sp))
        k = min(k, len(psi) - k)
        cf = pywt.central_frequency(w, c['p'])
        # the dominant bin may be tied with its mirror image
        if abs(cf - k / (x[-1] - x[0])) > 1e-9 * max(1, abs(cf)) and sp.max() > np.sort(sp)[-3] * (1 + 1e-9):
            return f'central_frequency {cf}, expected {k / (x[-1] - x[0])}'
        e = core.diff(pywt.scale2frequency(w, [1, 2.5], c['p']) if False else pywt.scale2frequency(w, 2.5, c['p']), cf / 2.5, 1e-13, 's2f')
        return e or core.diff(pywt.frequency2scale(w, 2.5, c['p']), cf / 2.5, 1e-13, 'f2s')
    if t == 'bad':
        return core.raises(lambda: pywt.cwt(np.arange(8.), c['sc'], w), ValueError)
    x = core.data(c['shape'], c['dt'] if c['dt'] != 'i8' else 'f8', c['seed'])
    if c['dt'] == 'i8':
        x = x.astype(int)
    v = np.asfortranarray(x) if c['lay'] == 'F' else x[..., ::-1].copy()[..., ::-1] if c['lay'] == 'rev' else x
    ax = c['axis']
    scales = c['sc'][0] if c['scalar'] else c['sc']
    sl = [c['sc'][0]] if c['scalar'] else c['sc']
    # reference integrated wavelet
    W = pywt.DiscreteContinuousWavelet(w)
    f = W.wavefun(10)
    psi, g = (f[0], f[1]) if len(f) == 2 else (f[1], f[2])
    step = g[1] - g[0]
    ip = np.conj(np.cumsum(psi) * step) if getattr(W, 'complex_cwt', False) else np.cumsum(psi) * step
    cplx = getattr(W, 'complex_cwt', False)
    rd = np.float32 if c['dt'] in ('f4', 'c8') else np.float64
    gd = np.asarray(g, rd)
    st = gd[1] - gd[0]
    rows = []
    lines = np.moveaxis(x, ax, -1)
    lead = lines.shape[:-1]
    small = False
    for s in sl:
        j = (np.arange(s * (gd[-1] - gd[0]) + 1) / (s * st)).astype(int)
        j = j[j < len(ip)]
        k = ip[j][::-1]
        if len(k) < 2:
            small = True
            break
        o = []
        for r in lines.reshape(-1, lines.shape[-1]):
            cv = np.convolve(r.astype(ref_w(r)), k)
            cf = -math.sqrt(s) * np.diff(cv)
            d = (len(cf) - len(r)) / 2
            cf = cf[math.floor(d):len(cf) - math.ceil(d)]
            o.append(cf)
        rows.append(np.moveaxis(np.array(o).reshape(lead + (-1,)), -1, ax))
    if small:
        return core.raises(lambda: pywt.cwt(v, scales, w, axis=ax), ValueError)
    want = np.array(rows)
    dt = {'i8': 'f8'}.get(c['dt'], c['dt'])
    if cplx and dt[0] == 'f':
        dt = 'c8' if dt == 'f4' else 'c16'
    tol = 5e-4 if rd == np.float32 else 1e-10
    x0 = x.copy()
    for me in ('conv', 'fft'):
        got, fr = pywt.cwt(v, scales, w, c['per'], me, ax) if c['seed'] % 2 else pywt.cwt(
            v, scales, W, sampling_period=c['per'], method=me, axis=ax)
        if want.dtype.kind == 'c' and np.dtype(dt if dt[0] != 'c' or True else dt).kind != 'c':
            return f'{me}: real output for complex transform'
        e = core.diff(got, want, tol, f'cwt {me}', core.DT[dt])
        if e:
            return e
        # per scale independence: each row alone
        cf = pywt.central_frequency(w, 10)
        e = core.diff(np.asarray(fr), np.array([cf / s / c['per'] for s in sl]), 1e-12, 'frequencies')
        if e:
            return e
        if len(sl) > 1:
            one, _ = pywt.cwt(v, [sl[-1]], w, c['per'], me, ax)
            if not np.array_equal(one[0], got[-1]):
                return f'{me}: row depends on the other scales'
    if not np.array_equal(x, x0):
        return 'cwt changed its input'
    return None


def ref_w(r):
    return np.complex128 if r.dtype.kind == 'c' else np.float64
