import numpy as np
from . import core

SPEC = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1e-300, -1e-300, 1e-170, 5e-324, 1e300, 1e-40, 1e38,
        0.1, 1 / 3, 2.0000000000000004, 1.9999999999999998]
MODES = ['soft', 'hard', 'garrote', 'garotte', 'greater', 'less']


def cases(tier, rng):
    n = 37500 if tier == 'quick' else 500000
    for i in range(n):
        m = MODES[i % 6] if i % 4 else 'firm'
        shape = rng.choice([[1], [2], [3], [7], [2, 3], [1, 1], [3, 2, 2], [0], [0, 3], [5, 1]])
        D = rng.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i8', 'i4', 'list'])
        vals = []
        for _ in range(int(np.prod(shape))):
            r = rng.random()
            v = rng.choice(SPEC) if r < .6 else rng.uniform(-4, 4) if r < .8 else float(rng.randrange(-4, 5))
            u = rng.choice(SPEC + [0.0] * 10) if D.startswith('c') else 0.0
            if D.startswith('i'):
                v = float(rng.randrange(-5, 6))
            vals.append([v, u])
        th = rng.choice([0, 0.0, 1, 1.0, 0.5, 2, 2.0, 3.0, 1e-300, 1e-170, 1e300, rng.uniform(0, 4)])
        hi = rng.choice([th, th + 1, th * 2, 2, 3.0, float('inf'), 5, th + rng.uniform(0, 2)])
        yield dict(m=m, shape=shape, D=D, v=vals, th=th, hi=max(th, hi), sub=rng.choice([0, 0, 0, 0.0, 1, 3.0, -2, 100]),
                   lay=rng.choice(['C', 'F', 'rev', 'step']), ro=rng.random() < .3)


def want1(m, x, th, hi, sub):
    """documented rule for one element, in exact-ish arithmetic (numpy longdouble)"""
    L = np.longdouble
    a = np.hypot(L(x.real), L(x.imag)) if isinstance(x, complex) else abs(L(x))
    t = L(th)
    z = (lambda s: complex(L(x.real) * s, L(x.imag) * s)) if isinstance(x, complex) else (lambda s: L(x) * s)
    if m == 'soft':
        if a < t:
            return sub
        return z(0) if a == 0 else z((a - t) / a)
    if m in ('garrote', 'garotte'):
        if a < t:
            return sub
        return z(0) if a == 0 else z((1 - t / a) * (1 + t / a))
    if m == 'hard':
        return sub if a < t else x
    if m == 'greater':
        return sub if x < th else x
    if m == 'less':
        return sub if x > th else x
    if m == 'firm':
        if a <= t:
            return z(0)
        if a > hi:
            return x
        if np.isinf(hi):
            return z((a - t) / a)
        return z(L(hi) * ((a - t) / a) / (L(hi) - t))


def run(c):
    import pywt, random
    D = 'f8' if c['D'] == 'list' else c['D']
    dt = core.DT.get(D) or np.dtype(D)
    v = np.array([complex(*p) for p in c['v']], complex)
    with np.errstate(all='ignore'):
        x = (v if D.startswith('c') else v.real).astype(dt)
        x = np.where(np.isfinite(x), x, 1).astype(dt).reshape(c['shape'])
    lay = c['lay']
    if c['D'] == 'list':
        if not x.size:
            return None
        arg = x.tolist()
    else:
        from .b_C06 import layout
        arg = layout(x, lay, random.Random(1)) if x.size else x.copy()
        arg.flags.writeable = not c['ro']
    m, th, hi, sub = c['m'], c['th'], c['hi'], c['sub']
    if D.startswith('c') and m in ('greater', 'less'):
        return core.raises(lambda: pywt.threshold(arg, th, m, sub), ValueError)
    before = np.array(arg, copy=True)
    with np.errstate(all='raise', under='ignore', over='ignore'):
        try:
            got = pywt.threshold_firm(arg, th, hi) if m == 'firm' else pywt.threshold(arg, th, m, sub)
        except FloatingPointError as e:
            return f'floating point error escapes: {e}'
    if not np.array_equal(before, np.array(arg)):
        return 'input array changed'
    if not isinstance(got, np.ndarray) or got.shape != x.shape:
        return f'shape {np.shape(got)}, expected {x.shape}'
    if D in core.DT and m not in ('x',) and sub == 0 and got.dtype != dt:
        return f'dtype {got.dtype}, expected {np.dtype(dt)}'
    if D == 'f4' or D == 'c8':
        eps, th, hi = 3e-6, float(np.float32(th)) if np.isfinite(np.float32(th)) else th, hi
        tiny = 1e-44
    else:
        eps, tiny = 1e-14, 1e-322
    for idx in np.ndindex(*x.shape):
        e = x[idx].item()
        w = want1(m, e, th, hi, sub)
        g = got[idx].item()
        if np.isnan(g):
            return f'nan at {idx} for {e!r}'
        if D in ('f4', 'c8', 'c16') or (m == 'firm' and hi - th < 1e-3 * hi):
            # comparisons in reduced precision / by hypot may go either way within rounding of the tie
            a = abs(e)
            if any(np.isfinite(t) and abs(a - t) <= 4e-7 * max(a, t) + 1e-44 for t in (c['th'], c['hi'], th, hi)) and m not in ('greater', 'less') \
                    and not (D == 'c16' and e.imag == 0):
                continue
        scale = abs(w)
        if m in ('soft', 'garrote', 'garotte', 'firm') and w is not sub:
            scale = max(scale, abs(e))         # cancellation: relative to the input
            if m == 'firm' and np.isfinite(hi) and hi > th and abs(e) <= hi:
                scale = max(scale, abs(e) * hi / (hi - th) if (hi - th) * 1e290 > hi else np.inf)
        if not np.isfinite(scale) or (D in ('f4', 'c8') and scale > 3e37) or scale > 1e307:
            continue
        if abs(complex(g) - complex(w)) > eps * scale + tiny:
            return f'{m} at {idx}: {e!r} -> {g!r}, expected {w!r} (value {th}, {hi}, substitute {sub})'
    return None
