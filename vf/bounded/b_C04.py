import numpy as np
from . import core, ref
MODES = ref.MODES


def cases(tier, rng):
    q = tier == 'quick'
    dts = ['f8', 'c16', 'f4', 'c8']
    k = 0
    for n in range(1, 40 if q else 90):
        for F in range(2, 41 if q else 100, 2):
            for m in ('periodization', MODES[(n + F // 2) % 9]):
                if ref.idwt_len(n, F, m) >= 1:
                    k += 1
                    yield dict(fn='idwt', n=n, w=[F, k % 3], mode=m, dtype=dts[k % 4], bands=['ad', 'a', 'd', 'ad'][k // 4 % 4], seed=k)
            if (n + F) % 4 == 0:
                k += 1
                yield dict(fn='upcoef', n=n, w=[F, k % 3], dtype=dts[k // 3 % 4], part='ad'[k % 2], level=1 + k % 3,
                           take=[0, 1, n, 2 * n, 2 * n + F, 10 ** 6][k // 2 % 6], seed=k)
    for m in MODES:
        for n in range(1, 12):
            for F in (2, 4, 6, 8):
                if ref.idwt_len(n, F, m) >= 1:
                    yield dict(fn='idwt', n=n, w=[F, 1], mode=m, dtype='f8', bands='ad', seed=n)
    for i in range(720 if q else 6000):
        n = rng.choice([rng.randrange(1, 90), rng.randrange(90, 900), 1024, 1025, 2049])
        F = rng.choice([2, 4, 12, 40, 76, 102, 2 * rng.randrange(1, 70)])
        m = rng.choice(MODES + ['periodization'] * 4)
        if ref.idwt_len(n, F, m) >= 1:
            yield dict(fn='idwt', n=n, w=[F, 4], mode=m, dtype=rng.choice(dts), bands=rng.choice(['ad', 'a', 'd']), seed=i)
        yield dict(fn='upcoef', n=n, w=[F, 4], dtype=rng.choice(dts), part=rng.choice('ad'), level=1, take=rng.choice([0, n, 2 * n]), seed=i)
    for i, name in enumerate(core.builtin()):
        for n in ((60, 3 + i % 70) if q else (1, 2, 3, 7, 40, 61, 64)):
            for m in (MODES[i % 9], 'periodization'):
                if ref.idwt_len(n, len(core.wav(name)[1][0]), m) >= 1:
                    yield dict(fn='idwt', n=n, w=name, mode=m, dtype=dts[i % 4], bands='ad', seed=i)
    from .b_C01 import view
    for i in range(60):
        yield dict(fn='idwt', n=rng.randrange(8, 30), w=[2 * rng.randrange(1, 8), 2], mode=MODES[i % 9], dtype=dts[i % 4],
                   bands='ad', seed=i, view=['rev', 'step2', 'list', 'int', 'offset'][i % 5])


def run(c):
    import pywt
    from .b_C01 import view, expect_dtype
    w, b = core.wav(c['w'])
    n = c['n']
    exact = core.is_exact(c['w'])
    a = core.data((n,), c['dtype'], c['seed'])
    d = core.data((n,), c['dtype'], c['seed'] + 77)
    if c['fn'] == 'idwt':
        if c.get('view') == 'list' and c['dtype'].startswith('c'):
            return None
        va, vd = view(a, c.get('view')), view(d, c.get('view'))
        if 'a' not in c['bands']:
            a = va = None
        if 'd' not in c['bands']:
            d = vd = None
        want = ref.idwt1(a, d, b[2], b[3], c['mode'])
        dt = expect_dtype(va if va is not None else vd)
        return core.diff(pywt.idwt(va, vd, w, c['mode']), want, core.tol_of(dt, exact), f"idwt {c['bands']}", dt)
    cur = a
    for i in range(c['level']):
        cur = ref.upcoef_full(cur, b[2] if (c['part'] == 'a' or i > 0) else b[3])
    t = c['take']
    tol = core.tol_of(c['dtype'], exact and (not cur.size or np.max(np.abs(cur)) < 2 ** 22))
    if 0 < t < len(cur):
        lo = (len(cur) - t) // 2
        cur = cur[lo:lo + t]
    return core.diff(pywt.upcoef(c['part'], a, w, level=c['level'], take=t), cur, tol, 'upcoef', c['dtype'])
