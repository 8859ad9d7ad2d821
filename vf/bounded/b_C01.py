import numpy as np
from . import core, ref
MODES = ref.MODES


def ok_mode(mode, N):
    return not (mode in ('reflect', 'antireflect') and N == 1)


def cases(tier, rng):
    dts = ['f8', 'c16', 'f4', 'c8']
    n = 0
    Nmax, Fmax = (48, 40) if tier == 'quick' else (130, 110)
    for N in range(1, Nmax):
        for F in range(2, Fmax + 1, 2):
            for m in MODES:
                if ok_mode(m, N):
                    n += 1
                    yield dict(fn='dwt', N=N, w=[F, n % 3], mode=m, dtype=dts[n % 4], seed=n)
                    if (N * 7 + F) % 5 == 0:
                        yield dict(fn='downcoef', N=N, w=[F, 1], mode=m, dtype=dts[(n // 4) % 4], seed=n,
                                   part='ad'[n % 2], level=1 + n % 3)
    # lengths and filters far outside the grid
    for k in range(720 if tier == 'quick' else 6000):
        N = rng.choice([rng.randrange(1, 60), rng.randrange(60, 700), rng.choice([255, 256, 257, 1023, 1024, 1025, 2049, 4096, 4097])])
        F = rng.choice([2, 4, 6, 8, 20, 38, 40, 62, 76, 102, 2 * rng.randrange(1, 80)])
        m = rng.choice(MODES)
        if ok_mode(m, N):
            yield dict(fn=rng.choice(['dwt', 'downcoef']), N=N, w=[F, 5], mode=m, dtype=rng.choice(dts), seed=k,
                       part=rng.choice('ad'), level=1)
    # one-hot and extreme magnitude data, built-in wavelets, array-likes and strided views
    for k, name in enumerate(core.builtin()):
        for N in ((1 + k % 9, 10 + k % 31) if tier == 'quick' else (1, 2, 3, 5, 8, 13, 64, 101)):
            m = MODES[k % 9]
            if ok_mode(m, N):
                yield dict(fn='dwt', N=N, w=name, mode=m, dtype=dts[k % 4], seed=k)
    for k in range(80):
        N = rng.randrange(2, 40)
        yield dict(fn=('dwt', 'downcoef')[k % 2], N=N, w=[2 * rng.randrange(1, 9), 2], mode=MODES[k % 9],
                   dtype=dts[k % 4], seed=k, view=['rev', 'step2', 'list', 'int', 'offset', 'bswap'][k % 6], part='ad'[k // 2 % 2],
                   level=1, modeform=k % 3)


def view(x, kind):
    if kind == 'rev':
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == 'step2':
        b = np.full(2 * len(x), 77, x.dtype)
        b[::2] = x
        return b[::2]
    if kind == 'offset':
        b = np.full(len(x) + 3, 55, x.dtype)
        b[2:-1] = x
        return b[2:-1]
    if kind == 'list':
        return x.tolist()
    if kind == 'int' and x.dtype.kind == 'f':
        return x.astype(np.int64)
    if kind == 'bswap':
        return x.astype(x.dtype.newbyteorder())
    return x


def expect_dtype(v):
    d = np.asarray(v).dtype.newbyteorder('=')
    return d if d in (np.dtype('f4'), np.dtype('f8'), np.dtype('c8'), np.dtype('c16')) else np.dtype('f8')


def run(c):
    import pywt
    w, b = core.wav(c['w'])
    x = core.data((c['N'],), c['dtype'], c['seed'])
    v = view(x, c.get('view'))
    mode = c['mode']
    marg = [mode, getattr(pywt.Modes, mode), mode][c.get('modeform', 0)]
    dt = expect_dtype(v)
    tol = core.tol_of(dt, core.is_exact(c['w']))
    if c['fn'] == 'dwt':
        a, d = pywt.dwt(v, w, marg)
        return (core.diff(a, ref.dwt1(x, b[0], mode), tol, 'cA', dt) or
                core.diff(d, ref.dwt1(x, b[1], mode), tol, 'cD', dt))
    part, lev = c['part'], c['level']
    cur, want_err = x, False
    for i in range(lev):
        if not ok_mode(mode, len(cur)):
            want_err = True
            break
        f = b[0] if (part == 'a' or i < lev - 1) else b[1]
        cur = ref.dwt1(cur, f, mode)
    if want_err:
        return core.raises(lambda: pywt.downcoef(part, v, w, marg, level=lev), ValueError)
    big = 1 if not cur.size else float(np.max(np.abs(cur)))
    if big > 2 ** 22:
        tol = core.tol_of(dt)
    return core.diff(pywt.downcoef(part, v, w, marg, level=lev), cur, tol, f'downcoef {part}{lev}', dt)
