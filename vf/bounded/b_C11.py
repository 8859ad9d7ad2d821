import numpy as np
from . import core, ref
MODES = ref.MODES


def cases(tier, rng):
    q = tier == 'quick'
    for m in MODES:
        for N in range(1, 14 if q else 26):
            for L in (0, 1, 2, N - 1, N, N + 1, 2 * N - 1, 2 * N + 3, 5 * N + 2):
                for R in (0, 1, N - 1, N, 2 * N + 1, 4 * N + 3):
                    yield dict(k='1', N=N, L=L, R=R, mode=m, dtype=rng.choice(['f8', 'f8', 'c16', 'f4', 'i8', 'i4', 'list']))
    for i in range(9000 if q else 60000):
        nd = rng.choice([1, 2, 3, 4])
        yield dict(k='n', shape=[rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd)],
                   w=[[rng.choice([0, 0, 1, 2, 3, 9]), rng.choice([0, 0, 1, 2, 5, 8])] for _ in range(nd)],
                   form=rng.choice(['full', 'full', 'scalar', 'pair', 'one']), mode=[rng.choice(MODES)] * nd,
                   smode=True, dtype=rng.choice(['f8', 'c16', 'i8', 'f4']), seed=i)
    for i in range(6000 if q else 40000):
        yield dict(k='t', N=rng.randrange(1, 24), F=2 * rng.randrange(1, 8), mode=rng.choice(MODES), seed=i,
                   extra=rng.randrange(4))


def padref(x, w, modes):
    y = x.astype(ref.wide(x))
    for a, ((L, R), m) in enumerate(zip(w, modes)):
        def f(r):
            n = len(r)
            if m == 'periodization':
                if n % 2:
                    r = np.append(r, r[-1])
                    n += 1
                return np.array([r[k % n] for k in range(-L, n + R)])
            return ref.ext_range(r, -L, n + R, m)
        y = ref.along(f, y, a)
    return y


def run(c):
    import pywt
    if c['k'] == '1':
        D = 'f8' if c['dtype'] == 'list' else c['dtype']
        x = core.data([c['N']], D, c['N'] * 7 + c['L'])
        v = x.tolist() if c['dtype'] == 'list' else x
        if max(0, c['L']) != c['L'] or c['R'] < 0:
            return None
        got = pywt.pad(v, (c['L'], c['R']), c['mode'])
        return core.diff(got, padref(x, [(c['L'], c['R'])], [c['mode']]), 0.0, 'pad',
                         D if c['dtype'] not in ('list', 'i4', 'i8') else None)
    if c['k'] == 'n':
        nd = len(c['shape'])
        x = core.data(c['shape'], c['dtype'], c['seed'])
        w = [tuple(p) for p in c['w']]
        if c['form'] == 'scalar':
            w = [(w[0][0], w[0][0])] * nd
            arg = w[0][0]
        elif c['form'] == 'pair':
            w = [w[0]] * nd
            arg = w[0]
        elif c['form'] == 'one':
            w = [w[0]] * nd
            arg = (w[0],)
        else:
            arg = w
        mo = [c['mode'][0]] * nd if c['smode'] else c['mode']
        if np.prod([n + a + b for n, (a, b) in zip(c['shape'], w)]) > 20000:
            return None
        got = pywt.pad(x, arg, mo[0] if c['smode'] else tuple(mo))
        return core.diff(got, padref(x, w, mo), 0.0, 'pad')
    # transform of the signal == interior of the zero-extension transform of the padded signal
    N, F, m = c['N'], c['F'], c['mode']
    if m.endswith('reflect') and N < 2:
        return None
    w, b = core.wav([F, c['seed'] % 3])
    x = core.data([N], 'f8', c['seed'])
    e = F + c['extra']
    e += e % 2                                    # even shift keeps the sampling phase
    xp = pywt.pad(x, (e, e + (N % 2)), m)
    for band, got in zip((0, 1), pywt.dwt(x, w, m)):
        z = pywt.dwt(xp, w, 'zero')[band]
        if m == 'periodization':
            # coefficient o uses positions F/2+2o-j; zero mode coefficient q uses 2q+1-j
            if (F // 2 + e - 1) % 2:
                xp2 = xp[1:]
                z = pywt.dwt(xp2, w, 'zero')[band]
                q0 = (F // 2 + e - 2) // 2
            else:
                q0 = (F // 2 + e - 1) // 2
        else:
            q0 = e // 2
        r = core.diff(got, z[q0:q0 + len(got)], 0.0, f'band {band} of dwt vs zero-mode transform of the padded signal')
        if r:
            return r
    return None
