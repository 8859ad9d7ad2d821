import itertools
import numpy as np
from . import core, ref
from .b_C01 import ok_mode
MODES = ref.MODES


def spec_max_level(n, F):
    if F < 2:
        return 0
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def spec_swt_max(n):
    j = 0
    while n % 2 == 0:
        n //= 2
        j += 1
    return j


def cases(tier, rng):
    q = tier == 'quick'
    for N in range(1, 130 if q else 1100):
        yield dict(k='scalar', N=N)
    for k in range(3600 if q else 36000):
        F = 2 * rng.randrange(1, 60)
        L = rng.randrange(0, 22)
        yield dict(k='scalar', N=max(1, (F - 1) * 2 ** L + rng.choice([-1, 0, 1])), F=[F, F + 1])
    for e in range(1, 47):
        for dlt in (-1, 0, 1):
            yield dict(k='scalar', N=2 ** e + dlt, F=[2, 3, 8])
            yield dict(k='scalar', N=3 * 2 ** e + dlt, F=[2, 4, 103])
    wl = [2, 4, 6, 10, 16, 'haar', 'db4', 'bior2.2', 'sym5', 'coif1']
    for k in range(4800 if q else 48000):
        nd = rng.choice([1, 1, 2, 2, 3])
        shape = [rng.choice([rng.randrange(1, 12), rng.randrange(2, 70)]) for _ in range(nd)]
        if nd == 3:
            shape = [min(s, 20) for s in shape]
        na = rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        axes = [a - nd if rng.random() < .3 else a for a in axes]
        per = rng.random() < .5
        w = [rng.choice(wl) for _ in axes] if per else [rng.choice(wl)] * na
        mo = [rng.choice(MODES) for _ in axes] if rng.random() < .5 else [rng.choice(MODES)] * na
        if rng.random() < .3:
            # equal sizes and filter lengths: only the mode or the axis tells the axes apart
            shape = [shape[0]] * nd
            if rng.random() < .7:
                f = rng.choice([2, 4, 6, 10])
                w = [[f, j] for j in range(na)]
            mo = [rng.choice(['periodization', 'periodization'] + MODES) for _ in axes]
        yield dict(k='shapes', shape=shape, axes=(None if na == nd and rng.random() < .3 and False else axes), w=w,
                   modes=mo, level=rng.choice([None, None, 0, 1, 2, 3]))
    for shape, axes in (((8, 12), (0, -2)), ((9, 7, 16), (2, 0, -1)), ((10,), (0, -1)), ((8, 9), (1, 1)), ((12, 12), (-1, 0, 1))):
        yield dict(k='alias', shape=shape, axes=axes)
    for k in range(2400 if q else 24000):
        yield dict(k='out', N=rng.randrange(1, 50), w=rng.choice(wl), mode=rng.choice(MODES),
                   dtype=rng.choice(['f4', 'f8', 'c8', 'c16']), n=rng.randrange(1, 40), level=rng.randrange(1, 4))


def run(c):
    import pywt
    if c['k'] == 'scalar':
        N = c['N']
        for F in c.get('F') or [1, 2, 3, 4, 5, 6, 8, 10, 16, 20, 38, 76, 102]:
            want = spec_max_level(N, F)
            got = pywt.dwt_max_level(N, F) if F >= 2 else None
            if F >= 2 and got != want:
                return f'dwt_max_level({N},{F}) = {got}, expected {want}'
            for m in MODES:
                got = pywt.dwt_coeff_len(N, F, m)
                want = ref.coeff_len(N, F, m)
                if got != want:
                    return f'dwt_coeff_len({N},{F},{m}) = {got}, expected {want}'
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = pywt.swt_max_level(N)
        if got != spec_swt_max(N):
            return f'swt_max_level({N}) = {got}, expected {spec_swt_max(N)}'
        return None
    if c['k'] == 'out':
        w, b = core.wav(c['w'])
        F, mode, N, n = len(b[0]), c['mode'], c['N'], c['n']
        if ok_mode(mode, N):
            x = core.data((N,), c['dtype'], N)
            for nm, r in zip('ad', pywt.dwt(x, w, mode)):
                if r.shape != (ref.coeff_len(N, F, mode),):
                    return f'dwt c{nm} length {r.shape}'
        L = ref.idwt_len(n, F, mode)
        y = core.data((n,), c['dtype'], n)
        if L >= 1:
            if pywt.idwt(y, y, w, mode).shape != (L,):
                return f'idwt length, n={n} F={F} {mode}'
        r = pywt.upcoef('ad'[n % 2], y, w, level=c['level'])
        u = n
        for _ in range(c['level']):
            u = 2 * u + F - 2
        if len(r) != u:
            return f'upcoef length {len(r)}, expected {u}'
        z = max(1, N // 8) * 8
        lev = 1 + N % 3
        for a, d in pywt.swt(core.data((z,), c['dtype'], 1), w, lev):
            if a.shape != (z,) or d.shape != (z,):
                return f'swt shape {a.shape} {d.shape}, expected {(z,)}'
        return None
    if c['k'] == 'alias':
        # the same axis twice: the predictor and the transform agree (both refuse, or the same shapes)
        def outcome(f):
            try:
                return f()
            except ValueError:
                return 'refused'
        sh, ax = tuple(c['shape']), tuple(c['axes'])
        a = outcome(lambda: [tuple(v) if not isinstance(v, dict) else {k: tuple(t) for k, t in v.items()} for v in pywt.wavedecn_shapes(sh, 'db2', level=1, axes=ax)])
        b = outcome(lambda: [v.shape if not isinstance(v, dict) else {k: t.shape for k, t in v.items()} for v in pywt.wavedecn(np.zeros(sh), 'db2', level=1, axes=ax)])
        return None if a == b else f'wavedecn_shapes {a}, wavedecn {b} for axes {ax}'
    shape, axes, level = tuple(c['shape']), c['axes'], c['level']
    ws = [core.wav(w)[0] for w in c['w']]
    Fs = [len(core.wav(w)[1][0]) for w in c['w']]
    x = np.zeros(shape)
    kw = dict(mode=tuple(c['modes']), level=level, axes=axes)
    nax = [a % len(shape) for a in axes]
    # specification: levels and shapes
    L = level if level is not None else min(spec_max_level(shape[a], F) for a, F in zip(nax, Fs))
    cur, want, bad = list(shape), [], False
    for i in range(L):
        if any(not ok_mode(m, cur[a]) for a, m in zip(nax, c['modes'])):
            bad = True
            break
        for a, F, m in zip(nax, Fs, c['modes']):
            cur[a] = ref.coeff_len(cur[a], F, m)
        want.append(tuple(cur))
    if bad:
        return core.raises(lambda: pywt.wavedecn(x, tuple(ws), **kw), ValueError)
    sh = pywt.wavedecn_shapes(shape, tuple(ws), **kw)
    keys = {''.join(p) for p in itertools.product('ad', repeat=len(axes))} - {'a' * len(axes)}
    exp = [tuple(cur)] + [{k: s for k in keys} for s in reversed(want)]
    if [tuple(sh[0])] + [{k: tuple(v) for k, v in d.items()} for d in sh[1:]] != exp:
        return f'wavedecn_shapes = {sh}, expected {exp}'
    co = pywt.wavedecn(x, tuple(ws), **kw)
    got = [co[0].shape] + [{k: v.shape for k, v in d.items()} for d in co[1:]]
    if got != exp:
        return f'wavedecn shapes {got}, expected {exp}'
    tot = int(np.prod(exp[0])) + sum(int(np.prod(s)) for d in exp[1:] for s in d.values())
    for arg in (sh, co):
        if pywt.wavedecn_size(arg) != tot:
            return f'wavedecn_size = {pywt.wavedecn_size(arg)}, expected {tot}'
    mx = min(spec_max_level(shape[a], F) for a, F in zip(nax, Fs))
    if pywt.dwtn_max_level(shape, tuple(ws), axes) != mx:
        return f'dwtn_max_level = {pywt.dwtn_max_level(shape, tuple(ws), axes)}, expected {mx}'
    if len(set(c['w'] if all(isinstance(i, str) for i in c['w']) else map(str, c['w']))) == 1 and len(set(c['modes'])) == 1:
        if len(axes) == 1:
            n1 = pywt.wavedec(x, ws[0], c['modes'][0], level, axis=axes[0])
            if [v.shape for v in n1] != [exp[0]] + [d['d'] for d in exp[1:]]:
                return f'wavedec shapes {[v.shape for v in n1]}'
        if len(axes) == 2:
            n2 = pywt.wavedec2(x, ws[0], c['modes'][0], level, axes=tuple(axes))
            if [n2[0].shape] + [t[0].shape for t in n2[1:]] != [exp[0]] + [d['dd'] for d in exp[1:]]:
                return 'wavedec2 shapes'
    return None
