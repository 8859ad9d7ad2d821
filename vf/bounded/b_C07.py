import itertools
import numpy as np
from . import core, ref

ORTH = ['haar', 'db2', 'db5', 'sym4', 'coif2', 'db20']


def cases(tier, rng):
    q = tier == 'quick'
    dts = ['f8', 'c16', 'f4', 'c8']
    k = 0
    for lev in (1, 2, 3, 4, 5):
        for mult in (1, 2, 3, 4, 5, 6, 7, 9):
            for F in (2, 4, 6, 8, 10, 14, 20, 38) if q else range(2, 60, 2):
                N = mult * 2 ** lev
                if N > (200 if q else 500):
                    continue
                k += 1
                start = k % lev
                yield dict(k='def', shape=[N], w=[F, k % 3], level=lev - start, start=start, dtype=dts[k % 4], seed=k, axes=[-1], trim=k % 2, fn='swt')
    for i in range(3000 if q else 40000):
        nd = rng.choice([1, 2, 2, 3])
        fn = rng.choice(['swt', 'swtn', 'swt2']) if nd > 1 else rng.choice(['swt', 'swtn'])
        lev = rng.choice([1, 2, 3])
        shape = [rng.choice([1, 2, 3, 5]) for _ in range(nd)]
        na = {'swt': 1, 'swt2': 2}.get(fn) or rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        for a in axes:
            shape[a] = 2 ** lev * rng.choice([1, 2, 3] if nd < 3 else [1])
        start = rng.randrange(lev)
        yield dict(k='def', shape=shape, w=[2 * rng.randrange(1, 9), rng.randrange(3)], level=lev - start, start=start, dtype=rng.choice(dts),
                   seed=i, axes=[a - nd if rng.random() < .3 else a for a in axes], trim=rng.randrange(2), fn=fn,
                   lay=rng.choice(['C', 'F', 'T', 'rev', 'step', 'off']))
    names = [n for n in core.builtin() if n != 'dmey']
    for i in range(5000 if q else 50000):
        nd = rng.choice([1, 1, 2, 2, 3])
        fn = rng.choice(['swt', 'swtn', 'swt2']) if nd > 1 else rng.choice(['swt', 'swtn'])
        lev = rng.choice([1, 2, 3, 4]) if nd < 3 else rng.choice([1, 2])
        shape = [rng.choice([1, 2, 3, 5]) for _ in range(nd)]
        na = {'swt': 1, 'swt2': 2}.get(fn) or rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        for a in axes:
            shape[a] = 2 ** lev * rng.choice([1, 2, 3] if nd < 3 else [1])
        orth = rng.random() < .4
        per = fn == 'swtn' and rng.random() < .4
        ws = [rng.choice(ORTH if orth else names) for _ in (axes if per else [0])]
        if per and rng.random() < .5:
            # different wavelets of equal length
            ws = rng.choice([['db4', 'sym4', 'db4'], ['sym6', 'coif2', 'db6'], ['db3', 'sym3', 'db3'], ['sym4', 'db4', 'sym4'],
                             ['sym5', 'db5', 'sym5'], ['db9', 'coif3', 'sym9']])[:len(axes)]
            if not orth:
                ws = rng.choice([['bior2.2', 'db3', 'rbio2.2'], ['bior1.3', 'rbio1.3', 'db3'], ['bior3.3', 'rbio3.3', 'db4']])[:len(axes)]
        yield dict(k='inv', shape=shape, w=ws, level=lev, start=0, dtype=rng.choice(dts), seed=i,
                   axes=[a - nd if rng.random() < .3 else a for a in axes], trim=rng.randrange(2), fn=fn, norm=int(orth and rng.random() < .7))


def spec(x, b, axes, level, start):
    """list of dicts, finest last computed, in computing order"""
    out, cur = [], x.astype(ref.wide(x))
    for j in range(start + 1, start + level + 1):
        co = {'': cur}
        for a, bb in zip(axes, b):
            co = {k + s: ref.along(lambda r: ref.swt1(r, f, j), y, a) for k, y in co.items() for s, f in (('a', bb[0]), ('d', bb[1]))}
        out.append(co)
        cur = co['a' * len(axes)]
    return out


def run(c):
    import pywt, random
    from .b_C06 import layout
    nd = len(c['shape'])
    x = core.data(c['shape'], c['dtype'], c['seed'], 3)
    axes = c['axes']
    trim, fn, lev = bool(c['trim']), c['fn'], c['level']
    ax = dict(axis=axes[0]) if fn == 'swt' else dict(axes=tuple(axes))
    if c['k'] == 'def':
        w, b = core.wav(c['w'])
        v = layout(x, c.get('lay'), random.Random(c['seed']))
        want = spec(x, [b] * len(axes), axes, lev, c['start'])
        mx = max(float(np.max(np.abs(u))) for d in want for u in d.values())
        tol = core.tol_of(c['dtype'], mx < 2 ** 22)
        got = getattr(pywt, fn)(v, w, lev, start_level=c['start'], trim_approx=trim, **ax)
        n = len(axes)
        if len(got) != lev + trim:
            return f'{len(got)} entries for level {lev}, trim {trim}'
        if trim:
            e = core.diff(got[0], want[-1]['a' * n], tol, 'approx', c['dtype'])
            if e:
                return e
            got = got[1:]
        for j, g in enumerate(reversed(got)):
            if fn == 'swt':
                g = {'d': g} if trim else dict(zip('ad', g))
            elif fn == 'swt2':
                g = dict(zip(('da', 'ad', 'dd'), g)) if trim else dict(aa=g[0], da=g[1][0], ad=g[1][1], dd=g[1][2])
            keys = set(want[j]) - ({'a' * n} if trim else set())
            if set(g) != keys:
                return f'level {j}: keys {sorted(g)}'
            for k in keys:
                e = core.diff(g[k], want[j][k], tol, f'level {j} {k}', c['dtype'])
                if e:
                    return e
        return None
    names = c['w']
    ws = [core.wav(n)[0] for n in names]
    warg = ws[0] if len(ws) == 1 else tuple(ws)
    kw = dict(trim_approx=trim, **ax)
    norm = bool(c['norm'])
    co = getattr(pywt, fn)(x, warg, lev, norm=norm, **kw)
    y = getattr(pywt, 'i' + fn)(co, warg, norm=norm, **ax)
    e = core.diff(y, x, max(core.tol_of(c['dtype']), 4e-9), f'i{fn}({fn}(x))', c['dtype'])
    if e:
        return e
    if norm and trim:
        en = float(np.sum(np.abs(co[0]) ** 2))
        for g in co[1:]:
            for u in ([g] if isinstance(g, np.ndarray) else g.values() if isinstance(g, dict) else g):
                en += float(np.sum(np.abs(u) ** 2))
        ex = float(np.sum(np.abs(x) ** 2))
        if abs(en - ex) > (1e-3 if x.dtype.itemsize <= 4 or x.dtype == np.complex64 else 1e-7) * (1 + ex):
            return f'energy {en}, expected {ex}'
    return None
