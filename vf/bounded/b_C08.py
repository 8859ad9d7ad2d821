import itertools
import numpy as np
from . import core, ref
from .b_C01 import ok_mode
from .b_C06 import layout
MODES = ref.MODES
FNS = ['wavedec', 'wavedec2', 'wavedecn', 'fswavedecn', 'waverec', 'waverec2', 'waverecn', 'fswaverecn',
       'rt', 'rt2', 'rtn', 'rtfs']
NAMED = ['haar', 'db2', 'db3', 'sym4', 'coif1', 'bior1.3', 'bior2.2', 'bior3.1', 'rbio2.4', 'rbio3.3', 'bior6.8', 'db7']


def TOL(c):
    # integer data: float64 is exact; float32 values may exceed 2**24 after several levels and axes
    return 2e-4 if c['dtype'] in ('f4', 'c8') else 0.0


def cases(tier, rng):
    for i in range(28800 if tier == 'quick' else 300000):
        fn = FNS[i % 12]
        one = fn in ('wavedec', 'waverec', 'rt')
        two = fn in ('wavedec2', 'waverec2', 'rt2')
        nd = rng.choice([1, 1, 2, 3]) if one else rng.choice([2, 2, 3]) if two else rng.choice([1, 2, 2, 3])
        na = 1 if one else 2 if two else rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        shape = [rng.choice([1, 2, 3, 4]) for _ in range(nd)]
        for a in axes:
            shape[a] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 21, 30, 31] if nd < 3
                                  else [1, 2, 3, 4, 5, 7, 8, 9])
        big = i % 25 < 12 and i // 12 % 5 == 0 and nd < 3
        if big:
            # long axis: sizes and offsets beyond one byte
            shape = [rng.choice([1, 2, 3]) for _ in range(nd)]
            shape[rng.choice(axes)] = rng.choice([100, 129, 180, 230, 250, 255, 257, 300])
        elif rng.random() < .25:
            n = shape[axes[0]]
            for a in axes:
                shape[a] = n
        if fn.startswith('rt'):
            w = [rng.choice(NAMED) for _ in axes]
        else:
            w = [[2 * rng.randrange(1, 5), rng.randrange(3)] for _ in axes]
            if rng.random() < .3:
                w = [[w[0][0], j] for j in range(na)]
        lev = [rng.choice([0, 1, 1, 2, 2, 3]) for _ in axes]
        if rng.random() < .15:
            lev = None
        yield dict(fn=fn, shape=shape, axes=[a - nd if rng.random() < .3 else a for a in axes], w=w,
                   mode=[rng.choice(MODES) for _ in axes], lev=lev, dtype=rng.choice(['f8', 'f8', 'c16', 'f4', 'c8']),
                   seed=i, scalar=rng.random() < .3, none=rng.randrange(4), lay=rng.choice(['C', 'F', 'T', 'rev', 'step', 'list']))


def maxlev(n, F):
    L = 0
    while F >= 2 and (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


class Bad(Exception):
    pass


def step(x, banks, modes, axes):
    """one n-D decomposition step by definition -> dict"""
    co = {'': x}
    for a, b, m in zip(axes, banks, modes):
        new = {}
        for k, y in co.items():
            if not ok_mode(m, y.shape[a]):
                raise Bad
            new[k + 'a'] = ref.along(lambda r: ref.dwt1(r, b[0], m), y, a)
            new[k + 'd'] = ref.along(lambda r: ref.dwt1(r, b[1], m), y, a)
        co = new
    return co


def istep(co, banks, modes, axes):
    cur = dict(co)
    for n in range(len(axes) - 1, -1, -1):
        a, b, m = axes[n], banks[n], modes[n]
        new = {}
        for k in map(''.join, itertools.product('ad', repeat=n)):
            st = np.moveaxis(np.stack([cur[k + 'a'], cur[k + 'd']]), a + 1 if a >= 0 else a, -1)
            if ref.idwt_len(st.shape[-1], len(b[0]), m) < 1:
                raise Bad
            lead = st.shape[1:-1]
            rows = [ref.idwt1(p, q, b[2], b[3], m) for p, q in
                    zip(st[0].reshape(-1, st.shape[-1]), st[1].reshape(-1, st.shape[-1]))]
            new[k] = np.moveaxis(np.array(rows).reshape(lead + (-1,)), -1, a)
        cur = new
    return cur['']


def run(c):
    import pywt, random
    rng = random.Random(c['seed'])
    fn, axes, shape, nd = c['fn'], c['axes'], c['shape'], len(c['shape'])
    if c['scalar']:
        c = dict(c, w=[c['w'][0]] * len(axes), mode=[c['mode'][0]] * len(axes),
                 lev=None if c['lev'] is None else [c['lev'][0]] * len(axes))
    ws = [core.wav(w)[0] for w in c['w']]
    bs = [core.wav(w)[1] for w in c['w']]
    mo = c['mode']
    x = core.data(shape, c['dtype'], c['seed'], 3)
    v = layout(x, c['lay'], rng)
    fs = fn in ('fswavedecn', 'fswaverecn', 'rtfs')
    one = fn in ('wavedec', 'waverec', 'rt')
    two = fn in ('wavedec2', 'waverec2', 'rt2')
    W = ws[0] if c['scalar'] or one else tuple(ws)
    M = mo[0] if c['scalar'] or one else tuple(mo)
    ML = [maxlev(shape[a], len(b[0])) for a, b in zip(axes, bs)]
    exact = not fn.startswith('rt')
    kw = dict(axis=axes[0]) if one else dict(axes=tuple(axes))
    if not one and not two and axes == list(range(nd)) and c['seed'] % 3 == 0:
        kw = {}
    dt = None if c['lay'] == 'list' else c['dtype']
    if not exact:
        return roundtrip(c, x, v, W, M, kw, fs, one, two, dt)
    if fs:
        levs = list(ML) if c['lev'] is None else c['lev']
        kw2 = dict(kw, levels=None if c['lev'] is None else (c['lev'][0] if c['scalar'] else tuple(c['lev'])))
        # reference
        try:
            arr, slices = x.astype(ref.wide(x)), []
            for a, b, m, L in zip(axes, bs, mo, levs):
                cur, ds = arr, []
                for _ in range(L):
                    s = step(cur, [b], [m], [a])
                    cur = s['a']
                    ds.append(s['d'])
                parts = [cur] + ds[::-1]
                off = np.cumsum([0] + [p.shape[a] for p in parts])
                slices.append([slice(int(p), int(q)) for p, q in zip(off, off[1:])])
                arr = np.concatenate(parts, axis=a)
        except Bad:
            return core.raises(lambda: pywt.fswavedecn(v, W, M, **kw2), ValueError)
        r = pywt.fswavedecn(v, W, M, **kw2)
        if fn == 'fswavedecn':
            e = core.diff(r.coeffs, arr, TOL(c), 'fswavedecn.coeffs', dt)
            if e:
                return e
            if [list(s) for s in r.coeff_slices] != slices:
                return f'coeff_slices {r.coeff_slices}, expected {slices}'
            if list(r.levels) != [len(s) - 1 for s in slices]:
                return f'levels {r.levels}'
            keys = sorted(itertools.product(*[range(len(s)) for s in slices]))
            if sorted(map(tuple, r.detail_keys())) != keys[1:]:
                return f'detail_keys {r.detail_keys()}'
            for k in keys:
                sl = [slice(None)] * nd
                for a, s, l in zip(axes, slices, k):
                    sl[a] = s[l]
                e = core.diff(r[k], arr[tuple(sl)], TOL(c), f'fswavedecn[{k}]')
                if e:
                    return e
            e = core.diff(r.approx, arr[tuple([slices[[a % nd for a in axes].index(i)][0] if i in [a % nd for a in axes]
                                               else slice(None) for i in range(nd)])], TOL(c), 'approx')
            return e
        # arbitrary coefficients: one band replaced through the result object
        new = core.data(arr.shape, c['dtype'] if dt else 'f8', c['seed'] + 7, 3)
        r.coeffs = np.array(new)
        k = tuple(rng.randrange(len(s)) for s in slices)
        sub = core.data(r[k].shape, c['dtype'] if dt else 'f8', c['seed'] + 8, 3)
        r[k] = sub
        sl = [slice(None)] * nd
        for a, s, l in zip(axes, slices, k):
            sl[a] = s[l]
        new[tuple(sl)] = sub
        want = new.astype(ref.wide(new))
        for a, b, m, ss in zip(axes, bs, mo, slices):
            sl = [slice(None)] * nd
            parts = []
            for s in ss:
                sl[a] = s
                parts.append(want[tuple(sl)])
            try:
                want = rec1(parts, b, m, a)
            except Bad:
                return None
        return core.diff(pywt.fswaverecn(r), want, TOL(c), 'fswaverecn', dt)
    L = min(ML) if c['lev'] is None else c['lev'][0]
    # reference multilevel decomposition
    ds, cur, bad = [], x.astype(ref.wide(x)), False
    try:
        for _ in range(L):
            s = step(cur, bs, mo, axes)
            cur = s.pop('a' * len(axes))
            ds.append(s)
    except Bad:
        bad = True
    dec = pywt.wavedec if one else pywt.wavedec2 if two else pywt.wavedecn
    call = lambda: dec(v, W, M, level=None if c['lev'] is None else L, **kw)
    if bad:
        return core.raises(call, ValueError)
    ref_c = [cur] + ds[::-1]
    if fn in ('wavedec', 'wavedec2', 'wavedecn'):
        got = call()
        if not isinstance(got, list) or len(got) != L + 1:
            return f'{fn}: {len(got) - 1} levels, expected {L}'
        e = core.diff(got[0], cur, TOL(c), f'{fn} approximation', dt if L else None)
        if e:
            return e
        for j in range(1, L + 1):
            g = got[j]
            if one:
                g = {'d': g}
            elif two:
                if not isinstance(g, tuple) or len(g) != 3:
                    return 'detail entry is not a 3-tuple'
                g = dict(zip(('da', 'ad', 'dd'), g))
            if set(g) != set(ref_c[j]):
                return f'keys {sorted(g)}, expected {sorted(ref_c[j])}'
            for k in g:
                e = core.diff(g[k], ref_c[j][k], TOL(c), f'{fn}[{j}][{k!r}]', dt)
                if e:
                    return e
        return None
    # inverse with arbitrary coefficients of the decomposition's shapes, some bands missing
    if L == 0:
        return None
    D = c['dtype']
    a0 = core.data(cur.shape, D, c['seed'] + 1, 3)
    full, given = [a0], [a0]
    for j in range(1, L + 1):
        f = {k: core.data(s.shape, D, c['seed'] + 10 * j + i, 3) for i, (k, s) in enumerate(sorted(ref_c[j].items()))}
        g = dict(f)
        for k in list(f):
            if c['none'] and len(g) > 1 and sum(x is not None for x in g.values()) > 1 and rng.random() < .3:
                f[k] = f[k] * 0
                if two:
                    g[k] = None
                else:
                    g.pop(k)
        if one and c['none'] == 3 and rng.random() < .4 and j == L:
            f['d'] = f['d'] * 0
            g['d'] = None
        full.append(f)
        given.append(g)
    want = a0.astype(ref.wide(a0))
    try:
        for j in range(1, L + 1):
            f = {k: s.astype(ref.wide(s)) for k, s in full[j].items()}
            d = f['d' * len(axes)]
            if not (one and given[j]['d'] is None):
                want = want[tuple(slice(n) for n in d.shape)]
            elif want.shape != d.shape:
                f['d'] = np.zeros(want.shape)
            f['a' * len(axes)] = want
            want = istep(f, bs, mo, axes)
    except Bad:
        return None
    if c['lay'] in ('F', 'T', 'rev', 'step'):
        given = [layout(a0, c['lay'], rng)] + [{k: (None if u is None else layout(u, rng.choice(['C', c['lay']]), rng))
                                                for k, u in g.items()} for g in given[1:]]
    if one:
        gl = [given[0]] + [g['d'] for g in given[1:]]
        if c['seed'] % 2:
            gl = tuple(gl)
        got = pywt.waverec(gl, W, M, **kw)
    elif two:
        got = pywt.waverec2([given[0]] + [(g['da'], g['ad'], g['dd']) for g in given[1:]], W, M, **kw)
    else:
        got = pywt.waverecn(given, W, M, **kw)
    return core.diff(got, want, TOL(c), fn, D)


def rec1(parts, b, m, a):
    cur = parts[0]
    for d in parts[1:]:
        cur = cur[tuple(slice(n) for n in d.shape)]
        cur = istep({'a': cur, 'd': d}, [b], [m], [a])
    return cur


def roundtrip(c, x, v, W, M, kw, fs, one, two, dt):
    import pywt
    shape, axes = list(c['shape']), c['axes']
    lev = c['lev']
    tol = 2e-3 if c['dtype'] in ('f4', 'c8') else 1e-9
    try:
        if fs:
            r = pywt.fswavedecn(v, W, M, levels=None if lev is None else (lev[0] if c['scalar'] else tuple(lev)), **kw)
            y = pywt.fswaverecn(r)
        else:
            L = None if lev is None else lev[0]
            d, i = ((pywt.wavedec, pywt.waverec) if one else (pywt.wavedec2, pywt.waverec2) if two
                    else (pywt.wavedecn, pywt.waverecn))
            y = i(d(v, W, M, level=L, **kw), W, M, **kw)
    except ValueError:
        if any(m.endswith('reflect') for m in c['mode']):
            return None
        raise
    y = np.asarray(y)
    nat = [a % len(shape) for a in axes]
    for k, n in enumerate(shape):
        if not (y.shape[k] == n or (k in nat and n % 2 and y.shape[k] == n + 1)):
            return f'reconstructed shape {y.shape} from data of shape {tuple(shape)}'
    return core.diff(y[tuple(slice(n) for n in shape)], x, tol, 'round trip')
