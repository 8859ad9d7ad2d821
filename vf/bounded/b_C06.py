import itertools
import numpy as np
from . import core, ref
from .b_C01 import ok_mode
MODES = ref.MODES
LAYOUTS = ['C', 'F', 'T', 'rev', 'step', 'off', 'bcast', 'bswap', 'unaligned', 'list']


def layout(x, kind, rng):
    """an array with the values of x and another memory layout"""
    if kind == 'F':
        return np.asfortranarray(x)
    if kind == 'T':
        p = list(range(x.ndim))
        rng.shuffle(p)
        inv = np.argsort(p)
        return np.ascontiguousarray(x.transpose(p)).transpose(inv)
    if kind == 'rev':
        s = tuple(slice(None, None, rng.choice([1, -1])) for _ in x.shape)
        return np.ascontiguousarray(x[s])[s]
    if kind == 'step':
        st = [rng.choice([1, 2, 3]) for _ in x.shape]
        b = np.full([n * s for n, s in zip(x.shape, st)], 91, x.dtype)
        v = b[tuple(slice(None, None, s) for s in st)]
        v[...] = x
        return v
    if kind == 'off':
        b = np.full([n + 3 for n in x.shape], 93, x.dtype)
        v = b[tuple(slice(1, 1 + n) for n in x.shape)]
        v[...] = x
        return v
    if kind == 'bswap':
        return x.astype(x.dtype.newbyteorder())
    if kind == 'unaligned':
        b = np.zeros(x.nbytes + 1, np.uint8)
        v = b[1:].view(x.dtype) if False else np.ndarray(x.shape, x.dtype, b.data, 1)
        v[...] = x
        return v
    if kind == 'list' and x.dtype == np.float64:
        return x.tolist()
    return x


def cases(tier, rng):
    q = tier == 'quick'
    dts = ['f8', 'c16', 'f4', 'c8']
    for i in range(1800 if q else 15000):
        nd = rng.choice([1, 2, 2, 3, 3, 4, 5])
        shape = [rng.choice([1, 2, 3, 4, 5, 6, 7, 9]) for _ in range(nd)]
        if i % 9 == 0 and nd <= 3:
            shape[rng.randrange(nd)] = rng.randrange(10, 60)
        if i % 50 == 1:
            shape[rng.randrange(nd)] = 0
        while np.prod(shape) > 1500:
            shape[rng.randrange(nd)] = 2
        fn = ['dwt', 'idwt', 'dwtn', 'idwtn', 'dwt2', 'idwt2', 'swt', 'swtn'][i % 8]
        na = {'dwt': 1, 'idwt': 1, 'swt': 1, 'dwt2': 2, 'idwt2': 2}.get(fn) or rng.randrange(1, min(nd, 3) + 1)
        if fn in ('dwtn', 'idwtn') and rng.random() < .15:
            axes = [rng.randrange(nd) for _ in range(rng.randrange(1, 4))]       # repeated axes
        elif fn in ('dwt2', 'idwt2'):
            if nd < 2:
                nd, shape = 2, shape + [4]
            axes = rng.sample(range(nd), 2)
        else:
            axes = rng.sample(range(nd), na)
        if fn in ('swt', 'swtn'):
            for a in axes:
                shape[a] = rng.choice([2, 4, 6, 8])
        w = [[2 * rng.randrange(1, 6), rng.randrange(3)] for _ in axes]
        mo = [rng.choice(MODES) for _ in axes]
        yield dict(fn=fn, shape=shape, axes=[a - nd if rng.random() < .3 else a for a in axes], w=w, mode=mo, dtype=rng.choice(dts),
                   lay=LAYOUTS[rng.randrange(len(LAYOUTS))], seed=i, miss=rng.choice([0, 0, 1, 2]), scalar=rng.random() < .2,
                   none=rng.random() < .15)


def nat(a, nd):
    return a % nd


def run(c):
    import pywt, random
    rng = random.Random(c['seed'])
    shape, nd, fn = list(c['shape']), len(c['shape']), c['fn']
    axes = c['axes']
    if c['scalar']:
        c = dict(c, w=[c['w'][0]] * len(axes), mode=[c['mode'][0]] * len(axes))
    ws = [core.wav(w)[0] for w in c['w']]
    bs = [core.wav(w)[1] for w in c['w']]
    mo = c['mode']
    warg = ws[0] if c['scalar'] else tuple(ws)
    marg = mo[0] if c['scalar'] else tuple(mo)
    tol = 0.0
    kw = dict(axes=tuple(axes))
    if c['none'] and fn in ('dwtn', 'idwtn', 'swtn') and [nat(a, nd) for a in axes] == list(range(nd)):
        kw = {}
    if fn in ('dwt', 'dwtn', 'dwt2', 'swt', 'swtn'):
        x = core.data(shape, c['dtype'], c['seed'], 4)
        v = layout(x, c['lay'], rng)
        # expected, by definition
        coeffs = {'': x.astype(ref.wide(x))}
        bad = False
        for a, b, m in zip(axes, bs, mo):
            new = {}
            for k, y in coeffs.items():
                if fn.startswith('swt'):
                    new[k + 'a'] = ref.along(lambda r: ref.swt1(r, b[0], 1), y, a)
                    new[k + 'd'] = ref.along(lambda r: ref.swt1(r, b[1], 1), y, a)
                    continue
                if not ok_mode(m, y.shape[a]) or y.shape[a] == 0:
                    bad = True
                    break
                new[k + 'a'] = ref.along(lambda r: ref.dwt1(r, b[0], m), y, a)
                new[k + 'd'] = ref.along(lambda r: ref.dwt1(r, b[1], m), y, a)
            if bad:
                break
            coeffs = new
        if fn == 'dwt':
            call = lambda: dict(zip('ad', pywt.dwt(v, ws[0], mo[0], axis=axes[0])))
        elif fn == 'dwtn':
            call = lambda: pywt.dwtn(v, warg, marg, **kw)
        elif fn == 'dwt2':
            def call():
                a, (h, vv, d) = pywt.dwt2(v, warg, marg, tuple(axes))
                return {'aa': a, 'da': h, 'ad': vv, 'dd': d}
        elif fn == 'swt':
            if 0 in shape:
                return None
            call = lambda: dict(zip('ad', pywt.swt(v, ws[0], 1, axis=axes[0])[0]))
        else:
            if 0 in shape:
                return None
            call = lambda: pywt.swtn(v, warg, 1, **kw)[0]
        if bad:
            return core.raises(call, ValueError)
        got = call()
        if set(got) != set(coeffs):
            return f'keys {sorted(got)}, expected {sorted(coeffs)}'
        dt = None if c['lay'] in ('bswap', 'list') else c['dtype']
        for k in coeffs:
            e = core.diff(got[k], coeffs[k], tol, f'{fn}[{k!r}]', dt)
            if e:
                return e
        return None
    # inverse transforms on arbitrary coefficient arrays
    nax = [nat(a, nd) for a in axes]
    keys = [''.join(k) for k in itertools.product('ad', repeat=len(axes))]
    cshape = list(shape)
    for a, b, m in zip(nax, bs, mo):
        F = len(b[0])
        need = 1 if m == 'periodization' else F // 2
        cshape[a] = max(cshape[a], need + 1)
    if len(set(nax)) != len(nax):
        cshape = [max(s, 12) if i in nax else min(s, 2) for i, s in enumerate(cshape)]
    drop = set()
    if c['miss']:
        drop = set(rng.sample(keys, min(len(keys) - 1, c['miss'])))
    co = {k: core.data(cshape, c['dtype'], c['seed'] + 13 * i, 4) for i, k in enumerate(keys)}
    given = {k: layout(v, c['lay'], rng) for k, v in co.items() if k not in drop}
    cur = {k: (co[k] if k not in drop else co[k] * 0) for k in keys}
    for n in range(len(axes) - 1, -1, -1):
        a, b, m = nax[n], bs[n], mo[n]
        new = {}
        for k in map(''.join, itertools.product('ad', repeat=n)):
            st = np.stack([cur[k + 'a'], cur[k + 'd']])
            if ref.idwt_len(st.shape[a + 1], len(b[0]), m) < 1:
                return None
            st = np.moveaxis(st, a + 1, -1)
            lead = st.shape[1:-1]
            fa, fd = st[0].reshape(-1, st.shape[-1]), st[1].reshape(-1, st.shape[-1])
            if 0 in lead:
                return None
            rows = [ref.idwt1(p, q, b[2], b[3], m) for p, q in zip(fa, fd)]
            new[k] = np.moveaxis(np.array(rows).reshape(lead + (len(rows[0]),)), -1, a)
        cur = new
    want = cur['']
    dt = None if c['lay'] in ('bswap', 'list') else c['dtype']
    if fn == 'idwt':
        got = pywt.idwt(given.get('a'), given.get('d'), ws[0], mo[0], axis=axes[0])
    elif fn == 'idwt2':
        if c['lay'] == 'list':
            return None
        got = pywt.idwt2((given.get('aa'), (given.get('da'), given.get('ad'), given.get('dd'))), warg, marg, tuple(axes))
    else:
        arg = dict(given)
        for i, k in enumerate(sorted(drop)):
            if (i + c['seed']) % 2:
                arg[k] = None
        got = pywt.idwtn(arg, warg, marg, **kw)
    return core.diff(got, want, tol, fn, dt)
