import itertools
import numpy as np
from . import core, ref
from .b_C06 import layout
MODES = ref.MODES
WAV = ['haar', 'db2', 'db3', 'sym4', 'coif1', 'bior1.3', 'bior2.2', 'bior3.1', 'rbio2.4', 'bior6.8', 'db8']


def cases(tier, rng):
    for i in range(7200 if tier == 'quick' else 80000):
        fn = ['mra', 'mra2', 'mran'][i % 3]
        tr = rng.choice(['swt', 'dwt'])
        nd = rng.choice([1, 1, 2, 3]) if fn == 'mra' else rng.choice([2, 2, 3]) if fn == 'mra2' else rng.choice([1, 2, 3])
        na = {'mra': 1, 'mra2': 2}.get(fn) or rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        lev = rng.choice([1, 1, 2, 3, None]) if nd < 3 else rng.choice([1, 2])
        shape = [rng.choice([1, 2, 3, 4]) for _ in range(nd)]
        for a in axes:
            if tr == 'swt':
                shape[a] = 2 ** (lev or 1) * rng.choice([1, 2, 3] if nd < 3 else [1])
            else:
                shape[a] = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 14, 16, 17])
        if tr == 'swt' and lev is None:
            shape = [2 * rng.choice([1, 2, 3, 4]) for _ in shape]
        yield dict(fn=fn, tr=tr, shape=shape, axes=[a - nd if rng.random() < .3 else a for a in axes], lev=lev,
                   w=[rng.choice(WAV) for _ in axes], mode=rng.choice(MODES), dtype=rng.choice(['f8', 'f8', 'c16', 'f4', 'c8']),
                   seed=i, sw=rng.random() < .5, noax=rng.random() < .4, lay=rng.choice(['C', 'F', 'T', 'rev', 'step', 'off']))


def flat(c, co):
    """list of (setter key, array)"""
    out = [((0, None), co[0])]
    for j in range(1, len(co)):
        d = co[j]
        if isinstance(d, dict):
            out += [((j, k), d[k]) for k in d]
        elif isinstance(d, (tuple, list)):
            out += [((j, k), d[k]) for k in range(len(d))]
        else:
            out.append(((j, None), d))
    return out


def only(co, key):
    """copy of the coefficient structure with every array zero except `key`"""
    z = np.zeros_like
    out = []
    for j, d in enumerate(co):
        f = lambda k, v: v.copy() if (j, k) == key else z(v)
        if isinstance(d, dict):
            out.append({k: f(k, v) for k, v in d.items()})
        elif isinstance(d, (tuple, list)):
            out.append(tuple(f(k, v) for k, v in enumerate(d)))
        else:
            out.append(f(None, d))
    return out


def run(c):
    import pywt, random, copy
    nd, axes, fn = len(c['shape']), c['axes'], c['fn']
    x = core.data(c['shape'], c['dtype'], c['seed'], 5)
    v = layout(x, c['lay'], random.Random(c['seed']))
    ws = [core.wav(w)[0] for w in c['w']]
    if c['sw'] or fn == 'mra':
        ws = [ws[0]] * len(axes)
    W = ws[0] if c['sw'] or fn == 'mra' else tuple(ws)
    kw = dict(axis=axes[0]) if fn == 'mra' else dict(axes=tuple(axes))
    if c['noax'] and fn == 'mran' and axes == list(range(nd)):
        kw = {}
    sfx = {'mra': '', 'mra2': '2', 'mran': 'n'}[fn]
    T = c['tr'] + sfx
    m = 'periodization' if c['tr'] == 'swt' else c['mode']
    lev = c['lev']
    f = getattr(pywt, fn)
    if m.endswith('reflect') and min(c['shape'][a] for a in axes) < 2:
        return core.raises(lambda: f(v, W, lev, transform=T, mode=m, **kw), ValueError) if lev else None
    try:
        comp = f(v, W, lev, transform=T, mode=m, **kw)
    except ValueError:
        if m.endswith('reflect') or (c['tr'] == 'swt' and lev is None):
            return None
        raise
    tol = 2e-3 if c['dtype'] in ('f4', 'c8') else 1e-9
    # the same coefficients by the public transforms
    if c['tr'] == 'swt':
        fw = {'mra': pywt.swt, 'mra2': pywt.swt2, 'mran': pywt.swtn}[fn]
        inv = {'mra': pywt.iswt, 'mra2': pywt.iswt2, 'mran': pywt.iswtn}[fn]
        L = lev if lev is not None else len(comp) - 1
        kf = dict(kw, norm=True)
        if fn != 'mra' and 'axes' not in kf:
            kf['axes'] = tuple(range(nd))
        co = fw(x, W, L, trim_approx=True, **kf)
        inverse = lambda q: inv(q, W, norm=True, **{k: u for k, u in kf.items() if k != 'norm'})
    else:
        fw = {'mra': pywt.wavedec, 'mra2': pywt.wavedec2, 'mran': pywt.wavedecn}[fn]
        inv = {'mra': pywt.waverec, 'mra2': pywt.waverec2, 'mran': pywt.waverecn}[fn]
        co = fw(x, W, m, level=lev, **kw)
        inverse = lambda q: inv(q, W, m, **kw)
    a, b = flat(c, comp), flat(c, co)
    if [k for k, _ in a] != [k for k, _ in b]:
        return f'component structure {[k for k, _ in a]}, expected {[k for k, _ in b]}'
    tot = 0
    for (k, p), (_, _) in zip(a, b):
        if p.shape != x.shape:
            return f'component {k} has shape {p.shape}, data {x.shape}'
        if p.dtype != x.dtype:
            return f'component {k} has dtype {p.dtype}, data {x.dtype}'
        tot = tot + p.astype(ref.wide(p))
        want = np.asarray(inverse(only(co, k)))[tuple(slice(s) for s in x.shape)]
        e = core.diff(p, want, tol, f'component {k}')
        if e:
            return e
    e = core.diff(tot, x, tol, 'sum of the components')
    if e:
        return e
    before = copy.deepcopy(comp)
    iv = getattr(pywt, 'i' + fn)
    for _ in range(2):
        r = iv(comp)
        e = core.diff(r, x, tol, 'i' + fn, x.dtype)
        if e:
            return e
    for (k, p), (_, q) in zip(flat(c, comp), flat(c, before)):
        if not np.array_equal(p, q):
            return f'i{fn} changed component {k}'
    return None
