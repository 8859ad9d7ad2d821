import itertools
import random
import numpy as np
from . import core, ref
from .b_C06 import layout
MODES = ref.MODES


def cases(tier, rng):
    for i in range(36000 if tier == 'quick' else 320000):
        fmt = ['wavedecn', 'wavedec', 'wavedec2', 'swtn', 'swt', 'swt2'][i % 6] if i % 3 else 'wavedecn'
        nd = 1 if fmt in ('wavedec', 'swt') else 2 if fmt in ('wavedec2', 'swt2') else rng.choice([1, 2, 3, 4])
        na = nd if fmt in ('wavedec', 'swt', 'wavedec2', 'swt2') else rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        if fmt in ('wavedec2', 'swt2'):
            axes = [0, 1]
        shape = [rng.choice([1, 2, 3, 5]) for _ in range(nd)]
        lev = rng.choice([0, 1, 1, 2, 2, 3, 4])
        for a in axes:
            shape[a] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 20, 27]) if nd < 4 else rng.choice([2, 3, 4, 5])
            if fmt.startswith('swt'):
                lev = max(1, min(lev, 2))
                shape[a] = 2 ** lev * rng.choice([1, 2, 3])
        yield dict(fmt=fmt, shape=shape, axes=[a - nd if rng.random() < .25 else a for a in axes],
                   F=[2 * rng.randrange(1, 7) for _ in axes], mode=[rng.choice(MODES) for _ in axes], lev=lev,
                   dtype=rng.choice(['f8', 'f4', 'c16', 'c8']), pad=rng.choice([0, None, 7.0, -2]), seed=i,
                   noax=rng.random() < .5, lay=rng.choice(['C', 'C', 'F', 'T', 'rev', 'step', 'mix']))


def shapes_of(c):
    """sizes per level by definition: list of (approximation shape), finest last; None if mode/size invalid"""
    sh = list(c['shape'])
    out = []
    for _ in range(c['lev']):
        if c['fmt'].startswith('swt'):
            out.append(list(sh))
            continue
        for a, F, m in zip(c['axes'], c['F'], c['mode']):
            if m.endswith('reflect') and sh[a] < 2:
                return None
            sh[a] = ref.coeff_len(sh[a], F, m)
        out.append(list(sh))
    return out[::-1]


def build(c, D):
    lv = shapes_of(c)
    if lv is None:
        return None
    keys = [''.join(k) for k in itertools.product('ad', repeat=len(c['axes']))][1:]
    n = [1]

    rng = random.Random(c['seed'])

    def arr(sh):
        return layout(arr0(sh), rng.choice(['C', 'F', 'T', 'rev']) if c.get('lay') == 'mix' else c.get('lay'), rng)

    def arr0(sh):
        k = int(np.prod(sh))
        v = np.arange(n[0], n[0] + k, dtype=float).reshape(sh)
        n[0] += k
        v = v + (1j * v * 2 if D.startswith('c') else 0)
        return v.astype(core.DT[D])
    co = [arr(lv[0] if lv else c['shape'])]
    for s in lv:
        co.append({k: arr(s) for k in keys})
    return co


def present(c, co):
    f = c['fmt']
    if f in ('wavedec', 'swt'):
        return [co[0]] + [d['d'] for d in co[1:]]
    if f in ('wavedec2', 'swt2'):
        return [co[0]] + [(d['da'], d['ad'], d['dd']) for d in co[1:]]
    return co


def same(c, got, co, what):
    if len(got) != len(co):
        return f'{what}: {len(got)} entries, expected {len(co)}'
    e = core.diff(got[0], co[0], 0.0, what + '[0]', co[0].dtype)
    if e:
        return e
    for j in range(1, len(co)):
        g = got[j]
        if c['fmt'] in ('wavedec', 'swt'):
            g = {'d': g}
        elif c['fmt'] in ('wavedec2', 'swt2'):
            if not isinstance(g, tuple) or len(g) != 3:
                return f'{what}[{j}] is not a 3-tuple'
            g = dict(zip(('da', 'ad', 'dd'), g))
        if set(g) != set(co[j]):
            return f'{what}[{j}] keys {sorted(g)}, expected {sorted(co[j])}'
        for k in g:
            e = core.diff(g[k], co[j][k], 0.0, f'{what}[{j}][{k!r}]', co[j][k].dtype)
            if e:
                return e
    return None


def run(c):
    import pywt
    co = build(c, c['dtype'])
    if co is None or int(sum(np.prod(v.shape) for d in co[1:] for v in d.values())) > 60000:
        return None
    nd = len(c['shape'])
    arg = present(c, co)
    axes = tuple(c['axes'])
    if c['noax'] and list(axes) == list(range(nd)):
        axes = None
    # ravel
    r, sl, sh = pywt.ravel_coeffs(arg, axes=axes)
    tot = co[0].size + sum(v.size for d in co[1:] for v in d.values())
    if r.shape != (tot,) or r.dtype != co[0].dtype:
        return f'ravel_coeffs: array {r.shape} {r.dtype}, expected {(tot,)}'
    seen = np.zeros(tot, int)
    for j in range(len(co)):
        its = [(sl[0], sh[0], co[0])] if j == 0 else [(sl[j][k], sh[j][k], v) for k, v in co[j].items()]
        if j and set(sl[j]) != set(co[j]):
            return f'ravel_coeffs: slices[{j}] keys {sorted(sl[j])}'
        for s, h, v in its:
            e = core.diff(r[s].reshape(h), v, 0.0, f'ravel_coeffs slice of level {j}')
            if e:
                return e
            seen[s] += 1
    if not np.all(seen == 1):
        return 'ravel_coeffs: entries not covered exactly once'
    e = same(c, pywt.unravel_coeffs(r, sl, sh, output_format=c['fmt']), co, 'unravel')
    if e:
        return e
    # array
    if c['fmt'].startswith('swt'):
        return None
    ndx = [a % nd for a in c['axes']]
    full = list(co[0].shape)
    for d in co[1:]:
        for a in ndx:
            full[a] += d['d' * len(ndx)].shape[a]
    tight = int(np.prod(full)) == tot
    if c['pad'] is None and not tight:
        return core.raises(lambda: pywt.coeffs_to_array(arg, padding=None, axes=axes), ValueError)
    arr, sl = pywt.coeffs_to_array(arg, padding=c['pad'], axes=axes)
    if list(arr.shape) != full or arr.dtype != co[0].dtype:
        return f'coeffs_to_array: {arr.shape} {arr.dtype}, expected {full}'
    if len(co) == 1:
        e = core.diff(arr[sl[0]], co[0], 0.0, 'coeffs_to_array')
        return e or same(c, pywt.array_to_coeffs(arr, sl, output_format=c['fmt']), co, 'array_to_coeffs')
    seen = np.zeros(arr.shape, int)
    for j in range(len(co)):
        its = [(sl[0], co[0])] if j == 0 else [(sl[j][k], v) for k, v in co[j].items()]
        if j and set(sl[j]) != set(co[j]):
            return f'coeffs_to_array: slices[{j}] keys {sorted(sl[j])}'
        for s, v in its:
            e = core.diff(arr[s], v, 0.0, f'coeffs_to_array slice of level {j}')
            if e:
                return e
            seen[s] += 1
    if seen.max() > 1:
        return 'coeffs_to_array: overlapping slices'
    if not tight and not np.all(arr[seen == 0] == np.array(c['pad']).astype(arr.dtype)):
        return 'coeffs_to_array: background differs from padding'
    if tight and not np.all(seen == 1):
        return 'coeffs_to_array: tight packing with uncovered entries'
    return same(c, pywt.array_to_coeffs(arr, sl, output_format=c['fmt']), co, 'array_to_coeffs')
