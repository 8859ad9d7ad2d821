from pylib import *
FN = ['pywt/_multilevel.py: coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs, wavedecn_size, _prepare_coeffs_axes, _determine_coeff_array_shape, _coeffs_wavedec_to_wavedecn, _coeffs_wavedec2_to_wavedecn']


def structure(e, fmt, nd, axes, L, dts=('f8',), lo=0, free=False):
    """coefficient list of a multilevel transform: level j's bands have one shape; on a transformed axis the first detail level is as long as the
    approximation and each finer one at most twice as long as the one before (consequence of the coefficient-length rule); free: no relation at all"""
    n = len(axes)
    oth = sizes(e, nd, 'O', lo)
    tax = [a % nd for a in axes]
    keys = [''.join(c) for c in itertools.product('ad', repeat=n)][1:]
    shp, sh = [], None
    for j in range(L + 1):
        if j <= 1:
            s = tuple(e.int(f'L0_{k}', lo) if k in tax else oth[k] for k in range(nd))
        else:
            s = tuple(e.int(f'L{j}_{k}', lo) if k in tax else oth[k] for k in range(nd))
            for k in set(tax):
                e.assume(s[k].e <= 2 * sh[k].e)
        shp.append(s)
        sh = s
    dt = lambda j: dts[j % len(dts)]
    c = [e.input('a', shp[0], dt(0))]
    for j in range(1, L + 1):
        b = {k: e.input(f'{k}{j}', shp[j], dt(j)) for k in keys}
        c.append(b['d'] if fmt == 'wavedec' else tuple(b[k] for k in ('da', 'ad', 'dd')) if fmt == 'wavedec2' else b)
    return c, shp, tax, keys


def bands(fmt, lev):
    if fmt == 'wavedec':
        return {'d': lev}
    if fmt == 'wavedec2':
        return dict(zip(('da', 'ad', 'dd'), lev)) if isinstance(lev, tuple) and len(lev) == 3 else {}
    return lev if isinstance(lev, dict) else {}


def same_structure(e, fmt, got, want, what, dtype=True):
    ok = isinstance(got, list) and len(got) == len(want)
    e.ob(what + ': list', ok, repr(got)[:200])
    if not ok:
        return
    e.require_same(what + ': approximation', got[0], want[0], dtype=dtype)
    for g, w in zip(got[1:], want[1:]):
        g, w = bands(fmt, g), bands(fmt, w)
        e.ob(what + ': keys', set(g) == set(w), f'{list(g)} instead of {list(w)}')
        if set(g) == set(w):
            for k in w:
                e.require_same(what + ': bands', g[k], w[k], dtype=dtype)


def tasks_C09(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def pack(fmt, nd, axes, L, padding, explicit):
        def run(e):
            ns = mod_multilevel()
            c, shp, tax, keys = structure(e, fmt, nd, axes, L)
            snap = [dict(x) if isinstance(x, dict) else x for x in c]
            kw = {} if not explicit else dict(axes=axes)
            pad = SReal(z3.Real('padding')) if padding == 'sym' else padding
            k, r = e.call(ns['coeffs_to_array'], c, **({} if padding == 'default' else dict(padding=pad)), **kw)
            e.ob('the list and its dictionaries are as before', len(snap) == len(c) and all(x is y or x == y for x, y in zip(snap, c)), '')
            e.ob('coefficients are not written', not e.input_writes, str(e.input_writes))
            if k == 'raise':
                if padding is None:
                    if nd == 1:
                        tot = sum((V.zi(v.size) for l in c[1:] for v in bands(fmt, l).values()), V.zi(c[0].size))
                        ext = sum((V.zi(s[0]) for s in shp[1:]), V.zi(shp[0][0]))
                        e.require('refused only when the packing is not tight', tot != ext)
                    e.ob('refused with ValueError', isinstance(r, ValueError), repr(r))
                else:
                    e.ob('packing succeeds', False, repr(r))
                return
            arr, sl = r
            want = tuple(shp[0][k2] + sum((shp[j][k2] for j in range(1, L + 1)), 0) if k2 in tax else shp[0][k2] for k2 in range(nd))
            e.ob('dtype is that of the coefficients', arr.dtype == c[0].dtype, str(arr.dtype))
            if arr.ndim != nd:
                e.ob('packed rank', False, str(arr.shape))
                return
            e.require('packed extents', z3.And([V.zi(p) == V.zi(q) for p, q in zip(arr.shape, want)]), f'{arr.shape} {want}')
            ok = isinstance(sl, list) and len(sl) == L + 1
            e.ob('one slice entry per level', ok, repr(sl)[:200])
            if not ok:
                return
            e.require_same('slices select the approximation', arr[sl[0]], c[0])
            ids = [z3.Int(f'p{k2}') for k2 in range(nd)]
            inside = [arr[sl[0]].inv(ids)[0]]
            for j in range(1, L + 1):
                b = bands(fmt, c[j])
                e.ob('slice keys', isinstance(sl[j], dict) and set(sl[j]) == set(b), repr(sl[j])[:200])
                if not isinstance(sl[j], dict) or set(sl[j]) != set(b):
                    return
                for k2 in b:
                    e.require_same('slices select each band', arr[sl[j][k2]], b[k2])
                    inside.append(arr[sl[j][k2]].inv(ids)[0])
            if padding is not None or nd == 1:
                fill = V.real(0 if padding == 'default' else pad) if padding is not None else None
                out = z3.And(z3.And(e.inb(ids, arr.shape)), z3.Not(z3.Or(inside)))
                e.require('every other entry is the padding', z3.Implies(out, arr.elem()(ids) == fill) if fill is not None else z3.Not(out), '')
            for f2 in {fmt, 'wavedecn'}:
                k, back = e.call(ns['array_to_coeffs'], arr, sl, f2)
                e.ob('unpacking succeeds', k == 'ok', repr(back))
                if k == 'ok':
                    want2 = c if f2 == fmt else [c[0]] + [bands(fmt, l) for l in c[1:]]
                    same_structure(e, f2, back, want2, 'unpacked structure')
        return run

    def rav(fmt, nd, axes, L, explicit):
        def run(e):
            ns = mod_multilevel()
            c, shp, tax, keys = structure(e, fmt, nd, axes, L, lo=1)
            snap = [dict(x) if isinstance(x, dict) else x for x in c]
            k, r = e.call(ns['ravel_coeffs'], c, **(dict(axes=axes) if explicit else {}))
            e.ob('the list and its dictionaries are as before', all(x is y or x == y for x, y in zip(snap, c)), '')
            e.ob('coefficients are not written', not e.input_writes, str(e.input_writes))
            e.ob('ravelling succeeds', k == 'ok', repr(r))
            if k != 'ok':
                return
            arr, sl, sh = r
            tot = c[0].size
            for l in c[1:]:
                for v in bands(fmt, l).values():
                    tot = tot + v.size
            e.ob('1-D result', arr.ndim == 1, str(arr.shape))
            e.require('every coefficient once', V.zi(arr.shape[0]) == V.zi(tot), f'{arr.shape} {tot}')
            e.ob('dtype is that of the coefficients', arr.dtype == c[0].dtype, str(arr.dtype))
            # positions: the stretches are disjoint and cover the vector (together with the total size)
            spans = [sl[0]] + [x for d in sl[1:] for x in d.values()]
            z = lambda v: V.zi(0 if v is None else v)
            e.ob('plain slices', all(isinstance(s, slice) and s.step in (None, 1) for s in spans), repr(spans)[:200])
            e.require('stretches are disjoint', z3.And([z3.Or(z(p.stop) <= z(q.start), z(q.stop) <= z(p.start)) for i, p in enumerate(spans) for q in spans[:i]] or [z3.BoolVal(True)]))
            for f2 in {fmt, 'wavedecn'} | ({'swt'} if fmt == 'wavedec' else {'swt2'} if fmt == 'wavedec2' else {'swtn'}):
                k, back = e.call(ns['unravel_coeffs'], arr, sl, sh, f2)
                e.ob('unravelling succeeds', k == 'ok', repr(back))
                if k == 'ok':
                    f3 = {'swt': 'wavedec', 'swt2': 'wavedec2', 'swtn': 'wavedecn'}.get(f2, f2)
                    want2 = c if f3 == fmt else [c[0]] + [bands(fmt, l) for l in c[1:]]
                    same_structure(e, f3, back, want2, 'unravelled structure')
        return run

    def missing(fn, fmt, nd, axes, L, where):
        def run(e):
            ns = mod_multilevel()
            c, shp, tax, keys = structure(e, fmt, nd, axes, L)
            l, key = where
            if l == 0:
                c[0] = None
            elif fmt == 'wavedec':
                c[l] = None
            elif fmt == 'wavedec2':
                c[l] = tuple(None if k2 == key else v for k2, v in bands(fmt, c[l]).items())
            else:
                c[l] = dict(c[l])
                c[l][key] = None
            k, r = e.call(ns[fn], c)
            e.ob('a missing coefficient is refused', k == 'raise', repr(r)[:200])
        return run

    def misc(fn):
        def run(e):
            ns = mod_multilevel()
            for bad in ([], (), 'x'):
                k, r = e.call(ns[fn], bad)
                e.ob('not a coefficient list: ValueError', k == 'raise' and isinstance(r, ValueError), repr(r))
            c, *_ = structure(e, 'wavedecn', 2, (0,), 1)
            k, r = e.call(ns[fn], c)
            e.ob('partial transform without axes: ValueError', k == 'raise' and isinstance(r, ValueError), repr(r))
            k, r = e.call(ns[fn], c, axes=(0, 1))
            e.ob('wrong number of axes: ValueError', k == 'raise' and isinstance(r, ValueError), repr(r))
        return run

    cases = [('wavedec', 1, (0,)), ('wavedec2', 2, (0, 1)), ('wavedecn', 1, (0,)), ('wavedecn', 2, (0, 1)), ('wavedecn', 3, (0, 1, 2)),
             ('wavedecn', 2, (1,)), ('wavedecn', 2, (-2,)), ('wavedecn', 2, (1, 0)), ('wavedecn', 3, (2, 0)), ('wavedecn', 3, (-1, 0)), ('wavedec2', 3, (0, 2)), ('wavedec2', 3, (-2, -1)), ('wavedecn', 3, (1,))]
    for fmt, nd, axes in cases:
        n = len(axes)
        for L in (0, 1, 2, 3) if n < 3 else (1, 2):
            full = axes == tuple(range(nd))
            for ex in ((False, True) if full and L else (False,) if full else (True,)) if L else (False,):
                for p in ('default', 'sym', None) if not ex or not full else ('sym',):
                    add(f'{fmt} coefficients, rank {nd}, axes {axes}{" (given)" if ex else ""}, {L} levels, padding {p}', pack(fmt, nd, axes, L, p, ex), cost=L * n)
                add(f'ravel {fmt} coefficients, rank {nd}, axes {axes}{" (given)" if ex else ""}, {L} levels', rav(fmt, nd, axes, L, ex), cost=L * n)
    for fn in ('coeffs_to_array', 'ravel_coeffs'):
        for fmt, nd, where in (('wavedec', 1, (0, '')), ('wavedec', 1, (1, 'd')), ('wavedec', 1, (2, 'd')), ('wavedec2', 2, (0, '')), ('wavedec2', 2, (1, 'da')), ('wavedec2', 2, (2, 'ad')),
                               ('wavedec2', 2, (1, 'dd')), ('wavedecn', 2, (1, 'da')), ('wavedecn', 2, (2, 'dd')), ('wavedecn', 2, (1, 'dd'))):
            add(f'{fn}, {fmt} structure, missing {where}', missing(fn, fmt, nd, tuple(range(nd)), 2, where))
        add(f'{fn}, malformed input', misc(fn))
    return T


from pyvc import SReal
if __name__ == '__main__':
    go(tasks_C09)
