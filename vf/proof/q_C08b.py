from pylib import *
from q_C08 import rt

def fsw_spec(x, ws, ms, levels, axes):
    arr, sls = x, []
    for ax, w, m, l in zip(axes, ws, ms, levels):
        parts = S.wavedec(arr, w, m, l, ax)
        off, sl = 0, []
        for p in parts:
            sl.append((off, off + p.shape[ax]))
            off = off + p.shape[ax]
        sls.append(sl)
        arr = S.NPC.concatenate(parts, axis=ax)
    return arr, sls

def tasks_C08b(tier='quick'):
    T = []
    FN = ['pywt/_multilevel.py: fswavedecn, fswaverecn, FswavedecnResult, _check_fswavedecn_axes']

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def ml():
        ns = mod_multilevel()
        ns['wavedec'], ns['waverec'] = S.wavedec, S.waverec      # callees by contract
        return ns

    def fsw(nd, axes, levels, per, lname):
        def run(e):
            ns = ml()
            x = e.input('x', sizes(e, nd), 'f8')
            ax = tuple(range(nd)) if axes is None else axes
            w, m = params(e, len(ax), per)
            ws, ms = S.per_axis_w(w, ax), S.per_axis_m(m, ax)
            lv = [e.int(f'lev{i}') if l == 'sym' else l for i, l in enumerate(levels)] if isinstance(levels, tuple) else levels
            k, r = e.call(ns['fswavedecn'], x, w, m, lv, axes)
            w0 = list(e.input_writes)
            bad = len(set(ax)) != len(ax) or any(not -nd <= a < nd for a in ax)
            if bad:
                e.ob('invalid axes are rejected', k == 'raise', str(axes))
                return
            k2, s = e.call(fsw_spec, x, ws, ms, lv if isinstance(lv, list) else [lv] * len(ax), ax)
            e.ob('raises exactly when the contract does', k == k2, f'{k} {r!r} / {k2} {s!r}'[:300])
            e.ob('arguments are not written', not w0, str(w0))
            if k == k2 == 'ok':
                arr, sls = s
                e.require_same('coefficient array is the full 1-D transform along each axis in turn', r.coeffs, arr)
                got = r.coeff_slices
                e.ob('one slice list per axis', len(got) == len(sls) and all(len(g) == len(q) for g, q in zip(got, sls)), str(got))
                for g, q in zip(got, sls):
                    for a, (lo, hi) in zip(g, q):
                        e.require('slices select the bands', z3.And(V.zi(a.start or 0) == V.zi(lo), V.zi(a.stop) == V.zi(hi)), f'{a} {lo} {hi}')
                e.ob('axes, wavelets and modes are recorded', tuple(r.axes) == tuple(ax) and list(r.wavelets) == ws and all(e.par_eq(p, q) for p, q in zip(r._mode_enums, ms)), '')
                e.ob('levels', list(r.levels) == [len(q) - 1 for q in sls], '')
                # every stored band is reachable under its key and nothing else is
                keys = list(itertools.product(*(range(len(q)) for q in sls)))
                dk = e.call(r.detail_keys)
                e.ob('detail keys: all but the approximation', dk[0] == 'ok' and sorted(dk[1]) == sorted(keys[1:]), str(dk))
                for key in keys[:6]:
                    sl = [slice(None)] * nd
                    for a, q, c in zip(ax, sls, key):
                        sl[a] = slice(*q[c])
                    kk, v = e.call(r.__getitem__, key)
                    e.ob('band access', kk == 'ok', repr(v))
                    if kk == 'ok':
                        e.require_same('band under a key', v, arr[tuple(sl)])
                e.require_same('approximation', r.approx, arr[tuple(sl2(nd, ax, sls))])
                kk, v = e.call(r.__getitem__, tuple(len(q) for q in sls))
                e.ob('an index beyond the levels is rejected', kk == 'raise', '')
        return run

    def sl2(nd, ax, sls):
        sl = [slice(None)] * nd
        for a, q in zip(ax, sls):
            sl[a] = slice(*q[0])
        return sl

    def setband(nd, axes, levels, key):
        """writing one band changes that box of the coefficient array and nothing else"""
        def run(e):
            ns = ml()
            x = e.input('x', sizes(e, nd, lo=1), 'f8')
            w, m = params(e, len(axes), False)
            k, r = e.call(ns['fswavedecn'], x, w, m, list(levels), axes)
            if k != 'ok':
                return
            before = r.coeffs.copy()
            box = r[key]
            y = e.input('y', box.shape, 'f8')
            sl = [slice(None)] * nd
            for a, q, c in zip(axes, r.coeff_slices, key):
                sl[a] = q[c]
            want = before.copy()
            want[tuple(sl)] = y
            if key == (0,) * len(axes):
                def f(): r.approx = y
            else:
                def f(): r[key] = y
            k, v = e.call(f)
            e.ob('band can be replaced', k == 'ok', repr(v))
            e.require_same('only that band changes', r.coeffs, want)
        return run

    def inverse(nd, axes, levels, modes):
        """for any coefficient array of that layout: 1-D reconstruction along each axis in turn"""
        def run(e):
            ns = ml()
            arr = e.input('c', sizes(e, nd, lo=1), 'f8')
            ws = [S.Wavelet(f'w{j}') for j in range(len(axes))]
            sls = []
            for j, (ax, l) in enumerate(zip(axes, levels)):
                off, sl = 0, []
                for i in range(l + 1):
                    n = e.int(f'n{j}_{i}', 1)
                    sl.append(slice(off, off + n))
                    off = off + n
                e.assume(V.zi(off) == V.zi(arr.shape[ax]))
                sls.append(sl)
            r = ns['FswavedecnResult'](arr, sls, ws, [S.Modes.from_object(m) for m in modes], axes)

            def spec():
                a = arr
                for ax, w, m, sl in zip(axes, ws, modes, sls):
                    parts = []
                    for q in sl:
                        k = [slice(None)] * nd
                        k[ax] = q
                        parts.append(a[tuple(k)])
                    a = S.waverec(parts, w, m, ax)
                return a
            k, v = e.call(ns['fswaverecn'], r)
            w0 = list(e.input_writes)
            k2, s = e.call(spec)
            e.ob('raises exactly when the contract does', k == k2, f'{k} {v!r} / {k2} {s!r}'[:300])
            e.ob('coefficients are not written', not w0, '')
            if k == k2 == 'ok':
                e.require_same('result is the 1-D reconstruction along each axis in turn', v, s)
        return run

    def back(nd, axes, levels, per):
        def run(e):
            ns = ml()
            x = e.input('x', sizes(e, nd, lo=1), 'f8')
            w, m = params(e, len(axes), per)
            m = list(per)
            k, r = e.call(ns['fswavedecn'], x, w, m, list(levels), axes)
            if k != 'ok':
                return
            k, v = e.call(ns['fswaverecn'], r)
            e.ob('reconstruction of a decomposition succeeds', k == 'ok', repr(v))
            if k == 'ok':
                rt(e, x, v, axes, 'reconstruction returns the signal')
        return run
    for nd, axes, levels in [(1, None, None), (1, (0,), ('sym',)), (2, None, (1, 1)), (2, (1, 0), (2, 1)), (2, (1,), (2,)), (2, None, None), (2, (-1, 0), (0, 2)), (2, (0, 0), (1, 1)),
                             (2, (0, 2), (1, 1)), (3, (2, 0), (1, 1)), (2, None, 1), (3, None, (1, 1, 1)), (2, (0, 1), ('sym', 0))]:
        for per in (False, True):
            add(f'fswavedecn, rank {nd}, axes {axes}, levels {levels}' + (', per-axis' if per else ''), fsw(nd, axes, levels, per, ''), cost=4)
    for key in ((0, 0), (1, 0), (0, 2), (1, 1)):
        add(f'FswavedecnResult: replacing band {key}', setband(2, (0, 1), (1, 2), key))
        add(f'FswavedecnResult: replacing band {key}, axes (1, 0)', setband(2, (1, 0), (1, 2), key))
    for md in S.Modes.modes:
        add(f'fswaverecn(fswavedecn), rank 1, level 1, {md}', back(1, (0,), (1,), (md,)), cost=6)
        add(f'fswaverecn, rank 2, axes (1, 0), levels (1, 1), {md}', inverse(2, (1, 0), (1, 1), (md, 'smooth')), cost=6)
    add('fswaverecn(fswavedecn), rank 1, level 2', back(1, (0,), (2,), ('reflect',)), cost=6)
    add('fswaverecn(fswavedecn), rank 2, axes (1,), level 2', back(2, (1,), (2,), ('periodization',)), cost=6)
    add('fswaverecn(fswavedecn), rank 2, axes (0, 1), levels (0, 0)', back(2, (0, 1), (0, 0), ('zero', 'smooth')), cost=6)
    add('fswaverecn(fswavedecn), rank 2, axes (0, 1), levels (0, 2)', back(2, (0, 1), (0, 2), ('zero', 'smooth')), cost=6)
    add('fswaverecn, rank 3, axes (2, 0), levels (2, 1)', inverse(3, (2, 0), (2, 1), ('zero', 'periodization')), cost=6)
    add('fswaverecn, rank 2, axes (0, 1), levels (0, 2)', inverse(2, (0, 1), (0, 2), ('constant', 'symmetric')), cost=6)
    return T
if __name__ == '__main__':
    go(tasks_C08b)
