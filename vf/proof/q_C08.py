from pylib import *

def rt(e, x, rec, axes, what):
    """rec is x up to one extra trailing sample per transformed axis"""
    e.ob(what + ': rank', rec.ndim == x.ndim, '')
    if rec.ndim != x.ndim: return
    ax = {a % x.ndim for a in axes}
    for k in range(x.ndim):
        n, m = V.zi(x.shape[k]), V.zi(rec.shape[k])
        e.require(what + ': extents', z3.Or(m == n, m == n + 1) if k in ax else m == n, f'{rec.shape} for {x.shape}')
    ex, er = x.elem(), rec.elem()
    idx = [z3.Int(f'q{k}') for k in range(x.ndim)]
    e.require(what + ': values', z3.Implies(z3.And(e.inb(idx, x.shape)), ex(idx) == er(idx)), 'differs from the signal')

def tasks_C08(tier='quick'):
    T = []
    FN = ['pywt/_multilevel.py: wavedec, waverec, wavedec2, waverec2, wavedecn, waverecn, fswavedecn, fswaverecn, _check_level, _prep_axes_wavedecn, _match_coeff_dims']

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))
    LV = ['sym', None]

    def lev(e, l):
        return e.int('level') if l == 'sym' else l

    def dec(name, nd, l, per=False, **kw):
        def run(e):
            ns = mod_multilevel()
            x = e.input('x', sizes(e, nd), 'f8')
            n = 1 if name == 'wavedec' else 2 if name == 'wavedec2' else nd if kw.get('axes') is None else 1 if isinstance(kw['axes'], int) else len(kw['axes'])
            w, m = params(e, n, per)
            meets(e, ns[name], getattr(S, name), (x, w, m, lev(e, l)), kw, alias=True)
        return run

    def roundtrip(dn, rn, nd, L, tax, per=False, **kw):
        def run(e):
            ns = mod_multilevel()
            x = e.input('x', sizes(e, nd, lo=1), 'f8')
            w, m = params(e, 1 if dn == 'wavedec' else len(tax), per)
            k, c = e.call(ns[dn], x, w, m, L, **kw)
            if k != 'ok':
                return
            k, r = e.call(ns[rn], c, w, m, **kw)
            e.ob('reconstruction of a decomposition succeeds', k == 'ok', repr(r))
            if k == 'ok':
                rt(e, x, r, tax, 'reconstruction returns the signal')
        return run

    def rec(name, nd, L, none, axes=None, missing=()):
        """reconstruction contract on coefficient arrays of any content; `none`: positions of missing bands"""
        def run(e):
            ns = mod_multilevel()
            n = 1 if name == 'waverec' else 2 if name == 'waverec2' else (nd if axes is None else len(axes))
            tax = [(-1 if axes is None else axes)] if name == 'waverec' else list(axes if axes is not None else range(nd) if name == 'waverecn' else (-2, -1))
            w, m = params(e, n, False)
            other = sizes(e, nd, 'O', 1)
            def shp(l):
                return tuple(e.int(f'L{l}_{k}', 1) if k in [a % nd for a in tax] else other[k] for k in range(nd))
            keys = [''.join(c) for c in itertools.product('ad', repeat=n)][1:]
            c = [None if (0, 0) in none else e.input('a', shp(0) if L else other, 'f8')]
            for j in range(1, L + 1):
                sh = shp(j)
                b = [None if (j, i) in none else e.input(f'd{j}_{i}', sh, 'f8') for i in range(len(keys))]
                if name == 'waverec':
                    c.append(b[0])
                elif name == 'waverec2':
                    dd = dict(zip(keys, b))
                    c.append((dd['da'], dd['ad'], dd['dd']))
                else:
                    c.append({k: v for k, v in zip(keys, b) if v is not None})
            cc = [dict(v) if isinstance(v, dict) else v for v in c]
            meets(e, ns[name], getattr(S, name), (cc, w, m), {} if axes is None else {'axis' if name == 'waverec' else 'axes': axes}, alias=(L == 0))
            e.ob('coefficient list unchanged', len(cc) == len(c) and all((list(p) == list(q) if isinstance(p, dict) else p is q) for p, q in zip(cc, c)), '')
        return run
    for nd, ax in [(1, -1), (1, 0), (2, 0), (2, -1), (2, -2), (3, 1), (1, 1), (2, -3)]:
        for l in LV:
            add(f'wavedec, rank {nd}, axis {ax}, level {l or "default"}', dec('wavedec', nd, l, axis=ax))
    for nd, axes in [(2, (-2, -1)), (2, (1, 0)), (3, (0, 2)), (2, (0, 0)), (2, (0, 2)), (1, (0, 1)), (2, (0, 1, 1))]:
        for l in LV:
            for per in (False, True):
                add(f'wavedec2, rank {nd}, axes {axes}, level {l or "default"}' + (', per-axis' if per else ''), dec('wavedec2', nd, l, per, axes=axes), cost=3)
    for nd, axes in [(1, None), (2, None), (2, (1,)), (2, 0), (2, (-1, 0)), (3, (2, 0)), (3, None), (2, (0, 0)), (2, (0, 2))]:
        for l in LV:
            for per in (False, True):
                if per and isinstance(axes, int): continue
                add(f'wavedecn, rank {nd}, axes {axes}, level {l or "default"}' + (', per-axis' if per else ''), dec('wavedecn', nd, l, per, axes=axes), cost=3)
    for L in (0, 1, 2, 3):
        add(f'waverec(wavedec), rank 1, level {L}', roundtrip('wavedec', 'waverec', 1, L, (0,)), cost=5)
        add(f'waverec(wavedec), rank 2 axis 0, level {L}', roundtrip('wavedec', 'waverec', 2, L, (0,), axis=0), cost=5)
        if L < 3:
            add(f'waverec2(wavedec2), level {L}', roundtrip('wavedec2', 'waverec2', 2, L, (-2, -1), True), cost=9)
            add(f'waverecn(wavedecn), rank 2, level {L}', roundtrip('wavedecn', 'waverecn', 2, L, (0, 1), True), cost=9)
            add(f'waverecn(wavedecn), rank 3 axes (2, 0), level {L}', roundtrip('wavedecn', 'waverecn', 3, L, (2, 0), True, axes=(2, 0)), cost=9)
            add(f'waverec2(wavedec2), rank 3 axes (2, 0), level {L}', roundtrip('wavedec2', 'waverec2', 3, L, (2, 0), False, axes=(2, 0)), cost=9)
    for L in (0, 1, 2, 3):
        pos = [(0, 0)] + [(j, 0) for j in range(1, L + 1)]
        for k in range(0, min(2, len(pos)) + 1):
            for none in itertools.combinations(pos, k):
                if none == ((0, 0),) and L == 0: continue
                add(f'waverec, {L} levels, bands missing {none}', rec('waverec', 1, L, none))
        add(f'waverec, rank 2 axis 0, {L} levels', rec('waverec', 2, L, (), 0))
    for L in (0, 1, 2):
        sets = [()] + [((j, i),) for j in range(1, L + 1) for i in range(3)] + [((j, 0), (j, 1)) for j in range(1, L + 1)] + [((j, 0), (j, 2)) for j in range(1, L + 1)] + [((j, 1), (j, 2)) for j in range(1, L + 1)] + [((j, 0), (j, 1), (j, 2)) for j in range(1, L + 1)]
        for none in sets:
            add(f'waverec2, {L} levels, bands missing {none}', rec('waverec2', 2, L, none), cost=3)
            add(f'waverecn, rank 2, {L} levels, bands missing {none}', rec('waverecn', 2, L, none), cost=3)
        add(f'waverecn, rank 2 axes (-1,), {L} levels', rec('waverecn', 2, L, (), (-1,)))
        add(f'waverecn, rank 3 axes (2, 0), {L} levels', rec('waverecn', 3, L, (), (2, 0)), cost=3)
        if L: add(f'waverecn, rank 1, {L} levels, approximation missing', rec('waverecn', 1, L, ((0, 0),)))
    return T
if __name__ == '__main__':
    go(tasks_C08)
