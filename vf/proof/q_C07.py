from pylib import *
FN = ['pywt/_swt.py: swt, iswt, swt2, iswt2, swtn, iswtn, _rescale_wavelet_filterbank']


def mod_real_idwtn():
    """iswt2/iswtn with the bodies' callees by contract"""
    return mod_swt()


def snap(c):
    return [dict(v) if isinstance(v, dict) else v for v in c] if isinstance(c, list) else c


def tasks_C07(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def fwd(name, nd, level, axes, trim, norm, per=False, start='sym', dt='f8'):
        def run(e):
            x = e.input('x', sizes(e, nd), dt)
            n = 1 if name == 'swt' else 2 if name == 'swt2' else nd if axes is None else len(axes)
            w = [S.Wavelet(f'w{j}') for j in range(n)] if per else S.Wavelet('w')
            lv = e.int('level', 1) if level == 'sym' else level
            st = e.choose(3) if start == 'sym' else start
            kw = dict(axis=axes) if name == 'swt' else dict(axes=axes)
            meets(e, mod_swt()[name], getattr(S, name), (x, w, lv, st), dict(kw, trim_approx=trim, norm=norm))
        return run

    def back(name, nd, level, axes, trim, norm, per=False, dt='f8', start=0):
        def run(e):
            ns = mod_swt()
            tax = [a % nd for a in ([axes] if name == 'swt' else axes if axes is not None else range(nd))]
            ext = []
            for k in range(nd):
                if k in tax:
                    m = e.int(f'M{k}', 1)
                    ext.append(m * (1 << level))
                else:
                    ext.append(e.int(f'N{k}', 1))
            x = e.input('x', ext, dt)
            w = [S.Wavelet(f'w{j}') for j in range(len(tax))] if per else S.Wavelet('w')
            spec = {'swt': S.swt, 'swt2': S.swt2, 'swtn': S.swtn}[name]
            kw = dict(axis=axes) if name == 'swt' else dict(axes=axes)
            if name == 'swtn' and axes is None:
                kw = {}
            c = spec(x, w, level, 0, trim_approx=trim, norm=norm, **kw)
            e.input_writes.clear()
            s0 = snap(c)
            for o in V.flat(c):
                if isinstance(o, SArr):
                    o.buf.origin = 'coeffs'
            k, r = e.call(ns['i' + name], c, w, norm=norm, **kw)
            e.ob('reconstruction of a decomposition succeeds', k == 'ok', repr(r))
            if k != 'ok':
                return
            e.require_same('reconstruction returns the signal', r, SArr.fresh(x.shape, S.rule(x.dtype), x.elem()))
            e.ob('coefficients are not written', not e.input_writes, str(e.input_writes[:3]))
            e.ob('list and dictionaries unchanged', len(s0) == len(c) and all(p is q or (isinstance(p, dict) and list(p) == list(q) and all(p[z] is q[z] for z in p)) for p, q in zip(c, s0)), '')
            e.ob('result shares no memory with the coefficients', r.buf.origin == 'fresh' and r.shares is None, '')
        return run
    def lemma(e):
        """for every step (not only powers of two), by the quotient k and remainder r of q = par+F/2+2o-tap by M"""
        q, k, r, first, step, M, x, q2, t2, t = (z3.Int(n) for n in ('q', 'k', 'r', 'first', 'step', 'M', 'x', 'q2', 't2', 't'))
        i, o, par, F2, tap = (z3.Int(n) for n in ('i', 'o', 'par', 'F2', 'tap'))
        for c in (M >= 1, step >= 1, 0 <= first, first < step):
            e.assume(c)
        e.require('argument of the index, written with the quotient', z3.substitute(first + step * (2 * o + par) + step * (F2 - tap) - (step * M) * k - (first + step * r),
                  (r, (par + F2 + 2 * o - tap) - k * M)) == 0)
        e.require('remainder is in range', z3.Implies(z3.And(0 <= r, r < M, step * (M - 1 - r) >= 0, step * r >= 0), z3.And(first + step * r >= 0, first + step * r < step * M)))
        e.require('product of non-negative numbers', z3.Implies(z3.And(i >= 0, o >= 0), i * o >= 0))
        D = z3.Int('D')
        e.require('division is unique (step*M = D): larger quotient', z3.Implies(z3.And(D >= 1, D * k + t == D * q2 + t2, 0 <= t, t < D, 0 <= t2, t2 < D), z3.Not(k >= q2 + 1)))
        e.require('division is unique (step*M = D): smaller quotient', z3.Implies(z3.And(D >= 1, D * k + t == D * q2 + t2, 0 <= t, t < D, 0 <= t2, t2 < D), z3.Not(k + 1 <= q2)))
    add('coset lemma: sample first+step*(2o+par) of the stationary transform reads tap by tap the samples that the periodized transform of the coset, shifted by par, reads', lemma)
    for trim in (False, True):
        for norm in (False, True):
            t = (' trim_approx' if trim else '') + (' norm' if norm else '')
            for nd, ax in ((1, -1), (1, 0), (2, 0), (2, -1), (3, 1), (1, 1), (2, -3)):
                for lv in (1, 2, 3, None, 'sym'):
                    add(f'swt, rank {nd}, axis {ax}, level {lv}{t}', fwd('swt', nd, lv, ax, trim, norm))
            for nd, axes in ((1, None), (2, None), (2, (1,)), (2, (-1, 0)), (3, (2, 0)), (2, (0, 0)), (2, (0, 2))):
                for lv in (1, 2, 'sym'):
                    for per in (False, True):
                        add(f'swtn, rank {nd}, axes {axes}, level {lv}{t}{" per-axis" if per else ""}', fwd('swtn', nd, lv, axes, trim, norm, per), cost=2)
            for nd, axes in ((2, (-2, -1)), (2, (1, 0)), (3, (0, 2)), (2, (0, 0)), (1, (0, 1)), (3, (0,))):
                for lv in (1, 2):
                    add(f'swt2, rank {nd}, axes {axes}, level {lv}{t}', fwd('swt2', nd, lv, axes, trim, norm), cost=2)
            for L in (1, 2, 3):
                add(f'iswt(swt), level {L}{t}', back('swt', 1, L, -1, trim, norm), cost=L)
                if L < 3:
                    add(f'iswt(swt), rank 2 axis 0, level {L}{t}', back('swt', 2, L, 0, trim, norm), cost=L)
                    add(f'iswt(swt), rank 3 axis 1, level {L}{t}', back('swt', 3, L, 1, trim, norm), cost=L)
                    add(f'iswtn(swtn), rank 1, level {L}{t}', back('swtn', 1, L, None, trim, norm), cost=2 * L)
                    add(f'iswtn(swtn), rank 2, axes (1,), level {L}{t}', back('swtn', 2, L, (1,), trim, norm), cost=2 * L)
                    add(f'iswtn(swtn), rank 2, level {L}{t}', back('swtn', 2, L, None, trim, norm, True), cost=6 * L * L)
                    if L == 1 or tier == 'thorough' or trim == norm:
                        add(f'iswtn(swtn), rank 2, axes (1, 0), level {L}{t}', back('swtn', 2, L, (1, 0), trim, norm, True), cost=6 * L * L)
                    add(f'iswt2(swt2), rank 2, level {L}{t}', back('swt2', 2, L, (-2, -1), trim, norm, True), cost=6 * L * L)
                    if L == 1 or tier == 'thorough' or trim != norm:
                        add(f'iswt2(swt2), rank 2, axes (1, 0), level {L}{t}', back('swt2', 2, L, (1, 0), trim, norm, False), cost=6 * L * L)
                if L == 1:
                    add(f'iswtn(swtn), rank 3, axes (2, 0), level {L}{t}', back('swtn', 3, L, (2, 0), trim, norm, True), cost=9)
                    add(f'iswtn(swtn), rank 3, level {L}{t}', back('swtn', 3, L, None, trim, norm, True), cost=30)
    return T


if __name__ == '__main__':
    go(tasks_C07)
