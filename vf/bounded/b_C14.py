import math
import numpy as np
from . import core

TOL = 1e-9


def cases(tier, rng):
    import pywt
    for n in pywt.wavelist(kind='discrete'):
        yield dict(t='table', w=n)
        yield dict(t='case', w=n)
    for i in range(2400 if tier == 'quick' else 30000):
        n = rng.randrange(1, 15)
        yield dict(t='qmf', n=n, seed=i, kind=rng.choice(['list', 'f8', 'i8', 'f4', 'c16', 'tuple', 'rev']))
        yield dict(t='ofb', n=n, seed=i, kind=rng.choice(['list', 'f8', 'i8', 'f4', 'tuple', 'rev']))
        yield dict(t='bank', n=[n] * 4 if rng.random() < .7 else [n, n, n, rng.randrange(1, 15)], seed=i,
                   kind=rng.choice(['list', 'f8', 'i8', 'tuple', 'rev', 'obj', 'method']), k=4 if rng.random() < .85 else rng.choice([1, 2, 3, 5]))


def chk_pr(dl, dh, rl, rh, tol):
    """perfect reconstruction: alias cancellation and distortion, delay F-1"""
    F = len(dl)
    T = np.convolve(dl, rl) + np.convolve(dh, rh)
    want = np.zeros(2 * F - 1)
    want[F - 1] = 2
    if np.abs(T - want).max() > tol:
        return f'distortion off by {np.abs(T - want).max():.3g}'
    s = (-1.0) ** np.arange(F)
    A = np.convolve(dl * s, rl) + np.convolve(dh * s, rh)
    if np.abs(A).max() > tol:
        return f'aliasing {np.abs(A).max():.3g}'


def run(c):
    import pywt
    t = c['t']
    if t == 'case':
        # names are case-insensitive and give the same filters
        a, b = pywt.Wavelet(c['w']), pywt.Wavelet(c['w'].upper())
        return None if a.filter_bank == b.filter_bank else 'filters depend on the case of the name'
    if t == 'table':
        n = c['w']
        w = pywt.Wavelet(n)
        fb = [np.array(f) for f in (w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi)]
        tol = 1e-2 if n == 'dmey' else TOL
        if [list(f) for f in fb] != [list(f) for f in w.filter_bank]:
            return 'filter_bank differs from dec_lo/dec_hi/rec_lo/rec_hi'
        if [list(f) for f in w.inverse_filter_bank] != [list(fb[2][::-1]), list(fb[3][::-1]), list(fb[0][::-1]), list(fb[1][::-1])]:
            return 'inverse_filter_bank'
        F = len(fb[0])
        if any(len(f) != F for f in fb) or F % 2 or F < 2 or w.dec_len != F or w.rec_len != F or len(w) != F:
            return f'lengths {[len(f) for f in fb]} dec_len {w.dec_len} rec_len {w.rec_len} len {len(w)}'
        dl, dh, rl, rh = fb
        e = chk_pr(dl, dh, rl, rh, tol)
        if e:
            return e
        import re
        m = re.fullmatch(r'(db|sym|coif|bior|rbio|dmey|haar)(\d*)\.?(\d*)', n)
        fam, a, b = m.group(1), int(m.group(2) or 0), int(m.group(3) or 0)
        stated = {'haar': 2, 'db': 2 * a, 'sym': 2 * a, 'coif': 6 * a, 'dmey': 62}.get(fam)
        if stated and F != stated:
            return f'length {F}, stated {stated}'
        orth = fam in ('haar', 'db', 'sym', 'coif', 'dmey')
        if w.orthogonal != orth or w.biorthogonal is not True or w.short_family_name != fam or w.name != n:
            return f'flags {w.orthogonal} {w.biorthogonal} {w.short_family_name} {w.name}'
        if orth:
            if not (np.array_equal(dl, rl[::-1]) and np.array_equal(dh, rh[::-1])):
                return 'time reversal relation'
            s = (-1.0) ** np.arange(F)
            if np.abs(rh - rl[::-1] * s).max() > 0:
                return 'alternating sign relation'
            for k in range(0, F, 2):
                if abs((dl[k:] * dl[:F - k]).sum() - (k == 0)) > tol or abs((dh[k:] * dh[:F - k]).sum() - (k == 0)) > tol:
                    return f'orthonormality at shift {k}'
                for q in (k, -k):
                    v = sum(dl[i] * dh[i - q] for i in range(F) if 0 <= i - q < F)
                    if abs(v) > tol:
                        return f'cross orthogonality at shift {q}'
        if fam == 'rbio':
            o = pywt.Wavelet(n.replace('rbio', 'bior'))
            if [list(f) for f in w.filter_bank] != [list(np.array(f)) for f in o.inverse_filter_bank]:
                return 'not the mirror of its bior bank'
        if abs(dl.sum() - math.sqrt(2)) > tol or abs(rl.sum() - math.sqrt(2)) > tol:
            return f'low-pass sums {dl.sum()}, {rl.sum()}'
        vm = {'haar': 1, 'db': a, 'sym': a, 'coif': 2 * a}.get(fam)
        if vm is not None and w.vanishing_moments_psi != vm:
            return f'vanishing_moments_psi {w.vanishing_moments_psi}, expected {vm}'
        if fam == 'coif' and w.vanishing_moments_phi != 2 * a - 1:
            return f'vanishing_moments_phi {w.vanishing_moments_phi}'
        # bior Nr.Nd: the decomposition high-pass has Nr vanishing moments (it mirrors the rec low-pass), rec high-pass Nd
        nd, nr = {'bior': (a, b), 'rbio': (b, a)}.get(fam, (vm or 1, vm or 1))
        if n in ('bior5.5', 'rbio5.5'):      # published bank: 6 and 4 instead of 5 and 5
            nd, nr = (6, 4) if fam == 'bior' else (4, 6)
        for f, k, nm in ((dh, nd, 'dec_hi'), (rh, nr, 'rec_hi')):
            p = np.arange(F) - (F - 1) / 2
            p = p / (np.abs(p).max() or 1)
            for q in range(k):
                if abs((f * p ** q).sum()) > (tol if q == 0 else max(tol, 1e-9)):
                    return f'{nm}: moment {q} is {(f * p ** q).sum():.3g}'
        # the single precision tables are the rounded double ones, and dwt uses the exposed filters: impulse responses
        for D in ('f4', 'f8'):
            N = 4 * F
            for q in (F, F + 1):
                x = np.zeros(N, core.DT[D])
                x[2 * F + (q % 2)] = 1
                a1, d1 = pywt.dwt(x, w, 'zero')
                for got, f in ((a1, dl), (d1, dh)):
                    want = np.array([f[j] if 0 <= (j := 2 * o + 1 - 2 * F - (q % 2)) < F else 0 for o in range(len(got))])
                    if core.diff(got, want, 1.3e-7 if D == 'f4' else 0.0, '', core.DT[D]):
                        return f'dwt of an impulse in {D} differs from the exposed filters'
                cz = np.zeros(N, core.DT[D])
                o1 = np.zeros(N, core.DT[D])
                o1[F] = 1
                for args, f in (((o1, cz), rl), ((cz, o1), rh)):
                    y = pywt.idwt(*args, w, 'zero')
                    want = np.zeros(2 * N - F + 2)
                    for p in range(len(want)):
                        k = p + F - 2 - 2 * F
                        if 0 <= k < F:
                            want[p] = f[k]
                    if core.diff(y, want, 1.3e-7 if D == 'f4' else 0.0, '', core.DT[D]):
                        return f'idwt of an impulse in {D} differs from the exposed filters'
        return None
    r = np.random.default_rng(c['seed'])
    kind = c['kind']

    def mk(n):
        v = r.integers(-5, 6, n) + 0.0
        v[0] += 7 * n
        if kind == 'c16':
            return v + 1j * r.integers(-5, 6, n)
        if kind == 'rev':
            return v[::-1].copy()[::-1]
        if kind in ('f8', 'f4', 'i8'):
            return v.astype(kind)
        return v.tolist() if kind != 'tuple' else tuple(v.tolist())
    if t == 'qmf':
        f = mk(c['n'])
        f0 = np.array(f)
        want = np.array([f0[::-1][k] * (1 if k % 2 == 0 else -1) for k in range(len(f0))])
        got = pywt.qmf(f)
        return core.diff(got, want, 0.0, 'qmf', f0.dtype) or (None if np.array_equal(np.array(f), f0) else 'qmf changed its input')
    if t == 'ofb':
        f = mk(c['n'])
        f0 = np.array(f, float)
        if c['n'] % 2:
            return core.raises(lambda: pywt.orthogonal_filter_bank(f), ValueError)
        got = pywt.orthogonal_filter_bank(f)
        rl = math.sqrt(2) * f0 / f0.sum()
        rh = np.array([rl[::-1][k] * (1 if k % 2 == 0 else -1) for k in range(len(rl))])
        for nm, g, w in zip(('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'), got, (rl[::-1], rh[::-1], rl, rh)):
            e = core.diff(g, w, 1e-13, nm)
            if e:
                return e
        return None if np.array_equal(np.array(f, float), f0) and len(got) == 4 else 'input changed'
    ns = (c['n'] + [c['n'][0]])[:c['k']]
    fb = [mk(n) for n in ns]
    f0 = [np.array(f, float) for f in fb]
    arg = fb
    if kind == 'obj':
        class O:
            filter_bank = fb
        arg = O()
    if kind == 'method':
        class O:
            def get_filters_coeffs(self):
                return fb
        arg = O()
        import warnings
        warnings.simplefilter('ignore')
    if c['k'] != 4 or len(set(ns)) > 1:
        return core.raises(lambda: pywt.Wavelet('x', filter_bank=arg), ValueError)
    w = pywt.Wavelet('x', filter_bank=arg)
    n = ns[0]
    want = [np.append(f, [0.0] * (n % 2)) for f in f0]
    for nm, f in zip(('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'), want):
        e = core.diff(getattr(w, nm), f, 0.0, nm)
        if e:
            return e
    for g, f in zip(w.filter_bank, want):
        e = core.diff(g, f, 0.0, 'filter_bank')
        if e:
            return e
    inv = [want[2][::-1], want[3][::-1], want[0][::-1], want[1][::-1]]
    for g, f in zip(w.inverse_filter_bank, inv):
        e = core.diff(g, f, 0.0, 'inverse_filter_bank')
        if e:
            return e
    if w.dec_len != n + n % 2 or w.rec_len != n + n % 2:
        return f'dec_len {w.dec_len}'
    if w.orthogonal or w.biorthogonal:
        return 'a custom bank is declared (bi)orthogonal'
    return None
