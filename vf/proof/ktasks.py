"""Proof tasks over the C sources, shared between properties."""
import time
import z3
import kern, wtc, lemmas
from lib import *
from ext import MODES

CREAL = ['wt.c and convolution.c are read through clang 18 (JSON AST) with the flags of the build; the AST is trusted to be the program',
         'floating point arithmetic is treated as real arithmetic (rounding is outside the proof)',
         'input, filter and output buffers of a kernel do not overlap (restrict in the source) and sizes are below 2^58',
         'z3 (verification conditions), the VC generator in vf/proof/cvc.py']


def small(v, lo, hi, d):
    return v if isinstance(v, int) and lo <= v <= hi else d


def near(v, caps):
    """candidate sizes from a model value: itself if runnable, and shrunk versions"""
    res = []
    if isinstance(v, int):
        for c in caps:
            if 0 < v <= c:
                res.append(v)
                break
        if v > caps[-1]:
            res += [caps[-1], caps[-1] - 1]
    return res


def NF(m):
    Ns = near(m.get('N'), [300000])
    Fs = [f + f % 2 for f in near(m.get('F'), [600])]
    out = []
    for N in (Ns or [5]) + [1, 2, 3, 4, 7, 33]:
        for F in (Fs or [4]) + [2, 4, 10]:
            if N * F < 3000000 and (N, F) not in out:
                out.append((N, F))
    return out[:14]


def rep_dwt(mode, T='double', only=None):
    def f(vc, o):
        m = model_ints(o.model, ('N', 'F'))
        return [dict(fn='dwt', N=N, w=[F, 1], mode=mode, dtype=NP[T], seed=1) for N, F in NF(m)
                if not ('reflect' in mode and N < 2)]
    return f


def rep_idwt(mode, T='double'):
    def f(vc, o):
        m = model_ints(o.model, ('N', 'F'))
        return [dict(fn='idwt', n=N, w=[F, 1], mode=mode, dtype=NP[T], bands='ad', seed=1) for N, F in NF(m)
                if mode == 'periodization' or 2 * N - F + 2 >= 1]
    return f


def rep_upcoef(T='double'):
    def f(vc, o):
        m = model_ints(o.model, ('N', 'F'))
        return [dict(fn='upcoef', n=N, w=[F, 1], dtype=NP[T], part='ad'[i % 2], level=1, take=0, seed=1) for i, (N, F) in enumerate(NF(m))]
    return f


def rep_swt(T='double', level=None):
    def f(vc, o):
        m = model_ints(o.model, ('N', 'F', 'fstep'))
        lev = level or max(1, min(6, (m.get('fstep') or 1).bit_length()))
        res = []
        for N, F in NF(m):
            b = 1 << lev
            n = max(b, N - N % b)
            if n * F * b < 8000000:
                res.append(dict(k='def', shape=[n], w=[F, 1], level=lev, start=0, dtype=NP[T], seed=1, axes=[-1], trim=0, fn='swt'))
        return res
    return f


# C02 wants memory cases; the C01 style case runs under the address sanitizer there
def kernel_tasks(which, rep=True, safety=False):
    """which: list of ('down', mode) ('per', step, fstep) ('full',) ('valid', mode)"""
    res = []

    def one(base, runner, cost, replay_of, key):
        def run(deadline):
            fns, en = tu('convolution.c')
            out = []
            for g in group(fns, base):
                T = g[0]
                vc = runner(fns, en, T, deadline)
                out += records(vc, False, replay_of(T) if rep else None)
                for o in out:
                    o.setdefault('types', g)
            return out
        res.append(Task(key, run, cost, ['convolution.template.c:' + base]))
    for w in which:
        if w[0] == 'down':
            one('downsampling_convolution', lambda f, e, T, d, w=w: kern.run_down(f, e, T, w[1], 2, d),
                {'antireflect': 40, 'smooth': 20}.get(w[1], 10), lambda T, w=w: rep_dwt(w[1], T), f'downsampling_convolution[{w[1]}]')
        elif w[0] == 'per':
            one('downsampling_convolution_periodization', lambda f, e, T, d, w=w: kern.run_per(f, e, T, w[1], w[2], d), 25,
                (lambda T: rep_dwt('periodization', T)) if w[1] == 2 else (lambda T: rep_swt(T)), f'downsampling_convolution_periodization[step {w[1]}]')
        elif w[0] == 'full':
            one('upsampling_convolution_full', lambda f, e, T, d: kern.run_full(f, e, T, d), 5, lambda T: rep_upcoef(T), 'upsampling_convolution_full')
        else:
            one('upsampling_convolution_valid_sf', lambda f, e, T, d, w=w: kern.run_valid(f, e, T, w[1], d), 50,
                lambda T, w=w: rep_idwt('periodization' if w[1] == 'periodization' else 'zero', T), f'upsampling_convolution_valid_sf[{w[1]}]')
    return res


def wt_task(base, runner, cost, replay_of=None, key=None):
    def run(deadline):
        fns, en = tu('wt.c')
        out = []
        for g in group(fns, base):
            for vcs in [runner(fns, en, g[0], deadline)]:
                out += records(vcs, True, replay_of(g[0]) if replay_of else None)
        return out
    return Task(key or base, run, cost, ['wt.template.c:' + base])


def rep_many(cases):
    return lambda T: (lambda vc, o: [dict(c, dtype=NP[T]) for c in cases])


DWTC = [dict(fn='dwt', N=N, w=[F, 1], mode=m, seed=2) for N, F in ((5, 4), (8, 2), (3, 10)) for m in ('symmetric', 'periodization', 'zero')] + \
    [dict(fn='downcoef', N=9, w=[4, 1], mode='constant', seed=3, part=p, level=l) for p in 'ad' for l in (1, 2)]
IDWTC = [dict(fn='idwt', n=n, w=[F, 1], mode=m, bands=b, seed=2) for n, F in ((5, 4), (8, 2)) for m in ('symmetric', 'periodization')
         for b in ('ad', 'a', 'd')]
UPC = [dict(fn='upcoef', n=n, w=[F, 1], part=p, level=l, take=0, seed=2) for n, F in ((5, 4), (1, 2)) for p in 'ad' for l in (1, 2)]
SWTC = [dict(k='def', shape=[32], w=[F, 1], level=l, start=0, seed=1, axes=[-1], trim=0, fn='swt') for F in (2, 4, 6) for l in (1, 2, 3, 5)]


def dec_tasks():
    return [wt_task('dec_' + w, lambda f, e, T, d, w=w: wtc.run_dec(f, e, T, w, d), 3, rep_many(DWTC)) for w in 'ad']


def rec_tasks():
    return [wt_task('rec_' + w, lambda f, e, T, d, w=w: wtc.run_rec(f, e, T, w, d), 3, rep_many(UPC)) for w in 'ad']


def idwt_tasks():
    return [wt_task('idwt', lambda f, e, T, d, h=h: wtc.run_idwt(f, e, T, h, d), 3, rep_many(IDWTC), f'idwt[{h or "none"}]') for h in ('', 'a', 'd', 'ad')]


def swt_tasks(tier):
    levels = list(range(0, 66)) + [127, 255] if tier != 'quick' else list(range(0, 14)) + [20, 31, 32, 33, 45, 57, 58, 63, 64, 65, 255]
    return [wt_task('swt_' + w, lambda f, e, T, d, w=w, L=L: wtc.run_swt(f, e, T, w, L, d), 8, rep_many(SWTC), f'swt_{w}[levels {L}]')
            for w in 'ad' for L in [levels[i::4] for i in range(4)]]


def lemma_task(modes=MODES):
    def run(deadline):
        return [ob(o.name, 'proved' if o.status == 'proved' else 'undecided', 'z3 (lemma)', o.time, o.detail) for o in lemmas.all_lemmas(modes)]
    return Task('extension lemmas', run, 3)


def rep_types(kind):
    def f(base, T):
        return [dict(c, dtype=NP[T]) for c in kind]
    return f


def preload(names=('convolution.c', 'wt.c')):
    for n in names:
        try:
            tu(n)
        except Exception:
            pass
