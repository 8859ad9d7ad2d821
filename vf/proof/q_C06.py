from pylib import *

def tasks_C06(tier='quick'):
    T = []
    FN = ['pywt/_multidim.py: dwtn, idwtn, dwt2, idwt2, _fix_coeffs', 'pywt/_dwt.py: dwt, idwt', 'pywt/_utils.py: _as_wavelet, _wavelets_per_axis, _modes_per_axis']

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def mk_dwt(nd, ax):
        def run(e):
            x = e.input('x', sizes(e, nd), 'f8')
            meets(e, mod_dwt()['dwt'], S.dwt, (x, S.Wavelet('w'), sym_mode(e), ax))
        return run

    def mk_idwt(nd, ax, which):
        def run(e):
            sh = sizes(e, nd)
            a = e.input('a', sh, 'f8') if 'a' in which else None
            d = e.input('d', sizes(e, nd, 'M') if which == 'ad' else sh, 'f8') if 'd' in which else None
            meets(e, mod_dwt()['idwt'], S.idwt, (a, d, S.Wavelet('w'), sym_mode(e), ax))
        return run

    def mk_dwtn(nd, axes, per):
        def run(e):
            x = e.input('x', sizes(e, nd), 'f8')
            w, m = params(e, nd if axes is None else len(axes), per)
            meets(e, mod_multidim()['dwtn'], S.dwtn, (x, w, m, axes), alias=(axes == ()))
        return run

    def mk_idwtn(nd, axes, per, keys):
        def run(e):
            sh = sizes(e, nd, lo=1)
            c = {k: e.input('c' + k, sh, 'f8') for k in keys}
            w, m = params(e, len(keys[0]), per)
            meets(e, mod_multidim()['idwtn'], S.idwtn, (c, w, m, axes))
            e.ob('coefficient dictionary unchanged', list(c) == list(keys), '')
        return run

    def mk_2(nd, axes, inv, none=()):
        def run(e):
            w, m = params(e, 2, False)
            if not inv:
                x = e.input('x', sizes(e, nd), 'f8')
                meets(e, mod_multidim()['dwt2'], S.dwt2, (x, w, m, axes))
            else:
                sh = sizes(e, nd, lo=1)
                b = [None if i in none else e.input(f'b{i}', sh, 'f8') for i in range(4)]
                meets(e, mod_multidim()['idwt2'], S.idwt2, ((b[0], tuple(b[1:])), w, m, axes))
        return run
    for nd in (0, 1, 2, 3):
        for ax in range(-nd - 1, nd + 1):
            add(f'dwt, rank {nd}, axis {ax}', mk_dwt(nd, ax))
    for nd in (1, 2, 3):
        for ax in range(-nd, nd + 1):
            for which in ('ad', 'a', 'd'):
                add(f'idwt, rank {nd}, axis {ax}, bands {which}', mk_idwt(nd, ax, which))
    add('idwt, no bands', mk_idwt(1, 0, ''))
    axs = {1: [None, (0,), (-1,), (0, 0), (1,)],
           2: [None, (0, 1), (1, 0), (-1,), (0,), (1, 1), (-1, -2), (0, 0, 1), (2,), (0, -3)],
           3: [None, (2, 0), (1,), (0, 1, 2), (2, 1, 0), (-1, 0, 1), (1, 1), (0, 2), (-2, -1)]}
    for nd in axs:
        for axes in axs[nd]:
            for per in ((False, True) if nd < 3 else (True,)):
                add(f'dwtn, rank {nd}, axes {axes}' + (', per-axis wavelets and modes' if per else ''), mk_dwtn(nd, axes, per))
    import random
    for nd in axs:
        for axes in axs[nd]:
            n = nd if axes is None else len(axes)
            allk = [''.join(c) for c in itertools.product('ad', repeat=n)]
            subs = [allk, allk[1:], allk[-1:], allk[:1]] + ([allk[1:3]] if n > 1 else [])
            for keys in subs:
                for per in (True,) if keys is not allk else (False, True):
                    add(f'idwtn, rank {nd}, axes {axes}, bands {",".join(keys)}' + (', per-axis' if per else ''), mk_idwtn(nd, axes, per, keys), cost=2)
    for nd, axes in ((2, (-2, -1)), (2, (1, 0)), (3, (0, 2)), (2, (0, 0)), (1, (0, 0)), (1, (0, 1)), (3, (-1,))):
        add(f'dwt2, rank {nd}, axes {axes}', mk_2(nd, axes, False))
        add(f'idwt2, rank {nd}, axes {axes}', mk_2(nd, axes, True))
    for none in ((0,), (1,), (2,), (3,), (0, 1, 2), (1, 2, 3), (0, 1, 2, 3)):
        add(f'idwt2, bands {none} missing', mk_2(2, (-2, -1), True, none))
    return T
if __name__ == '__main__':
    go(tasks_C06)
