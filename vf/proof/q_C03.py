"""C03, Python layer: level limits, length wrappers, shape predictors."""
from pylib import *
zi = V.zi
FN = ['pywt/_multilevel.py: wavedecn_shapes, wavedecn_size, dwtn_max_level, _check_level, _prep_axes_wavedecn', 'pywt/_dwt.py: dwt_max_level, dwt_coeff_len']


def wavelist(family=None, kind='all'):
    if kind != 'discrete' or family is not None:
        raise V.Unsupported('wavelist')
    return ['w', 'db2', 'sym4']


def c_max(n, F):
    """contract of the compiled dwt_max_level"""
    if not V.isint(n) or not V.isint(F):
        if isinstance(F, float) and F == int(F):
            raise V.stub_exc(TypeError, 'size_t')
        raise V.Unsupported('dwt_max_level of ' + type(F).__name__)
    if bool(n < 0) or bool(F < 0):
        raise V.stub_exc(OverflowError, 'size_t')
    e = S._dml(zi(n), zi(F))
    V.CUR.assume(e >= 0)
    return SInt(e)


def c_len(n, F, mode):
    if bool(n < 0) or bool(F < 0):
        raise V.stub_exc(OverflowError, 'size_t')
    if bool(n < 1) or bool(F < 1):
        raise V.stub_exc(ValueError, 'length')
    return S.coeff_len(n, F, mode)


def mod():
    return V.load('pywt/_dwt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', 'dwt_axis', 'dwt_single', 'idwt_axis', 'idwt_single',
                                          _dwt_coeff_len=c_len, _dwt_max_level=c_max, wavelist=wavelist, **U('_as_wavelet')))


def leveln(shape, axes, ws, level):
    mx = V.smin(*[S.dwt_max_level(shape[a], w.dec_len) for a, w in zip(axes, ws)])
    if level is None:
        return mx
    if bool(level < 0):
        raise V.stub_exc(ValueError, 'level')
    return level


def shapes_spec(shape, wavelet, mode='symmetric', level=None, axes=None):
    """the shapes of the arrays of wavedecn with the same arguments, computed from the contract of wavedecn"""
    e = V.CUR
    x = SArr.fresh(tuple(shape), np.dtype('f8'), lambda idx: z3.RealVal(0))
    c = S.wavedecn(x, wavelet, mode, level, axes)
    return [c[0].shape] + [{k: v.shape for k, v in d.items()} for d in c[1:]]


def max_spec(shape, wavelet, axes=None):
    axes = S.axes_n(shape, axes)
    ws = S.per_axis_w(wavelet, axes)
    return leveln(shape, axes, ws, None)


def tasks_C03(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))
    LV = ['sym', None]

    def ints(e, nd, lo=1):
        return tuple(e.int(f'N{k}', lo) for k in range(nd))

    def shp(nd, axes, per, lv, box):
        def run(e):
            ns = mod_multilevel()
            s = ints(e, nd)
            na = nd if axes is None else 1 if isinstance(axes, int) else len(axes)
            w, m = params(e, na, per)
            l = e.int('level') if lv == 'sym' else lv
            k, r = e.call(ns['wavedecn_shapes'], box(s), w, m, l, axes)
            k2, c = e.call(shapes_spec, s, w, m, l, axes)
            e.ob('raises exactly when wavedecn does', k == k2 or k2 == 'raise' and reflect1(c), f'{k} {r!r} / {k2} {c!r}'[:300])
            if k == k2 == 'ok':
                compare(e, [tuple(r[0])] + r[1:], c, 'shapes are those of the decomposition')
        return run

    def reflect1(ex):
        return 'one sample' in str(ex)     # a signal of one sample has no reflection: refused by the transform only
    for nd, axes in [(1, None), (2, None), (2, (1,)), (2, 0), (2, (-1, 0)), (3, (2, 0)), (3, None), (2, (0, 0)), (2, (0, 2)), (2, (0, -2, 1)), (3, (-3,))]:
        for lv in LV:
            for per in (False, True):
                if per and isinstance(axes, int): continue
                add(f'wavedecn_shapes, {nd} axes, axes={axes}, level {lv or "default"}' + (', per-axis' if per else ''), shp(nd, axes, per, lv, tuple), cost=2)
    add('wavedecn_shapes, shape given as a list', shp(2, None, False, 'sym', list), cost=2)
    add('wavedecn_shapes, no axes', shp(0, None, False, None, tuple))

    def mx(nd, axes, per):
        def run(e):
            ns = mod_multilevel()
            s = ints(e, nd)
            w, m = params(e, nd if axes is None else 1 if isinstance(axes, int) else len(axes), per)
            meets(e, ns['dwtn_max_level'], max_spec, (s, w, axes))
        return run
    for nd, axes in [(1, None), (2, None), (2, (1,)), (2, 1), (3, (2, 0)), (3, None), (2, (-1, -2)), (2, (1, 1)), (2, (3,))]:
        for per in (False, True):
            if per and isinstance(axes, int): continue
            add(f'dwtn_max_level, {nd} axes, axes={axes}' + (', per-axis' if per else ''), mx(nd, axes, per))

    def lev(n, lv):
        def run(e):
            ns = mod_multilevel()
            s, f = [e.int(f'N{k}', 1) for k in range(n)], [e.int(f'F{k}', 2) for k in range(n)]
            l = e.int('level') if lv == 'sym' else None
            k, r = e.call(ns['_check_level'], s if n != 1 else s[0], f if n != 1 else f[0], l)
            if lv == 'sym':
                e.require('refuses exactly negative levels', zi(l) < 0 if k == 'raise' else zi(l) >= 0, repr(r)[:200])
                if k == 'ok':
                    e.require('a level is used as given', zi(r) == zi(l), repr(r))
                    top = z3.And([zi(l) <= S._dml(zi(a), zi(b)) for a, b in zip(s, f)])
                    e.require('warns exactly above the limit', z3.Not(top) if e.warnings else top, str(e.warnings))
            elif k == 'ok':
                d = [S._dml(zi(a), zi(b)) for a, b in zip(s, f)]
                e.require('the default level is the smallest limit', z3.And(z3.Or([zi(r) == x for x in d]), *[zi(r) <= x for x in d]), repr(r))
            else:
                e.ob('a default level exists', False, repr(r)[:200])
        return run
    for n in (1, 2, 3):
        for lv in LV:
            add(f'_check_level, {n} axes, level {lv or "default"}', lev(n, lv))

    def size(nd, L, arrays, none):
        def run(e):
            ns = mod_multilevel()
            keys = [''.join(c) for c in itertools.product('ad', repeat=nd)][1:]
            sh = [tuple(e.int(f'L{l}_{k}', 0) for k in range(nd)) for l in range(L + 1)]
            f = (lambda n, s: e.input(n, s, 'f8')) if arrays else (lambda n, s: s)
            c = [f('a', sh[0])] + [{k: None if none == (l, k) else f(f'd{l}{k}', sh[l]) for k in keys} for l in range(1, L + 1)]
            k, r = e.call(ns['wavedecn_size'], c)
            e.ob('raises exactly when a band is missing', (k == 'raise') == (none is not None), repr(r)[:200])
            if k == 'ok':
                tot = zi(V.prod(sh[0]))
                for s in sh[1:]:
                    tot = tot + len(keys) * zi(V.prod(s))
                e.require('total number of coefficients', zi(r) == tot, repr(r)[:200])
                e.ob('arguments are not written', not e.input_writes, str(e.input_writes))
        return run
    for nd in (1, 2, 3):
        for L in (0, 1, 2):
            for arrays in (False, True):
                add(f'wavedecn_size, {nd} axes, {L} levels, from {"arrays" if arrays else "shapes"}', size(nd, L, arrays, None))
    add('wavedecn_size, missing band', size(2, 2, True, (1, 'dd')))

    # --- wrappers of the length functions
    def ml(kind):
        def run(e):
            ns = mod()
            n = e.int('N')
            F = e.int('F')
            arg = dict(int=F, wavelet=S.Wavelet('w'), name='db2', bad='nope', frac=2.5, obj=None)[kind]
            k, r = e.call(ns['dwt_max_level'], n, arg)
            want = F if kind == 'int' else arg.dec_len if kind == 'wavelet' else S.Wavelet('db2').dec_len if kind == 'name' else None
            if want is None:
                e.ob('refused', k == 'raise' and isinstance(r, ValueError), repr(r)[:200])
            elif k == 'raise':
                e.require('refuses only filters shorter than 2 and negative lengths', z3.Or(zi(want) < 2, zi(n) < 0), repr(r)[:200])
            else:
                e.require('filter of at least 2 taps', zi(want) >= 2, '')
                e.require('the compiled limit', zi(r) == S._dml(zi(n), zi(want)), repr(r)[:200])
        return run
    for kind in ('int', 'wavelet', 'name', 'bad', 'frac', 'obj'):
        add(f'dwt_max_level, filter given as {kind}', ml(kind))

    def cl(kind, mk):
        def run(e):
            ns = mod()
            n, F = e.int('N'), e.int('F')
            m = sym_mode(e) if mk == 'sym' else mk
            arg = dict(int=F, wavelet=S.Wavelet('w'))[kind]
            f = F if kind == 'int' else arg.dec_len
            k, r = e.call(ns['dwt_coeff_len'], n, arg, m)
            if mk == 'bad':
                e.ob('refused', k == 'raise' and isinstance(r, ValueError), repr(r)[:200])
                return
            if k == 'raise':
                e.require('refuses only empty signals and filters', z3.Or(zi(n) < 1, zi(f) < 1), repr(r)[:200])
            else:
                per = zi(m if mk == 'sym' else S.MODE[mk]) == S.PER
                e.require('documented length', z3.And(zi(n) >= 1, zi(f) >= 1, zi(r) == z3.If(per, (zi(n) + 1) / 2, (zi(n) + zi(f) - 1) / 2)), repr(r)[:200])
        return run
    for kind in ('int', 'wavelet'):
        for mk in ['sym', 'bad'] + sorted(S.MODE):
            add(f'dwt_coeff_len, filter given as {kind}, mode {mk}', cl(kind, mk))
    return T


if __name__ == '__main__':
    go(tasks_C03)
