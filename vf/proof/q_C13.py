from pylib import *
zi = V.zi
FN = ['pywt/_mra.py: mra, mra2, mran, imra, imra2, imran', 'pywt/_multilevel.py: _prep_axes_wavedecn', 'pywt/_utils.py: _wavelets_per_axis, _modes_per_axis']


# ---- contracts: forward transforms as in pyspec; inverse transforms are linear and invert the forward transform (C07, C08)
def leaves(c):
    """[(key, array)] of a coefficient structure"""
    r = [((0, ''), c[0])]
    for j, d in enumerate(c[1:], 1):
        if isinstance(d, SArr):
            r.append(((j, ''), d))
        elif isinstance(d, dict):
            r += [((j, k), d[k]) for k in sorted(d)]
        elif isinstance(d, (tuple, list)):
            if len(d) != 3:
                raise V.stub_exc(ValueError, 'details')
            r += [((j, k), v) for k, v in zip(('da', 'ad', 'dd'), d)]
        else:
            raise V.Unsupported('coefficient structure')
    return r


def wkey(w, n):
    ws = list(w) if isinstance(w, (list, tuple)) else [w] * n
    return tuple(x if isinstance(x, S.Wavelet) else S.as_wavelet(x) for x in (ws * n if len(ws) == 1 else ws))


def mkey(m, n):
    return tuple(m) if isinstance(m, (list, tuple)) else (m,) * n


def forward(kind):
    spec = dict(wavedec=S.wavedec, wavedec2=S.wavedec2, wavedecn=S.wavedecn, swt=S.swt, swt2=S.swt2, swtn=S.swtn)[kind]

    def f(data, wavelet, *a, **k):
        if a:
            raise V.Unsupported('positional arguments of ' + kind)
        c = spec(data, wavelet, **k)
        V.CUR.memo.setdefault('fwd', []).append((kind, params_of(kind, data.ndim, wavelet, k), SArr.fresh(data.shape, data.dtype, data.elem()), [(q, v.copy()) for q, v in leaves(c)], dict(k)))
        V.CUR.memo.pop('dwtlog', None)
        V.CUR.memo.pop('swtlog', None)
        return c
    return f


def params_of(kind, nd, wavelet, k):
    if kind in ('wavedec', 'swt'):
        axes = (k.get('axis', -1) % nd,)
    elif kind in ('wavedec2', 'swt2'):
        axes = tuple(a % nd for a in k.get('axes', (-2, -1)))
    else:
        axes = k.get('axes')
        axes = tuple(a % nd for a in (range(nd) if axes is None else axes))
    n = len(axes)
    if kind.startswith('swt'):
        return (wkey(wavelet, n), bool(k.get('norm', False)), axes)
    return (wkey(wavelet, n), mkey(k.get('mode', 'symmetric'), n), axes)


def inverse(kind):
    """kind: the forward transform"""
    def f(coeffs, wavelet, *a, **k):
        e = V.CUR
        if a:
            raise V.Unsupported('positional arguments')
        if len(coeffs) < 1:
            raise V.stub_exc(ValueError, 'empty')
        ls = leaves(coeffs)
        if any(v is None for _, v in ls):
            raise V.Unsupported('missing band')
        nd = ls[0][1].ndim
        par = params_of(kind, nd, wavelet, k)
        e.memo.setdefault('inv', []).append((kind, par))
        if kind.startswith('swt'):
            sh, dt = ls[0][1].shape, S.rule(ls[0][1].dtype)
            for _, v in ls:
                e.ob('the inverse stationary transform is given arrays of one shape', e.shape_eq(v.shape, sh), f'{v.shape} {sh}')
                if S.rule(v.dtype) != dt:
                    raise V.Unsupported('mixed types')
        elif len(coeffs) == 1:
            return coeffs[0]
        else:
            # extents, type and refusals as for the contract; contents by linearity
            z = lambda v: SArr.fresh(v.shape, v.dtype, lambda i: z3.RealVal(0))
            c0 = [z(coeffs[0])] + [z(d) if isinstance(d, SArr) else {q: z(v) for q, v in d.items()} if isinstance(d, dict) else tuple(z(v) for v in d) for d in coeffs[1:]]
            r = dict(wavedec=S.waverec, wavedec2=S.waverec2, wavedecn=S.waverecn)[kind](c0, wavelet, **k)
            sh, dt = r.shape, r.dtype

        def U(key, v):
            return e.opaque('U', (kind, key, len(coeffs), par), [v], sh, dt).elem()
        terms = []
        for key, v in ls:
            idx = [z3.Int(e.fresh('z')) for _ in v.shape]
            if e.valid(z3.Implies(z3.And(e.inb(idx, v.shape)), v.elem()(idx) == 0)):
                continue
            terms.append((key, v, U(key, v)))
            for k2, p2, x, fl, _ in e.memo.get('fwd', []):
                if k2 == kind and e.par_eq(p2, par) and fl[-1][0] == key and len(fl) == len(ls) and e.same(fl[-1][1], v):
                    # the operators of all coefficients together give back x
                    rest = [U(q, w) for q, w in fl[:-1]]
                    u, ex = terms[-1][2], x.elem()
                    terms[-1] = (key, v, lambda i, u=u, ex=ex, rest=rest, x=x: z3.If(z3.And(e.inb(i, x.shape)), ex(i) - sum((g(i) for g in rest), z3.RealVal(0)), u(i)))
                    break
        return SArr.fresh(sh, dt, lambda i: sum((t[2](i) for t in terms), z3.RealVal(0)))
    return f


def mod():
    u = utils()
    ml = mod_multilevel()
    return V.load('pywt/_mra.py', dict(_prep_axes_wavedecn=ml['_prep_axes_wavedecn'], wavedec=forward('wavedec'), wavedec2=forward('wavedec2'), wavedecn=forward('wavedecn'),
                                       waverec=inverse('wavedec'), waverec2=inverse('wavedec2'), waverecn=inverse('wavedecn'), swt=forward('swt'), swt2=forward('swt2'), swtn=forward('swtn'),
                                       iswt=inverse('swt'), iswt2=inverse('swt2'), iswtn=inverse('swtn'), swt_max_level=S.swt_max_level,
                                       _modes_per_axis=u['_modes_per_axis'], _wavelets_per_axis=u['_wavelets_per_axis']))


def crop(a, shape):
    return a[tuple([slice(0, n) for n in shape])]


def flat_components(fn, r):
    """[(key, component)] in the structure mra/mra2/mran document, or None"""
    if not isinstance(r, list) or not r:
        return None
    out = [((0, ''), r[0])]
    for j, d in enumerate(r[1:], 1):
        if fn == 'mra':
            out.append(((j, ''), d))
        elif fn == 'mra2':
            if not isinstance(d, tuple) or len(d) != 3:
                return None
            out += [((j, k), v) for k, v in zip(('da', 'ad', 'dd'), d)]
        else:
            if not isinstance(d, dict):
                return None
            out += [((j, k), d[k]) for k in sorted(d)]
    return out


def tasks_C13(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def fwd(fn, nd, axes, transform, level, per=False, dt='f8', mode=None):
        def run(e):
            ns = mod()
            x = e.input('x', sizes(e, nd, lo=1), dt)
            n = 1 if fn == 'mra' else 2 if fn == 'mra2' else nd if axes is None else len(axes)
            w = [S.Wavelet(f'w{j}') for j in range(n)] if per else S.Wavelet('w')
            kw = dict(axis=axes) if fn == 'mra' else dict(axes=axes)
            kw.update(level=level, transform=transform)
            is_swt = transform.startswith('swt')
            if mode == 'sym':
                kw['mode'] = [sym_mode(e, f'm{j}') for j in range(n)] if per else sym_mode(e)
            elif mode:
                kw['mode'] = mode
            k, r = e.call(ns[fn], x, w, **kw)
            w0 = list(e.input_writes)
            e.ob('argument is not written', not w0, str(w0))
            if is_swt and mode not in (None, 'periodization'):
                e.ob('the stationary transform refuses other modes', k == 'raise' and isinstance(r, ValueError), f'{k} {r!r}'[:200])
                return
            if k == 'raise':
                # refused only because the forward transform refuses the same arguments
                tr = dict(swt='swt', swt2='swt2', swtn='swtn', dwt='wavedec', dwt2='wavedec2', dwtn='wavedecn')[transform]
                lv = level
                if lv is None and fn != 'mra' and is_swt:
                    lv = V.smin(*[S.swt_max_level(s) for s in x.shape])
                kf = dict(axis=axes) if fn == 'mra' else dict(axes=axes)
                kf.update(dict(trim_approx=True, norm=True) if is_swt else dict(mode=kw.get('mode', 'periodization')))
                k2, r2 = e.call(getattr(S, tr), x, w, level=lv, **kf)
                e.ob('refused only when the transform refuses the arguments', k2 == 'raise', f'{r!r} / {r2!r}'[:300])
                return
            log = e.memo.get('fwd', [])
            e.ob('one forward transform of the data is taken', len(log) == 1 and e.same(log[0][2], x), str(len(log)))
            if len(log) != 1:
                return
            kind, par, _, fl, kf = log[0]
            tax = par[2]
            want_axes = tuple(a % nd for a in ((axes,) if fn == 'mra' else range(nd) if axes is None else axes))
            e.ob('along the requested axes', tax == want_axes, f'{tax} {want_axes}')
            ws = tuple(w) if per else (w,) * n
            e.ob('with the requested wavelets', par[0] == ws, str(par[0]))
            if is_swt:
                e.ob('trimmed and normalised', kf.get('trim_approx') is True and kf.get('norm') is True, str(kf))
            else:
                mm = kw.get('mode', 'periodization')
                e.ob('with the requested modes', all(e.par_eq(S.Modes.from_object(p), S.Modes.from_object(q)) for p, q in zip(par[1], mm if isinstance(mm, list) else [mm] * n)), str(par[1]))
            if level is not None:
                e.ob('of the requested level', e.par_eq(kf.get('level'), level), str(kf.get('level')))
            comps = flat_components(fn, r)
            e.ob('components have the structure of the coefficients', comps is not None and [q for q, _ in comps] == [q for q, _ in fl], f'{comps and [q for q, _ in comps]} {[q for q, _ in fl]}')
            if comps is None or len(comps) != len(fl):
                return
            ok = True
            for q, v in comps:
                if not isinstance(v, SArr) or v.ndim != nd:
                    e.ob('component is an array of the rank of the data', False, repr(v)[:200])
                    return
                ok = e.require('component has the shape of the data', z3.And([zi(p) == zi(s) for p, s in zip(v.shape, x.shape)]), str(v.shape)) and ok
                e.ob('component has the type of the transform', v.dtype == S.rule(x.dtype), f'{v.dtype}')
            if not ok:
                return
            inv = inverse(kind)
            npx = V.NP()
            for i, (q, v) in enumerate(comps):
                alone = build(fl, kind, lambda j, a: a if j == i else npx.zeros_like(a))
                rec = inv(alone, list(ws) if per else w, **{**({'axis': tax[0]} if fn == 'mra' else {'axes': tax}), **(dict(norm=True) if is_swt else dict(mode=list(par[1]) if fn != 'mra' else par[1][0]))})
                e.require_same('component k is the inverse transform of the k-th coefficient set alone', v, crop(rec, x.shape))
                e.ob('component shares no memory with the data', len(comps) == 1 or v.buf.origin == 'fresh' and v.shares is None, '')
            idx = [z3.Int(e.fresh('t')) for _ in x.shape]
            e.require('the components add up to the data', z3.Implies(z3.And(e.inb(idx, x.shape)), sum((v.elem()(idx) for _, v in comps), z3.RealVal(0)) == x.elem()(idx)))
            bufs = [v.buf for _, v in comps]
            e.ob('components share no memory with each other', len({id(b) for b in bufs}) == len(bufs), '')
        return run

    def build(fl, kind, f):
        r = []
        for i, ((j, k), a) in enumerate(fl):
            v = f(i, a)
            if j >= len(r):
                r.append(v if kind in ('wavedec', 'swt') or j == 0 else [] if kind in ('wavedec2', 'swt2') else {})
            if j and kind in ('wavedec2', 'swt2'):
                r[j].append(v)
            elif j and kind in ('wavedecn', 'swtn'):
                r[j][k] = v
        return r

    def add_up(fn, nd, n, dt):
        def run(e):
            ns = mod()
            sh = sizes(e, nd)
            arrs = []

            def new():
                a = e.input(f'c{len(arrs)}', sh, dt)
                arrs.append(a)
                return a
            c = [new()]
            for j in range(1, n):
                c.append(new() if fn == 'imra' else tuple(new() for _ in range(3)) if fn == 'imra2' else {k: new() for k in ('ad', 'da', 'dd')[:3]})
            k, r = e.call(ns[fn], c)
            e.ob('succeeds', k == 'ok', repr(r)[:200])
            e.ob('components are not altered', not e.input_writes, str(e.input_writes))
            if k != 'ok':
                return
            e.require_same('the sum of the components', r, SArr.fresh(sh, np.dtype(dt), lambda i: sum((a.elem()(i) for a in arrs), z3.RealVal(0))))
            e.ob('result shares no memory with a component', n == 1 and fn == 'imra' or r.buf.origin == 'fresh', r.buf.origin)
        return run
    for fn, trs in (('mra', ('swt', 'dwt')), ('mra2', ('swt2', 'dwt2')), ('mran', ('swtn', 'dwtn'))):
        cases = {'mra': ((1, -1), (1, 0), (2, 0), (2, -1), (3, 1)), 'mra2': ((2, (-2, -1)), (2, (1, 0)), (3, (0, 2)), (3, (-2, -1))),
                 'mran': ((1, None), (2, None), (2, (1,)), (2, (-1, 0)), (3, (2, 0)), (3, None))}[fn]
        for nd, axes in cases:
            for tr in trs:
                per = fn == 'mran'
                big = fn == 'mran' and nd == 3 and axes is None
                for level in (1,) if big else (1, 2, 3) if fn == 'mra' else (1, 2):
                    for p in (False, True) if per else (False,):
                        for mode in (('sym', None) if tr.startswith('dwt') else (None, 'symmetric')):
                            if mode != 'sym' and level > 1:
                                continue
                            add(f'{fn}, rank {nd}, axes {axes}, {tr}, level {level}, mode {mode}' + (', per-axis' if p else ''), fwd(fn, nd, axes, tr, level, p, mode=mode if tr.startswith('dwt') else mode), cost=level * (3 if fn == 'mran' else 1) * nd)
                add(f'{fn}, rank {nd}, axes {axes}, {tr}, level None', fwd(fn, nd, axes, tr, None), cost=4) if nd < 3 and (fn == 'mra' or fn == 'mra2' and (tr == 'swt2' or tier == 'thorough')) else None
        for dt in ('f4', 'c16'):
            for tr in trs:
                add(f'{fn}, {dt}, {tr}', fwd(fn, 2, -1 if fn == 'mra' else (0, 1), tr, 1, dt=dt))
        for nd in (1, 2, 3):
            for n in (1, 2, 3, 4):
                for dt in ('f8', 'c16') if nd == 1 else ('f8',):
                    add(f'i{fn}, rank {nd}, {n} levels, {dt}', add_up('i' + fn, nd, n, dt))
    return T


if __name__ == '__main__':
    go(tasks_C13)
