"""Contracts of the small C functions: wt.template.c (dec_*, rec_*, idwt, swt_*) and common.c lengths."""
import z3
from cast import Unsupported, N as Node
from cvc import VC, Arr, Ptr, FV, Theory, Z, R0, Obl, Struct, NULL, Filt
from ext import MODES, CNAME

BIG = 1 << 58
TYPES = ['float', 'double', 'float_complex', 'double_complex']
SIZE = {'float': 4, 'double': 8, 'float_complex': 8, 'double_complex': 16}


def real_of(T):
    return T.split('_')[0]


def dwt_len(N, F, mode_is_per):
    return z3.If(mode_is_per, (N + 1) / 2, (N + F - 1) / 2)


def event(st, ev):
    st.env['$ev'] = st.env.get('$ev', ()) + (ev,)


def ret0(vc):
    r = vc.fresh('ret', 'int')
    return r


# ---------------------------------------------------------------- contracts used at call sites
def length_contracts(en):
    per = en['MODE_PERIODIZATION']

    def dwt_buffer_length(vc, e, a, st):
        N, F, m = a
        return z3.If(z3.Or(N < 1, F < 1), Z(0), dwt_len(N, F, m == per))

    def reconstruction_buffer_length(vc, e, a, st):
        return z3.If(z3.Or(a[0] < 1, a[1] < 1), Z(0), 2 * a[0] + a[1] - 2)

    def idwt_buffer_length(vc, e, a, st):
        n, F, m = a
        v = z3.If(m == per, 2 * n, 2 * n - F + 2)
        return z3.If(v < 0, v + (1 << 64), v)

    def swt_buffer_length(vc, e, a, st):
        return a[0]

    def swt_max_level(vc, e, a, st):
        r = vc.fresh('maxlev', 'int')
        st.pc += [r >= 0, r < 64]
        # for concrete k: r >= k  <->  2^k divides N  (N >= 1)
        st.pc += [(r >= k) == (a[0] % (1 << k) == 0) for k in range(0, 60)]
        st.pc += [z3.Implies(a[0] == 0, r == 0)]
        return r
    return dict(dwt_buffer_length=dwt_buffer_length, reconstruction_buffer_length=reconstruction_buffer_length,
                idwt_buffer_length=idwt_buffer_length, swt_buffer_length=swt_buffer_length, swt_max_level=swt_max_level)


def need(vc, st, cond, what, line):
    vc.oblige(st, cond, what + f', call at line {line}', line, 'pre')


def buf(vc, st, p, n, what, line):
    if not isinstance(p, Ptr) or p.arr is None:
        raise Unsupported('kernel called with a null buffer')
    need(vc, st, z3.And(p.off >= 0, p.off + n <= p.arr.length), f'{what} lies inside {p.arr.name}', line)


def kernel_contracts(T, en):
    def down(vc, e, a, st):
        inp, N, fil, F, out, step, mode = a
        per = mode == en['MODE_PERIODIZATION']
        need(vc, st, z3.And(N >= 1, F >= 2, F % 2 == 0, step == 2), 'kernel precondition (N, F, step)', e.line)
        need(vc, st, z3.Implies(z3.Or(mode == en['MODE_REFLECT'], mode == en['MODE_ANTIREFLECT']), N >= 2), 'reflecting modes need two samples', e.line)
        need(vc, st, z3.And(mode >= 0, mode < en['MODE_MAX']), 'mode is a valid mode', e.line)
        buf(vc, st, inp, N, 'input', e.line)
        buf(vc, st, fil, F, 'filter', e.line)
        buf(vc, st, out, dwt_len(N, F, per), 'output', e.line)
        event(st, ('down', inp.arr.name, inp.off, N, fil.arr.name, fil.off, F, out.arr.name, out.off, mode))
        return Z(0)

    def per_(vc, e, a, st):
        inp, N, fil, F, out, step, fs = a
        need(vc, st, z3.And(N >= 1, F >= 2, F % 2 == 0, step == 1, fs >= 1), 'kernel precondition (N, F, step, fstep)', e.line)
        fsn = z3.simplify(fs)
        if not z3.is_int_value(fsn):
            raise Unsupported('symbolic fstep')
        need(vc, st, z3.And(N % fsn == 0, F % fsn == 0, (F / 2) % fsn == 0), 'N, F and F/2 are multiples of fstep', e.line)
        buf(vc, st, inp, N, 'input', e.line)
        buf(vc, st, fil, F, 'filter', e.line)
        buf(vc, st, out, N, 'output', e.line)
        if fil.arr.kind == 'out':
            c = st.cells[fil.arr.name]
            need(vc, st, c.p == vc.spec_p, 'the filter handed over is the upsampled filter', e.line)
        event(st, ('per', inp.arr.name, inp.off, N, fil.arr.name, fil.off, F, out.arr.name, out.off, fs))
        return Z(0)

    def full(vc, e, a, st):
        inp, N, fil, F, out, O = a
        need(vc, st, z3.And(N >= 1, F >= 2, F % 2 == 0, O == 2 * N + F - 2), 'kernel precondition (N, F, O)', e.line)
        buf(vc, st, inp, N, 'input', e.line)
        buf(vc, st, fil, F, 'filter', e.line)
        buf(vc, st, out, O, 'output', e.line)
        event(st, ('full', inp.arr.name, inp.off, N, fil.arr.name, fil.off, F, out.arr.name, out.off))
        return Z(0)

    def valid(vc, e, a, st):
        inp, N, fil, F, out, O, mode = a
        per = mode == en['MODE_PERIODIZATION']
        need(vc, st, z3.And(N >= 1, F >= 2, F % 2 == 0), 'kernel precondition (N, F)', e.line)
        need(vc, st, z3.Or(per, 2 * N >= F), 'enough coefficients for the filter', e.line)
        buf(vc, st, inp, N, 'input', e.line)
        buf(vc, st, fil, F, 'filter', e.line)
        buf(vc, st, out, z3.If(per, 2 * N, 2 * N - F + 2), 'output', e.line)
        event(st, ('valid', inp.arr.name, inp.off, N, fil.arr.name, fil.off, F, out.arr.name, out.off, mode))
        return Z(0)
    d = length_contracts(en)
    d.update({T + '_downsampling_convolution': down, T + '_downsampling_convolution_periodization': per_,
              T + '_upsampling_convolution_full': full, T + '_upsampling_convolution_valid_sf': valid})
    return d


def wavelet(T, Fd, Fr):
    r = real_of(T)
    f = {}
    for n, F in (('dec_lo', Fd), ('dec_hi', Fd), ('rec_lo', Fr), ('rec_hi', Fr)):
        for rr in ('float', 'double'):
            f[f'{n}_{rr}'] = Ptr(Arr(f'{n}_{rr}', 'filter', F), Z(0))
    f['dec_len'], f['rec_len'] = Fd, Fr
    return Struct(f, 'wavelet')


def same_event(ev, exp):
    if len(ev) != len(exp):
        return z3.BoolVal(False)
    cs = []
    for a, b in zip(ev, exp):
        if isinstance(a, str) or isinstance(b, str):
            cs.append(z3.BoolVal(a == b))
        else:
            cs.append((a if z3.is_expr(a) else Z(a)) == b)
    return z3.And(cs)


def events_are(st, exps):
    """exps: list of (condition under which this list is expected, [events])"""
    evs = st.env.get('$ev', ())
    cs = []
    for cond, exp in exps:
        ok = z3.BoolVal(False) if len(exp) != len(evs) else z3.And([z3.BoolVal(True)] + [same_event(a, b) for a, b in zip(evs, exp)])
        cs.append(z3.Implies(cond, ok))
    return z3.And(cs)


def new_vc(name, fns, T, en, deadline, extra=None):
    cs = kernel_contracts(T, en)
    cs.update(extra or {})
    vc = VC(name, Theory(), contracts=cs, funcs=fns, deadline=deadline)
    return vc


def run_dec(fns, en, T, which, deadline):
    name = f'{T}_dec_{which}'
    N, O, mode, F = z3.Ints('N O mode F')
    vc = new_vc(name, fns, T, en, deadline)
    per = mode == en['MODE_PERIODIZATION']
    inp, out = Ptr(Arr('input', 'data', N, z3.Function('x', z3.IntSort(), z3.RealSort())), Z(0)), Ptr(Arr('output', 'out', O), Z(0))
    pre = [N >= 1, N < BIG, O >= 0, O < BIG, F >= 2, F % 2 == 0, F < BIG, mode >= 0, mode < en['MODE_MAX'],
           z3.Implies(z3.Or(mode == en['MODE_REFLECT'], mode == en['MODE_ANTIREFLECT']), N >= 2)]
    fl = f'dec_{dict(a="lo", d="hi")[which]}_{real_of(T)}'
    ok = O == dwt_len(N, F, per)

    def post(vc, st, ret):
        return [('returns 0 exactly when the output length is right', (ret == 0) == ok),
                ('one convolution with the right band filter, no call otherwise',
                 events_are(st, [(ok, [('down', 'input', Z(0), N, fl, Z(0), F, 'output', Z(0), mode)]), (z3.Not(ok), [])]))]
    vc.function(fns[name], [inp, N, wavelet(T, F, z3.Int('Fr')), out, O, mode], pre, post, {'output': FV(R0)})
    return vc


def run_rec(fns, en, T, which, deadline):
    name = f'{T}_rec_{which}'
    N, O, F = z3.Ints('N O F')
    vc = new_vc(name, fns, T, en, deadline)
    inp, out = Ptr(Arr('input', 'data', N, z3.Function('x', z3.IntSort(), z3.RealSort())), Z(0)), Ptr(Arr('output', 'out', O), Z(0))
    pre = [N >= 1, N < BIG, O >= 0, O < BIG, F >= 2, F % 2 == 0, F < BIG]
    fl = f'rec_{dict(a="lo", d="hi")[which]}_{real_of(T)}'
    ok = O == 2 * N + F - 2

    def post(vc, st, ret):
        return [('returns 0 exactly when the output length is right', (ret == 0) == ok),
                ('one full convolution with the right band filter',
                 events_are(st, [(ok, [('full', 'input', Z(0), N, fl, Z(0), F, 'output', Z(0))]), (z3.Not(ok), [])]))]
    vc.function(fns[name], [inp, N, wavelet(T, z3.Int('Fd'), F), out, O], pre, post, {'output': FV(R0)})
    return vc


def run_idwt(fns, en, T, have, deadline):
    name = f'{T}_idwt'
    Na, Nd, O, F, mode = z3.Ints('Na Nd O F mode')
    vc = new_vc(f'{name}[{have or "none"}]', fns, T, en, deadline)
    x = z3.Function('x', z3.IntSort(), z3.RealSort())
    pa = Ptr(Arr('ca', 'data', Na, x), Z(0)) if 'a' in have else NULL
    pd = Ptr(Arr('cd', 'data', Nd, x), Z(0)) if 'd' in have else NULL
    out = Ptr(Arr('output', 'out', O), Z(0))
    per = mode == en['MODE_PERIODIZATION']
    pre = [Na >= 0, Nd >= 0, Na < BIG, Nd < BIG, O >= 1, O < BIG, F >= 2, F % 2 == 0, F < BIG, mode >= 0, mode < en['MODE_MAX']]
    n = Na if 'a' in have else Nd
    ok = z3.And(O == z3.If(per, 2 * n, 2 * n - F + 2), n >= 1)
    if have == 'ad':
        ok = z3.And(ok, Na == Nd)
    if not have:
        ok = z3.BoolVal(False)
    r = real_of(T)
    exp = []
    if 'a' in have:
        exp.append(('valid', 'ca', Z(0), n, 'rec_lo_' + r, Z(0), F, 'output', Z(0), mode))
    if 'd' in have:
        exp.append(('valid', 'cd', Z(0), n, 'rec_hi_' + r, Z(0), F, 'output', Z(0), mode))

    def post(vc, st, ret):
        evs = st.env.get('$ev', ())
        alt = [exp, exp[::-1]]
        good = z3.Or([events_are(st, [(ok, a)]) for a in alt])
        return [('returns 0 exactly when the lengths are right', (ret == 0) == ok),
                ('each given band convolved once with its own filter', good),
                ('nothing is written otherwise', z3.Implies(z3.Not(ok), z3.BoolVal(len(evs) == 0)))]
    vc.function(fns[name], [pa, Na, pd, Nd, out, O, wavelet(T, z3.Int('Fd'), F), mode], pre, post, {'output': FV(R0)})
    return vc


def run_swt(fns, en, T, which, levels, deadline):
    """T_swt_a / T_swt_d down to the periodized kernel, complete over all representable levels"""
    vcs = []
    for level in levels:
        name = f'{T}_swt_{which}'
        N, O, F = z3.Ints('N O F')
        vc = new_vc(f'{name}[level={level}]', fns, T, en, deadline)
        x, f = (z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ('x', 'f'))
        inp, out = Ptr(Arr('input', 'data', N, x), Z(0)), Ptr(Arr('output', 'outbuf', O), Z(0))
        w = wavelet(T, F, z3.Int('Fr'))
        fl = f'dec_{dict(a="lo", d="hi")[which]}_{real_of(T)}'
        w.f[fl] = Ptr(Arr(fl, 'data', F, f), Z(0))
        fs = 1 << (level - 1) if level else 1
        pre = [N >= 1, N < (1 << 57), O >= 0, O < BIG, F >= 2, F < BIG, F % 2 == 0, z3.Implies(N % (2 * fs) == 0, F * fs * 16 < (1 << 62)), vc.P >= 0,
               vc.P < F * fs]
        vc.spec_p = z3.If(vc.P % fs == 0, f(vc.P / fs), R0)
        vc.spec = None
        ok = z3.And(z3.BoolVal(level >= 1), N % (2 * fs) == 0, O == N)

        def calloc(vc, e, a, st):
            n, sz = a
            if vc.choose(2):
                event(st, ('oom',))
                return NULL
            vc.oblige(st, z3.And(n >= 0, sz >= 4), f'allocation size, line {e.line}', e.line, 'pre')
            esz = SIZE[T]
            szn = z3.simplify(sz)
            real = SIZE[real_of(T)]
            length = n if z3.is_int_value(szn) and szn.as_long() == real else (n * szn) / real
            arr = Arr('efilter', 'out', z3.simplify(length))
            st.cells['efilter'] = FV(R0)
            return Ptr(arr, Z(0))

        def malloc(vc, e, a, st):
            raise Unsupported('malloc')

        def free(vc, e, a, st):
            return Z(0)
        vc.contracts.update(calloc=calloc, free=free, malloc=malloc)
        vc.forking = {'calloc', 'malloc'}

        def tmpl(vc, s, st0, ids, g, psis, phis):
            C = []
            for n, v0 in st0.cells.items():
                for ps in psis:
                    y0 = vc.mathev(ps, st0)
                    if y0 is None:
                        continue

                    def h(st, n=n, v0=v0, ps=ps, y0=y0):
                        y = vc.mathev(ps, st)
                        return None if y is None else st.cells[n].p == z3.If(z3.And(y0 <= vc.P, vc.P < y), vc.spec_p, v0.p)
                    C.append(('upsampled', h))
            return C
        vc.extra_templates = (tmpl,)

        def post(vc, st, ret, ok=ok, fs=fs, fl=fl, level=level):
            evs = [e for e in st.env.get('$ev', ()) if e[0] != 'oom']
            oom = any(e[0] == 'oom' for e in st.env.get('$ev', ()))
            fa = fl if level == 1 else 'efilter'
            exp = ('per', 'input', Z(0), N, fa, Z(0), F * fs, 'output', Z(0), Z(fs))
            if oom:
                return [('reports failed allocation', z3.And(ret < 0, z3.BoolVal(not evs)))]
            one = same_event(evs[0], exp) if len(evs) == 1 else z3.BoolVal(False)
            return [('returns 0 exactly for admissible arguments', (ret == 0) == ok),
                    ('one periodized convolution with the filter upsampled by 2^(level-1)',
                     z3.And(z3.Implies(ok, one), z3.Implies(z3.Not(ok), z3.BoolVal(not evs))))]
        fn = fns[name]
        vc.function(fn, [inp, N, w, out, O, Z(level)], pre, post, {})
        vcs.append(vc)
    return vcs


def run_lengths(fns, en, deadline):
    """common.c: direct functions"""
    vcs = []
    N, F, m = z3.Ints('N F m')
    per = m == en['MODE_PERIODIZATION']
    big = [N >= 0, F >= 0, N < BIG, F < BIG, m >= 0, m < en['MODE_MAX']]
    for name, args, post in [
            ('dwt_buffer_length', [N, F, m], lambda r: r == z3.If(z3.Or(N < 1, F < 1), 0, dwt_len(N, F, per))),
            ('reconstruction_buffer_length', [N, F], lambda r: r == z3.If(z3.Or(N < 1, F < 1), 0, 2 * N + F - 2)),
            ('idwt_buffer_length', [N, F, m], lambda r: z3.Implies(z3.And(N >= 1, F >= 2, F % 2 == 0, z3.Or(per, 2 * N >= F - 2)),
                                                                   r == z3.If(per, 2 * N, 2 * N - F + 2))),
            ('swt_buffer_length', [N], lambda r: r == N)]:
        vc = VC(name, Theory(), contracts={}, funcs=fns, deadline=deadline)
        pre = list(big)
        vc.modular = True
        vc.function(fns[name], args, pre, lambda vc, st, ret, post=post: [('result is the documented length', post(ret))], {})
        vcs.append(vc)
    return vcs
