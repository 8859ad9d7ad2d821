"""Contracts of the convolution kernels (convolution.template.c) and their verification."""
import time
import z3
from cast import load, Unsupported
from cvc import VC, Arr, Ptr, FV, Theory, Z, R0, Obl
from ext import ExtTheory, MODES, CNAME, period, window

x_ = z3.Function('x', z3.IntSort(), z3.RealSort())
BIG = 1 << 58


def base_args(N, F, O):
    inp = Arr('input', 'data', N, x_)
    fil = Arr('filter', 'filter', F)
    out = Arr('output', 'out', O)
    return Ptr(inp, Z(0)), Ptr(fil, Z(0)), Ptr(out, Z(0))


def antireflect_templates(th):
    """value == ext(position of the current tap + c), optionally only while the guard holds"""
    def gen(vc, s, st0, ids, g, psis, phis):
        C = []
        flts = [i for i in ids if isinstance(st0.env[i], FV)]
        for a in flts:
            for ps in psis:
                y0 = vc.mathev(ps, st0)
                if y0 is None:
                    continue
                for ph in phis:
                    f0 = vc.mathev(ph, st0)
                    if f0 is None:
                        continue
                    for c in (-1, 0, 1):
                        def f(st, a=a, ps=ps, ph=ph, c=c):
                            y, p = vc.mathev(ps, st), vc.mathev(ph, st)
                            if y is None or p is None:
                                return None
                            v = st.env[a]
                            return z3.And(v.p == th.E(z3.simplify(vc.psi_pos(y) - p + c, som=True)), v.c == 0)
                        C.append((f'ext value {c}', f))
                        C.append((f'guard=>ext value {c}', lambda st, f=f: None if f(st) is None else z3.Implies(g(st), f(st))))
                        def f2(st, f=f, ph=ph, f0=f0):
                            b = f(st)
                            return None if b is None else z3.Implies(vc.mathev(ph, st) != f0, b)
                        C.append((f'moved=>ext value {c}', f2))
        return C
    return gen


def run_down(fns, en, T, mode, step, deadline):
    """T_downsampling_convolution in one mode (periodization goes to its own function by contract-free inlining)"""
    name = T + '_downsampling_convolution'
    N, F, O = z3.Ints('N F O')
    th = ExtTheory(mode, N, x_)
    vc = VC(f'{name}[{mode},step={step}]', th, funcs=fns, deadline=deadline)
    m = z3.simplify(step * vc.P + step - 1 - vc.T)
    vc.psi_pos = lambda y: step * y + step - 1
    vc.spec = th.E(m)
    if mode == 'antireflect':
        vc.extra_templates = (antireflect_templates(th),)
    pre = [N >= (2 if 'reflect' in mode else 1), F >= 2, F % 2 == 0, O == (N + F - 1) / step, N < BIG, F < BIG,
           vc.P >= 0, vc.P < O, vc.T >= 0, vc.T < F]
    a, f, o = base_args(N, F, O)
    c0 = FV(z3.Real('out0'), z3.Real('out0c'))

    def post(vc, st, ret):
        c = st.cells['output']
        return [('returns 0', ret == 0), ('tap coefficient equals the extension value', c.c == vc.spec),
                ('no other term', c.p == 0)]
    vc.function(fns[name], [a, N, f, F, o, Z(step), Z(en[CNAME[mode]])], pre, post, {'output': c0})
    return vc


def run_per(fns, en, T, step, fstep, deadline, name=None):
    name = T + '_downsampling_convolution_periodization'
    N, F, O = z3.Ints('N F O')
    fs = Z(1) if fstep == 1 else z3.Int('fstep')
    pad = (N % 2) if step == 2 else None
    th = ExtTheory('periodization', N, x_, pad)
    vc = VC(f'{name}[step={step},fstep={"1" if fstep == 1 else "any"}]', th, funcs=fns, deadline=deadline)
    m = F / 2 + step * vc.P - vc.T
    vc.psi_pos = lambda y: F / 2 + step * y
    vc.spec = th.E(z3.simplify(m, som=True))
    pre = [N >= 1, F >= 2, F % 2 == 0, O == (N + step - 1) / step, N < BIG, F < BIG, vc.P >= 0, vc.P < O, vc.T >= 0, vc.T < F]
    if fstep != 1:
        d = th.dpred('fs', fs)
        pre += [fs >= 2, fs < BIG, d(N), d(F), d(F / 2), d(vc.T)]
    a, f, o = base_args(N, F, O)
    c0 = FV(z3.Real('out0'), z3.Real('out0c'))

    def post(vc, st, ret):
        c = st.cells['output']
        return [('returns 0', ret == 0), ('tap coefficient equals the extension value', c.c == vc.spec),
                ('no other term', c.p == 0)]
    vc.function(fns[name], [a, N, f, F, o, Z(step), fs], pre, post, {'output': c0})
    return vc


def run_full(fns, en, T, deadline):
    name = T + '_upsampling_convolution_full'
    N, F, O = z3.Ints('N F O')
    th = Theory()
    vc = VC(name, th, funcs=fns, deadline=deadline)
    k2 = vc.P - vc.T
    vc.spec = z3.If(z3.And(k2 % 2 == 0, k2 >= 0, k2 < 2 * N), x_(k2 / 2), R0)
    pre = [N >= 1, F >= 2, F % 2 == 0, O == 2 * N + F - 2, N < BIG, F < BIG, vc.P >= 0, vc.P < O, vc.T >= 0, vc.T < F]
    a, f, o = base_args(N, F, O)
    c0 = FV(z3.Real('out0'), z3.Real('out0c'))

    def post(vc, st, ret):
        c = st.cells['output']
        return [('returns 0', ret == 0), ('tap coefficient equals the definition', c.c == c0.c + vc.spec),
                ('nothing else is added', c.p == c0.p)]
    vc.function(fns[name], [a, N, f, F, o, O], pre, post, {'output': c0})
    return vc


def run_valid(fns, en, T, mode, deadline):
    name = T + '_upsampling_convolution_valid_sf'
    N, F, O = z3.Ints('N F O')
    c0 = FV(z3.Real('out0'), z3.Real('out0c'))
    if mode != 'periodization':
        th = Theory()
        vc = VC(f'{name}[{mode}]', th, funcs=fns, deadline=deadline)
        # out[p] = sum over k of rec[p + F - 2 - 2k] a[k]
        k2 = vc.P + F - 2 - vc.T
        vc.spec = z3.If(z3.And(k2 % 2 == 0, k2 >= 0, k2 < 2 * N), x_(k2 / 2), R0)
        pre = [N >= 1, F >= 2, F % 2 == 0, 2 * N >= F, O == 2 * N - F + 2, N < BIG, F < BIG, vc.P >= 0, vc.P < O, vc.T >= 0, vc.T < F]
    else:
        th = ExtTheory('periodic', N, x_)
        vc = VC(f'{name}[{mode}]', th, funcs=fns, deadline=deadline)
        k2 = vc.P - vc.T + F / 2 - 1
        h, b = z3.Ints('half odd')
        vc.spec = z3.If(b == 0, th.E(h), R0)
        pre = [k2 == 2 * h + b, b >= 0, b <= 1, N >= 1, F >= 2, F % 2 == 0, O == 2 * N, N < BIG, F < BIG, vc.P >= 0, vc.P < O, vc.T >= 0, vc.T < F]
    a, f, o = base_args(N, F, O)

    def post(vc, st, ret):
        c = st.cells['output']
        return [('returns 0', ret == 0), ('tap coefficient equals the definition', c.c == c0.c + vc.spec),
                ('nothing else is added', c.p == c0.p)]
    vc.function(fns[name], [a, N, f, F, o, O, Z(en[CNAME[mode]])], pre, post, {'output': c0})
    return vc


if __name__ == '__main__':
    import sys
    src = sys.argv[1]
    import os
    fns, en = load(src, os.path.dirname(src))
    what = sys.argv[2:]
    for w in what:
        k = w.split(':')
        t0 = time.time()
        dl = t0 + 400
        try:
            if k[0] == 'down':
                vc = run_down(fns, en, 'double', k[1], int(k[2]) if len(k) > 2 else 2, dl)
            elif k[0] == 'per':
                vc = run_per(fns, en, 'double', int(k[1]), int(k[2]), dl)
            elif k[0] == 'full':
                vc = run_full(fns, en, 'double', dl)
            else:
                vc = run_valid(fns, en, 'double', k[1], dl)
        except (Unsupported, TimeoutError) as e:
            print(w, 'UNSUPPORTED', e, round(time.time() - t0, 1))
            continue
        bad = [o for o in vc.obls if o.status != 'proved']
        print(w, len(vc.obls), 'obligations', len(bad), 'open', round(time.time() - t0, 1), 's', vc.queries, 'queries')
        for o in bad:
            print('   ', o.name, o.status, o.detail[:400])
        if os.environ.get('INV'):
            for l, c in vc.inv_log:
                print('   inv', l, c)
