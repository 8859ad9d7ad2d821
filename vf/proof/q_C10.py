from pylib import *
from ewise import *
import ewise as W
FN = ['pywt/_thresholding.py: threshold, threshold_firm, soft, nn_garrote, hard, greater, less']


def mod():
    return V.load('pywt/_thresholding.py', {'np': EN()})


def scal(c):
    """ext value of a finite scalar"""
    return const(c)


def num(m, v):
    x = m.eval(v, model_completion=True)
    try:
        return float(x.as_fraction())
    except Exception:
        return float(x.approx(20).as_fraction())


def case(m, mode, dt, th, hi, sub, cplx):
    """the counter-model as a case of the bounded check, to be run on the real code"""
    R = z3.Real
    v = [num(m, R('x_re')), num(m, R('x_im'))] if cplx else [num(m, R('x')), 0.0]
    t = num(m, V.real(th))
    h = t if hi is None else 'inf' if hi == 'inf' else num(m, V.real(hi))
    return [dict(m=mode, shape=[1], D=dt, v=[v], th=t, hi=float('inf') if h == 'inf' else h, sub=num(m, V.real(sub)) if sub is not None else 0, lay='C', ro=False)]


def veq(e, name, got, want, cond=None, dt=None, detail='', replay=None):
    if not isinstance(got, E):
        e.ob(name, False, f'not an array: {got!r}'[:200])
        return
    if len(got.val) != len(want):
        e.ob(name, False, f'dtype {got.dtype}')
        return
    f = z3.And([z3.And(z3.Not(g[0]), g[1] == 0, g[2] == w) for g, w in zip(got.val, want)])
    e.require(name, f if cond is None else z3.Implies(cond, f), detail, replay)


def tasks_C10(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, timeout=10000, **k))

    def inp(e, dt):
        d = np.zeros(0, dt)
        v = [fin(z3.Real(n)) for n in (('x_re', 'x_im') if d.dtype.kind == 'c' else ('x',))]
        if d.dtype.kind in 'iu':
            i = z3.Int('x_int')
            e.assume(v[0][2] == z3.ToReal(i))
        return E(v, d, origin='data')

    def mag(e, x):
        return absolute(x).val[0][2]

    def check(e, name, x, k, r, want, dtw=None, replay=None):
        e.ob('no exception', k == 'ok', repr(r))
        e.ob('the input array is not written', not e.input_writes, str(e.input_writes))
        if k != 'ok':
            return
        if dtw is not None:
            e.ob('floating dtype preserved', isinstance(r, E) and r.dtype == dtw, str(getattr(r, 'dtype', r)))
        if isinstance(r, E) and len(r.val) < len(want):
            e.ob(name, False, f'complex input gives dtype {r.dtype}')
            return
        if isinstance(r, E) and len(r.val) > len(want):
            want = want + [RV(0)]
        veq(e, name, r, want, replay=replay)

    def thr(mode, dt, sub, ti, alias=None):
        def run(e):
            ns = mod()
            x = inp(e, dt)
            v0 = x.val
            th = V.SReal(z3.Real('value')) if not ti else e.int('value')
            e.assume(V.real(th) >= 0)
            t = V.real(th)
            s = 0 if sub == '0' else 0.0 if sub == '0.0' else V.SReal(z3.Real('substitute'))
            args = (x, th, alias or mode, s) if mode else (x, th)
            k, r = e.call(ns['threshold'], *args)
            if mode in ('greater', 'less') and x.cplx:
                e.ob('complex data refused', k == 'raise' and isinstance(r, ValueError), repr(r))
                return
            m = mag(e, x)
            sv = [V.real(s) if not isinstance(s, float) else RV(0)]
            if x.cplx:
                sv.append(RV(0))
            xs = [c[2] for c in v0]
            m1 = z3.If(m == 0, RV(1), m)
            if mode in ('soft', None):
                want = [z3.If(m < t, q, z3.If(m == 0, RV(0), p * (m - t) / m1)) for p, q in zip(xs, sv)]
            elif mode == 'garrote':
                want = [z3.If(m < t, q, z3.If(m == 0, RV(0), p * (m * m - t * t) / (m1 * m1))) for p, q in zip(xs, sv)]
            elif mode == 'hard':
                want = [z3.If(m < t, q, p) for p, q in zip(xs, sv)]
            elif mode == 'greater':
                want = [z3.If(xs[0] < t, sv[0], xs[0])]
            else:
                want = [z3.If(xs[0] > t, sv[0], xs[0])]
            dtw = x.dtype if x.dtype.kind in 'fc' else None
            check(e, 'every element follows the rule of the mode, finite', x, k, r, want, dtw,
                  lambda m: case(m, alias or mode or 'soft', dt, th, None, V.SReal(sv[0]), x.cplx))
        return run

    def firm(dt, hi):
        def run(e):
            ns = mod()
            x = inp(e, dt)
            v0 = x.val
            lo = V.SReal(z3.Real('value_low'))
            e.assume(lo.e >= 0)
            h = float('inf') if hi == 'inf' else V.SReal(z3.Real('value_high'))
            if hi != 'inf':
                e.assume(h.e >= lo.e)
            k, r = e.call(ns['threshold_firm'], x, lo, h)
            m = mag(e, x)
            xs = [c[2] for c in v0]
            m1 = z3.If(m == 0, RV(1), m)
            if hi == 'inf':
                want = [z3.If(m <= lo.e, RV(0), p * (m - lo.e) / m1) for p in xs]
            else:
                d = z3.If(h.e == lo.e, RV(1), h.e - lo.e)
                want = [z3.If(m <= lo.e, RV(0), z3.If(m > h.e, p, p * h.e * (m - lo.e) / (m1 * d))) for p in xs]
            check(e, 'piecewise rule: zero, linear, identity', x, k, r, want, x.dtype if x.dtype.kind in 'fc' else None,
                  lambda m: case(m, 'firm', dt, lo, h if hi != 'inf' else 'inf', None, x.cplx))
        return run

    def bad(e):
        ns = mod()
        for mode in ('sof', '', None, 'SOFT', 'firm'):
            k, r = e.call(ns['threshold'], inp(e, 'f8'), 1, mode)
            e.ob('unknown mode: ValueError', k == 'raise' and isinstance(r, ValueError), repr(r))

    def badfirm(e):
        ns = mod()
        lo, h = V.SReal(z3.Real('value_low')), V.SReal(z3.Real('value_high'))
        e.assume(z3.Or(lo.e < 0, h.e < lo.e))
        k, r = e.call(ns['threshold_firm'], inp(e, 'f8'), lo, h)
        e.ob('thresholds out of order: ValueError', k == 'raise' and isinstance(r, ValueError), repr(r))
    for dt in ('f8', 'f4', 'c16', 'c8', 'i8', 'i4'):
        for mode in ('soft', 'garrote', 'hard', 'greater', 'less', None):
            for sub in ('0', '0.0', 'sym') if mode else ('0',):
                for ti in (False, True):
                    add(f'threshold, mode {mode or "default"}, {dt}, substitute {sub}, {"integer" if ti else "real"} threshold', thr(mode, dt, sub, ti))
        add(f'threshold, mode garotte, {dt}', thr('garrote', dt, 'sym', False, 'garotte'))
        for hi in ('sym', 'inf'):
            add(f'threshold_firm, {dt}, value_high {hi}', firm(dt, hi))
    add('threshold, unknown mode', bad)
    add('threshold_firm, thresholds out of order', badfirm)
    return T


if __name__ == '__main__':
    go(tasks_C10)
