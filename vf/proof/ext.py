"""Signal extension: definition per mode, and the ground lemmas about it that the kernel proofs use.

Definition (floor division): see `definition`.  `lemmas()` proves the ground facts used by ExtTheory from it."""
import z3
from cvc import Theory, VC

MODES = ['zero', 'symmetric', 'constant', 'smooth', 'periodic', 'periodization', 'reflect', 'antisymmetric', 'antireflect']
CNAME = dict(zero='MODE_ZEROPAD', symmetric='MODE_SYMMETRIC', constant='MODE_CONSTANT_EDGE', smooth='MODE_SMOOTH',
             periodic='MODE_PERIODIC', periodization='MODE_PERIODIZATION', reflect='MODE_REFLECT',
             antisymmetric='MODE_ANTISYMMETRIC', antireflect='MODE_ANTIREFLECT')


def smul(k, v):
    return VC.smul(k, z3.simplify(v, som=True))


def period(mode, N, pad=None):
    return {'symmetric': 2 * N, 'antisymmetric': 2 * N, 'reflect': 2 * N - 2, 'antireflect': 2 * N - 2, 'periodic': N,
            'periodization': N + (pad if pad is not None else 0)}.get(mode)


def one_period(mode, N, x, r, pad=None):
    """value at index r of the base period [0, P)"""
    if mode == 'symmetric':
        return z3.If(r < N, x(r), x(2 * N - 1 - r))
    if mode == 'antisymmetric':
        return z3.If(r < N, x(r), -x(2 * N - 1 - r))
    if mode == 'reflect':
        return z3.If(r < N, x(r), x(2 * N - 2 - r))
    if mode == 'antireflect':
        return z3.If(r < N, x(r), 2 * x(N - 1) - x(2 * N - 2 - r))
    if mode == 'periodic':
        return x(r)
    if mode == 'periodization':
        return z3.If(r < N, x(r), x(N - 1))


def window(mode, N, x, m, pad=None):
    """[(condition on m, value)]: closed forms near the signal (all of Z for the modes without a period)"""
    if mode == 'zero':
        return [(z3.And(m >= 0, m < N), x(m)), (m < 0, z3.RealVal(0)), (m >= N, z3.RealVal(0))]
    if mode == 'constant':
        return [(z3.And(m >= 0, m < N), x(m)), (m < 0, x(z3.IntVal(0))), (m >= N, x(N - 1))]
    if mode == 'smooth':
        x0, x1, y0, y1 = x(z3.IntVal(0)), x(z3.IntVal(1)), x(z3.simplify(N - 1)), x(z3.simplify(N - 2))
        return [(z3.And(m >= 0, m < N), x(m)),
                (z3.And(m < 0, N >= 2), x0 + smul(z3.simplify(-m, som=True), x0 - x1)),
                (z3.And(m >= N, N >= 2), y0 + smul(z3.simplify(m - (N - 1), som=True), y0 - y1)),
                (z3.And(m < 0, N < 2), x0), (z3.And(m >= N, N < 2), y0)]
    P = period(mode, N, pad)
    jump = 2 * (x(N - 1) - x(z3.IntVal(0))) if mode == 'antireflect' else z3.RealVal(0)
    res = []
    for k in ((-2, -1, 0, 1, 2) if mode in ('periodic', 'periodization') else (-1, 0, 1)):
        r = z3.simplify(m - k * P, som=True)
        res.append((z3.And(r >= 0, r < P), one_period(mode, N, x, r, pad) + k * jump))
    return res


class ExtTheory(Theory):
    def __init__(self, mode, N, x, pad=None):
        super().__init__()
        self.mode, self.Nn, self.x, self.pad = mode, N, x, pad
        self.E = z3.Function('ext', z3.IntSort(), z3.RealSort())
        self.L = z3.Function('lin', z3.IntSort(), z3.RealSort())
        P = period(mode, N, pad)
        self.P = P
        if P is not None:
            self.dpred('ext', P)

    def extra(self, fs, ap):
        res = []
        args = apps1(fs, self.E)
        terms = list(args)
        ds = []
        if self.P is not None:
            d0 = self.D['ext'][0]
            ds = ap['ext'] if 'ext' in ap else ap[d0.name()]
        done = {}
        for a in args:
            zs = [a]
            for d in ds:
                for s in (1, -1):
                    key = ('s', a.get_id(), d.get_id(), s)
                    if key not in self.memo:
                        z = z3.simplify(a + s * d, som=True)
                        shift = s * self.L(d) if self.mode == 'antireflect' else 0
                        self.memo[key] = (a, d, z, z3.Implies(d0(d), self.E(z) == self.E(a) + shift))
                    zs.append(self.memo[key][2])
                    res.append(self.memo[key][3])
            for z in zs:
                if z.get_id() in done:
                    continue
                done[z.get_id()] = z
                key = ('w', z.get_id())
                if key not in self.memo:
                    self.memo[key] = (z, [z3.Implies(c, self.E(z) == v) for c, v in window(self.mode, self.Nn, self.x, z, self.pad)])
                res += self.memo[key][1]
        return res


def apps1(es, decl):
    from cvc import apps
    return apps(es, [decl])[decl.name()]


def definition(mode, N, x, m, q, r, pad=None):
    """E(m) by floor division: m = q*P + r, 0 <= r < P"""
    jump = 2 * (x(N - 1) - x(z3.IntVal(0))) if mode == 'antireflect' else None
    v = one_period(mode, N, x, r, pad)
    return v if jump is None else v + z3.ToReal(q) * jump
