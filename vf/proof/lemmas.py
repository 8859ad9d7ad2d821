"""The lemmas ExtTheory instantiates, proved from the floor-division definition of each extension (z3, nonlinear integers)."""
import time
import z3
from cvc import Obl
from ext import MODES, definition, one_period, period, window

x = z3.Function('x', z3.IntSort(), z3.RealSort())


def prove(name, hyps, goal, timeout=20000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyps)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    st = 'proved' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
    # the hypotheses must be satisfiable, else the lemma says nothing
    if st == 'proved':
        v = z3.Solver()
        v.set('timeout', timeout)
        v.add(*hyps)
        if v.check() == z3.unsat:
            st = 'sat'
    return Obl('lemma:' + name, st, time.time() - t0, '' if st == 'proved' else str(s.model() if r == z3.sat else r), kind='lemma')


def multiples():
    P, j, k, a, b = z3.Ints('P j k a b')
    res = [prove('a multiple of P strictly between -P and P is 0', [P >= 1, j * P > -P, j * P < P], j == 0)]
    hyp = [P >= 1, a == j * P, b == k * P]
    i = z3.Int('i')
    zero = lambda t: [z3.Implies(z3.And(t * P > -P, t * P < P), t == 0)]      # the lemma above, instantiated
    res.append(prove('two multiples of P closer than P are equal', hyp + zero(j - k) + [a - b < P, a - b > -P], a == b))
    res.append(prove('two multiples of P whose sum is smaller than P are opposite', hyp + zero(j + k) + [a + b < P, a + b > -P], a == -b))
    for n, t in (('P', P), ('-P', -P), ('0', 0 * P)):
        dk = {'P': 1, '-P': -1, '0': 0}[n]
        res.append(prove(f'multiples are closed under difference {n}', [P >= 1, b == k * P, a - b == t], a == (k + dk) * P))
        res.append(prove(f'multiples are closed under sum {n}', [P >= 1, b == k * P, a + b == t], a == (dk - k) * P))
    return res


def extension(mode):
    N, m, q, r, q2, r2, k, d = z3.Ints('N m q r q2 r2 k d')
    pad = z3.Int('pad') if mode == 'periodization' else None
    base = [N >= (2 if 'reflect' in mode else 1)] + ([pad >= 0, pad <= 1] if pad is not None else [])
    res = []
    P = period(mode, N, pad)
    if P is None:
        # these modes are defined by their closed form; the cases are exclusive and cover every position
        ws = window(mode, N, x, m)
        res.append(prove(f'{mode}: the cases of the definition cover all positions', base, z3.Or([c for c, _ in ws])))
        for i in range(len(ws)):
            for j in range(i):
                s = z3.Solver()
                s.add(*base, ws[i][0], ws[j][0])
                res.append(Obl(f'lemma:{mode}: cases {j} and {i} of the definition are exclusive',
                               'proved' if s.check() == z3.unsat else 'sat', 0, kind='lemma'))
        return res
    p = z3.Int('P')
    rules = [P == p] + base
    # shift by a multiple of the period
    hy = rules + [p >= 1, m == q * p + r, r >= 0, r < p, d == k * p, m + d == q2 * p + r2, r2 >= 0, r2 < p]
    w = q2 - q - k
    zero = [z3.Implies(z3.And(w * p > -p, w * p < p), w == 0), w * p == q2 * p - q * p - k * p]
    res.append(prove(f'{mode}: quotient and remainder of a shifted position', hy + zero, z3.And(r2 == r, q2 == q + k)))
    E1, E2 = definition(mode, N, x, m, q, r, pad), definition(mode, N, x, m + d, q + k, r, pad)
    jump = z3.ToReal(k) * 2 * (x(N - 1) - x(z3.IntVal(0))) if mode == 'antireflect' else z3.RealVal(0)
    res.append(prove(f'{mode}: ext(m + kP) = ext(m) + k*jump', rules + [p >= 1, r >= 0, r < p], E2 == E1 + jump))
    # closed form near the signal
    for i, (c, v) in enumerate(window(mode, N, x, m, pad)):
        kk = ((-2, -1, 0, 1, 2) if mode in ('periodic', 'periodization') else (-1, 0, 1))[i]
        w = q - kk
        hy = rules + [p >= 1, m == q * p + r, r >= 0, r < p, c,
                      z3.Implies(z3.And(w * p > -p, w * p < p), w == 0), w * p == q * p - kk * p]
        res.append(prove(f'{mode}: closed form in period {kk}', hy, definition(mode, N, x, m, q, r, pad) == v))
    return res


def all_lemmas(modes=MODES):
    res = multiples()
    for m in modes:
        res += extension(m)
    return res


if __name__ == '__main__':
    t0 = time.time()
    for o in all_lemmas():
        if o.status != 'proved' or o.time > 1:
            print(o.status, o.name, round(o.time, 2), o.detail[:200])
    print(len(all_lemmas()), time.time() - t0)
