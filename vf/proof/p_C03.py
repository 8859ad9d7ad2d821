from ktasks import *
import cbmc
from cvc import VC, Theory, Z
import pylib
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
from q_C03 import tasks_C03
TRUSTED = CREAL + ['cbmc 6.11 (size_log2, swt_max_level: 64-bit words, every loop unwound completely)'] + pylib.TRUST + GLUE_TRUST
ASSUME = ['lengths up to 2^58 in the length formulas'] + pylib.ASSUME
BOUNDED = pylib.BOUNDED

H = '''#include "common.h"
unsigned char size_log2(size_t x);
void h_log2(size_t x){ __CPROVER_assume(x != 0); unsigned char r = size_log2(x);
  __CPROVER_assert(r < 64 && (x >> (r & 63)) == 1, "2^r <= x < 2^(r+1)"); }
void h_swt(size_t n){ unsigned char r = swt_max_level(n);
  __CPROVER_assert(n != 0 || r == 0, "no level for an empty signal");
  __CPROVER_assert(n == 0 || (r < 64 && ((n >> (r & 63)) & 1) && (n & ((((size_t)1) << (r & 63)) - 1)) == 0), "result is the exponent of two in n"); }
'''


class MaxVC(VC):
    def sym_divmod(self, op, l, b, st):
        if op != '/':
            return super().sym_divmod(op, l, b, st)
        q, qb = self.fresh('quo', 'int'), self.fresh('quoTimesDivisor', 'int')
        st.pc += [q >= 0, qb >= 0, qb <= l, l < qb + b, z3.Implies(q <= 0, qb == 0)]
        self.quo = (q, qb, b)
        return q


def dwt_max_level(deadline):
    fns, en = tu('common.c')
    N, F, L = z3.Ints('N F L')
    out = []
    vc = MaxVC('dwt_max_level', Theory(), contracts={}, funcs=fns, deadline=deadline)
    vc.quo = None

    def size_log2(vc, e, a, st):
        x = a[0]
        r = vc.fresh('log2', 'int')
        vc.oblige(st, x >= 1, f'size_log2 gets a positive number, line {e.line}', e.line, 'pre')
        st.pc += [r >= 0, r < 64] + [(r >= k) == (x >= (1 << k)) for k in range(65)]
        return r
    vc.contracts = dict(size_log2=size_log2)

    def post(vc, st, ret):
        G = F - 1
        if vc.quo:
            q, qb, b = vc.quo
            # monotonicity of the product q*b, instantiated at the powers of two
            for k in range(65):
                p = 1 << k
                st.pc += [z3.Implies(q >= p, qb >= p * b), z3.Implies(q <= p - 1, qb <= (p - 1) * b)]
        return [('0 for filters shorter than 2', z3.Implies(F <= 1, ret == 0)),
                ('the result is a level', z3.And(ret >= 0, ret < 64))] + \
               [(f'largest level with (F-1)*2^L <= N, L = {k}', z3.Implies(z3.And(F >= 2, ret == k), z3.And(z3.Or(G * (1 << k) <= N, k == 0), N < G * (1 << (k + 1)))))
                for k in range(64)]
    vc.function(fns['dwt_max_level'], [N, F], [N >= 0, F >= 0, N < (1 << 62), F < (1 << 62)], post, {})

    def rep(vc, o):
        m = model_ints(o.model, ('N', 'F'))
        return [dict(k='scalar', N=m['N'], F=[m['F']])] if m.get('N', 0) >= 1 and m.get('F', 0) >= 2 else []
    return records(vc, True, rep)


def lengths(deadline):
    fns, en = tu('common.c')

    def rep(vc, o):
        m = model_ints(o.model, ('N', 'F'))
        N, F = m.get('N', 5), m.get('F', 4)
        res = [dict(k='scalar', N=N, F=[F])] if N >= 1 and F >= 1 else []
        for n, f in ((5, 4), (6, 2), (7, 10)):
            res += [dict(k='scalar', N=n, F=[f]), dict(k='out', N=n, w=f, mode='zero', dtype='f8', n=n, level=1),
                    dict(k='out', N=n, w=f, mode='periodization', dtype='f8', n=n, level=1)]
        return res
    return records(wtc.run_lengths(fns, en, deadline), True, rep)


def tasks(tier):
    rep = lambda v: [dict(k='scalar', N=n) for n in v.values() if n >= 1]
    return [Task('length functions', lengths, 3, ['common.c:' + f for f in ('dwt_buffer_length', 'reconstruction_buffer_length', 'idwt_buffer_length', 'swt_buffer_length')]),
            Task('dwt_max_level', dwt_max_level, 5, ['common.c:dwt_max_level']),
            Task('size_log2', lambda d: cbmc.run('size_log2', 'common.c', H, 'h_log2', 66, rep, inputs=('x',)), 2, ['common.c:size_log2']),
            Task('swt_max_level', lambda d: cbmc.run('swt_max_level', 'common.c', H, 'h_swt', 66, rep, inputs=('n',)), 2, ['common.c:swt_max_level'])] + tasks_C03(tier) + tasks_glue(tier, ('dwt_coeff_len', 'dwt_max_level', 'swt_max_level'))
