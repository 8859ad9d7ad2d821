"""Verification-condition generator for the C kernels (loop cuts, Houdini invariant inference, z3).

Semantics.  Integers are mathematical, every unsigned subtraction carries a no-wrap obligation (sizes are assumed
below 2^60).  Floating values are mathematical (a real part `p` free of the filter, plus `c`, the coefficient with
which one arbitrary but fixed filter tap T enters the value), so `value = p + sum over taps of filter[tap]*c`.
An output buffer is represented by one arbitrary but fixed cell P.  P and T are skolem constants: what is proved for
them holds for every output position and every tap.
A loop is cut at its head: candidate invariants generated from templates are weakened to an inductive set (Houdini),
and only then the obligations of the body and of the code after the loop are generated."""
import time
import z3
from cast import N as Node, Fn, Unsupported

Z = z3.IntVal
R0 = z3.RealVal(0)
W64 = 1 << 64


class FV:
    __slots__ = ('p', 'c')

    def __init__(self, p, c=R0):
        self.p, self.c = p, c


class Filt:                # filter[idx]
    __slots__ = ('idx', 'arr')

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


class Ptr:
    __slots__ = ('arr', 'off')

    def __init__(self, arr, off):
        self.arr, self.off = arr, off


class Struct:
    def __init__(self, f, name=''):
        self.f, self.name = f, name


class Arr:
    """kind: data (read-only, values x(i)), filter, out (one skolem cell), ints (read-only ints),"""
    def __init__(self, name, kind, length, fn=None, esize=None):
        self.name, self.kind, self.length, self.fn, self.esize = name, kind, length, fn, esize


NULL = Ptr(None, Z(0))


class St:
    __slots__ = ('env', 'pc', 'cells')

    def __init__(self, env, pc, cells):
        self.env, self.pc, self.cells = env, pc, cells

    def copy(self):
        return St(dict(self.env), list(self.pc), dict(self.cells))


def is_int(t):
    return t in ('unsigned long', 'long', 'int', 'unsigned int', 'unsigned char', 'char', 'unsigned short', 'short',
                 'unsigned long long', 'long long', '_Bool') or t.startswith('enum') or t in ('MODE', 'Coefficient', 'DiscreteTransformType')


def is_unsigned(t):
    return t.startswith('unsigned') or t == '_Bool'


WIDTH = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32,
         'unsigned long': 64, 'long': 64, 'unsigned long long': 64, 'long long': 64, '_Bool': 1}


def int_range(t):
    """(least, greatest) value of an integer type, None for enumerations"""
    w = WIDTH.get(t)
    if w is None:
        return None
    return (0, (1 << w) - 1) if is_unsigned(t) else (-(1 << w - 1), (1 << w - 1) - 1)


def is_float(t):
    return t in ('float', 'double') or t.startswith('_Complex')


def free_consts(e):
    res, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            res.add(x)
        todo.extend(x.children())
    return res


_APPS = {}
_SIMP = {}


def simp(e):
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        r = (e, z3.simplify(e, som=True))
        _SIMP[k] = r
    return r[1]


def apps_of(e):
    """all unary applications of integer-sorted uninterpreted functions and predicates: name -> {id: simplified arg}"""
    k = e.get_id()
    r = _APPS.get(k)
    if r is not None:
        return r[1]
    res = {}
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if len(ch) == 1:
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                a = simp(ch[0])
                res.setdefault(d.name(), {})[a.get_id()] = a
        todo.extend(ch)
    _APPS[k] = (e, res)
    return res


def apps(es, decls):
    """argument terms of applications of the given unary decls"""
    names = [d.name() for d in decls]
    res = {n: {} for n in names}
    for e in es:
        r = apps_of(e)
        for n in names:
            if n in r:
                res[n].update(r[n])
    return {n: list(v.values()) for n, v in res.items()}


class Theory:
    """ground instances of lemmas, added to every query"""
    def __init__(self):
        self.D = {}            # name -> (predicate, modulus term)
        self.memo = {}
        self.consts = []       # always-present facts

    def dpred(self, name, mod):
        if name not in self.D:
            self.D[name] = (z3.Function('D_' + name, z3.IntSort(), z3.BoolSort()), mod)
        return self.D[name][0]

    def instances(self, fs):
        res = list(self.consts)
        if not self.D:
            return res + self.extra(fs, {})
        ap = apps(fs, [d for d, _ in self.D.values()])
        for name, (d, P) in self.D.items():
            ts = ap[d.name()]
            if not ts:
                continue
            ts = ts + [Z(0)]
            res.append(d(Z(0)))
            for i, a in enumerate(ts):
                for b in ts[:i]:
                    key = (name, a.get_id(), b.get_id())
                    if key in self.memo:
                        res += self.memo[key][2]
                        continue
                    n0 = len(res)
                    df = a - b
                    # D(u), D(v), |u-v| < P  ->  u == v ;  D closed under +-P, +-2P
                    res.append(z3.Implies(z3.And(d(a), d(b), df < P, df > -P), a == b))
                    res.append(z3.Implies(z3.And(d(a), d(b), a + b < P, a + b > -P), a == -b))
                    res.append(z3.Implies(z3.Or(df == P, df == -P, df == 0), d(a) == d(b)))
                    res.append(z3.Implies(z3.Or(a + b == P, a + b == -P, a + b == 0), d(a) == d(b)))
                    self.memo[key] = (a, b, res[n0:])
        res += self.extra(fs, ap)
        return res

    def extra(self, fs, ap):
        return []


class Obl:
    def __init__(self, name, status, t, detail='', model=None, line=None, kind=''):
        self.name, self.status, self.time, self.detail, self.model, self.line, self.kind = name, status, t, detail, model, line, kind


class Break(Exception):
    pass


class VC:
    """one function under one contract"""
    def __init__(self, name, theory, contracts=None, funcs=None, psi_pos=None, spec=None, templates=(), timeout=8000, deadline=None):
        self.name, self.th = name, theory
        self.contracts, self.funcs = contracts or {}, funcs or {}
        self.obls = []
        self.dry = 0
        self.n = 0
        self.timeout = timeout
        self.queries = 0
        self.solver_time = 0.0
        self.P, self.T = z3.Int('P!pos'), z3.Int('T!tap')
        self.psi_pos = psi_pos
        self.spec = spec              # Real term: required coefficient of tap T in output cell P
        self.extra_templates = templates
        self.psis, self.phis = [], []
        self.deadline = deadline
        self.depth = 0
        self.inv_log = []
        self.cache, self.occ, self.inner = {}, {}, {}
        self.oracle, self.collected = None, set()

    # ---------------------------------------------------------------- solver
    def check(self, hyps, goal_neg, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('time limit for ' + self.name)
        fs = list(hyps) + list(goal_neg)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        s.add(*self.th.instances(fs))
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        if r == z3.unknown:
            self.gaveup = True
        return r, s

    def entails(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False if self.feasible(st) else True
        return self.check(st.pc, [z3.Not(f)])[0] == z3.unsat

    def feasible(self, st, extra=()):
        return self.check(st.pc, list(extra))[0] != z3.unsat

    def oblige(self, st, f, what, line=None, kind=''):
        """prove f here (in the final pass); assume it afterwards"""
        f = z3.simplify(f)
        if z3.is_true(f):
            if not self.dry:
                self.obls.append(Obl(f'{self.name}:{what}', 'proved', 0, line=line, kind=kind))
            return
        if not self.dry:
            t0 = time.time()
            r, s = self.check(st.pc, [z3.Not(f)])
            m = None
            if r == z3.unsat:
                stt, det = 'proved', ''
            elif r == z3.sat:
                stt = 'sat'
                m = s.model()
                det = 'not provable: ' + ', '.join(f'{d.name()}={m[d]}' for d in m.decls() if d.arity() == 0)[:600]
            else:
                stt, det = 'unknown', s.reason_unknown()
            self.obls.append(Obl(f'{self.name}:{what}', stt, time.time() - t0, det, m, line, kind))
        st.pc.append(f)

    def fresh(self, base, t):
        self.n += 1
        if t == 'real':
            return z3.Real(f'{base}!{self.n}')
        return z3.Int(f'{base}!{self.n}')

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        k = e.k
        if k == 'int':
            return Z(e.v)
        if k == 'float':
            return FV(z3.RealVal(e.v))
        if k == 'var':
            if e.id not in st.env:
                raise Unsupported(f'variable {e.name}')
            v = st.env[e.id]
            if v is None:
                raise Unsupported(f'{e.name} read before it is assigned, line {e.line}')
            return v
        if k == 'bin':
            return self.binop(e, st)
        if k == 'un':
            return self.unop(e, st)
        if k == 'assign':
            return self.assign(e, st)
        if k == 'cond':
            b = z3.simplify(self.evb(e.c, st))
            if z3.is_true(b) or (not z3.is_false(b) and self.entails(st, b)):
                return self.ev(e.x, st)
            if z3.is_false(b) or self.entails(st, z3.Not(b)):
                return self.ev(e.y, st)
            s1, s2 = st.copy(), st.copy()
            s1.pc.append(b)
            s2.pc.append(z3.Not(b))
            x, y = self.ev(e.x, s1), self.ev(e.y, s2)
            st.pc += [z3.Implies(b, f) for f in s1.pc[len(st.pc) + 1:]] + [z3.Implies(z3.Not(b), f) for f in s2.pc[len(st.pc) + 1:]]
            if isinstance(x, FV) and isinstance(y, FV):
                return FV(z3.If(b, x.p, y.p), z3.If(b, x.c, y.c))
            if z3.is_expr(x) and z3.is_expr(y):
                return z3.If(b, x, y)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr is y.arr:
                return Ptr(x.arr, z3.If(b, x.off, y.off))
            raise Unsupported('conditional of unlike values')
        if k == 'index':
            return self.load(self.ptr_add(self.ev(e.b, st), self.ev(e.i, st)), st, e.line)
        if k == 'member':
            b = self.ev(e.b, st)
            if isinstance(b, Struct):
                if e.f not in b.f:
                    raise Unsupported('field ' + e.f)
                return b.f[e.f]
            raise Unsupported('member of ' + str(b))
        if k == 'cast':
            return self.cast(e, st)
        if k == 'call':
            return self.call(e, st)
        if k == 'sizeof':
            return Z({'float': 4, 'double': 8, '_Complex float': 8, '_Complex double': 16, 'unsigned long': 8, 'long': 8,
                      'int': 4, 'char': 1}.get(e.of, 8))
        raise Unsupported(f'expression {k} line {e.line}')

    def evb(self, e, st):
        if e.k == 'bin' and e.op in ('&&', '||'):
            l = self.evb(e.l, st)
            s2 = st.copy()
            s2.pc.append(l if e.op == '&&' else z3.Not(l))
            r = self.evb(e.r, s2)
            self.no_effect(st, s2)
            return z3.And(l, r) if e.op == '&&' else z3.Or(l, r)
        if e.k == 'un' and e.op == '!':
            return z3.Not(self.evb(e.e, st))
        if e.k == 'bin' and e.op in ('<', '<=', '>', '>=', '==', '!='):
            l, r = self.ev(e.l, st), self.ev(e.r, st)
            if isinstance(l, Ptr) or isinstance(r, Ptr):
                ln = isinstance(l, Ptr) and l.arr is None or not isinstance(l, Ptr)
                rn = isinstance(r, Ptr) and r.arr is None or not isinstance(r, Ptr)
                if ln != rn and e.op in ('==', '!='):
                    return z3.BoolVal(e.op == '!=')
                if ln and rn and e.op in ('==', '!='):
                    return z3.BoolVal(e.op == '==')
                raise Unsupported('pointer comparison')
            if isinstance(l, (FV, Filt)) or isinstance(r, (FV, Filt)):
                raise Unsupported('comparison of data values')
            return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r, '==': l == r, '!=': l != r}[e.op]
        if e.k == 'cast' and (e.ck == 'IntegralToBoolean' or e.ck == 'IntegralCast' and WIDTH.get(e.t, 0) >= WIDTH.get(e.e.t, 64)):
            return self.evb(e.e, st)
        v = self.ev(e, st)
        if isinstance(v, Ptr):
            return z3.BoolVal(v.arr is not None)
        if z3.is_expr(v):
            return v != 0
        raise Unsupported('truth value')

    def no_effect(self, s1, s2):
        if any(s1.env[k] is not s2.env[k] for k in s1.env) or s1.cells != s2.cells:
            raise Unsupported('side effect inside && or ||')

    def fv(self, v):
        if isinstance(v, FV):
            return v
        if isinstance(v, Filt):
            raise Unsupported('filter value used outside a product')
        if z3.is_expr(v):
            return FV(z3.ToReal(v))
        raise Unsupported('value kind')

    smul = z3.Function('smul', z3.IntSort(), z3.RealSort(), z3.RealSort())

    @staticmethod
    def nofilter(v):
        c = z3.simplify(v.c)
        return z3.is_rational_value(c) and c.numerator_as_long() == 0

    def mul(self, l, r):
        if isinstance(r, Filt):
            l, r = r, l
        if isinstance(l, Filt):
            v = self.fv(r)
            if not self.nofilter(v):
                raise Unsupported('product of two filter values')
            hit = l.idx == self.T
            return FV(R0, z3.If(hit, v.p, R0)) if l.arr.kind == 'filter' else self._other_filter(l, v)
        l, r = (r, l) if isinstance(l, FV) and not isinstance(r, FV) else (l, r)
        if isinstance(r, FV) and isinstance(l, FV):
            if z3.is_rational_value(z3.simplify(r.p)) and z3.is_rational_value(z3.simplify(r.c)):
                l, r = r, l
            lp = z3.simplify(l.p)
            if z3.is_rational_value(lp) and z3.is_rational_value(z3.simplify(l.c)):
                return FV(lp * r.p, lp * r.c)
            if z3.is_app(lp) and lp.decl().kind() == z3.Z3_OP_TO_REAL:
                l = lp.arg(0)
            else:
                raise Unsupported('product of data values')
        if isinstance(r, FV):     # integer times data
            l = z3.simplify(l)
            if z3.is_int_value(l):
                return FV(z3.ToReal(l) * r.p, z3.ToReal(l) * r.c)
            if not self.nofilter(r):
                raise Unsupported('integer times filter value')
            return FV(self.smul(l, z3.simplify(r.p, som=True)))
        raise Unsupported('product')

    def binop(self, e, st):
        op = e.op
        if op in ('&&', '||', '<', '<=', '>', '>=', '==', '!='):
            return z3.If(self.evb(e, st), Z(1), Z(0))
        if op == ',':
            self.ev(e.l, st)
            return self.ev(e.r, st)
        return self.arith(op, self.ev(e.l, st), self.ev(e.r, st), e.t, st, e.line)

    def arith(self, op, l, r, t, st, line):
        if isinstance(l, Ptr) or isinstance(r, Ptr):
            if op == '+' and isinstance(l, Ptr) and z3.is_expr(r):
                return self.ptr_add(l, r)
            if op == '+' and isinstance(r, Ptr) and z3.is_expr(l):
                return self.ptr_add(r, l)
            if op == '-' and isinstance(l, Ptr) and z3.is_expr(r):
                return self.ptr_add(l, -r)
            raise Unsupported('pointer arithmetic')
        if isinstance(l, (FV, Filt)) or isinstance(r, (FV, Filt)) or is_float(t):
            if op == '*':
                return self.mul(l, r)
            a, b = self.fv(l), self.fv(r)
            if op == '+':
                return FV(a.p + b.p, a.c + b.c)
            if op == '-':
                return FV(a.p - b.p, a.c - b.c)
            if op == '/' and z3.is_rational_value(z3.simplify(b.p)):
                return FV(a.p / b.p, a.c / b.p)
            raise Unsupported('operation on data ' + op)
        if op == '+':
            if self.modular and t == 'unsigned long':
                return z3.If(l + r < W64, l + r, l + r - W64)
            return self.fits(l + r, t, st, line, 'sum')
        if op == '-':
            if self.modular and t == 'unsigned long':
                return z3.If(l >= r, l - r, l - r + W64)
            if is_unsigned(t):
                self.oblige(st, l >= r, f'unsigned subtraction does not wrap, line {line}', line, 'wrap')
                return l - r
            return self.fits(l - r, t, st, line, 'difference')
        if op == '*':
            a, b = z3.simplify(l), z3.simplify(r)
            if z3.is_int_value(a) or z3.is_int_value(b):
                return self.fits(a * b, t, st, line, 'product')
            return self.nl_mul(a, b)
        if op in ('/', '%'):
            b = z3.simplify(r)
            self.oblige(st, b != 0, f'divisor is not zero, line {line}', line, 'div')
            if z3.is_int_value(b) and b.as_long() > 0:
                if not is_unsigned(t):
                    self.oblige(st, l >= 0, f'dividend is not negative, line {line}', line, 'wrap')
                return l / b if op == '/' else l % b
            return self.sym_divmod(op, l, b, st)
        if op in ('<<', '>>'):
            b = z3.simplify(r)
            if z3.is_int_value(b) and 0 <= b.as_long() < 62:
                q = 1 << b.as_long()
                return self.fits(l * q, t, st, line, 'shift') if op == '<<' else l / q
            return self.sym_shift(op, l, b, st)
        raise Unsupported(f'integer operator {op}')

    def fits(self, v, t, st, line, what):
        """integer arithmetic is mathematical because every result is shown to be representable"""
        r = int_range(t)
        if r is not None:
            s = z3.simplify(v)
            if z3.is_int_value(s):
                if r[0] <= s.as_long() <= r[1]:
                    return v
            lo = z3.BoolVal(True) if is_unsigned(t) and what in ('sum', 'product', 'shift') else v >= r[0]
            self.oblige(st, z3.And(lo, v <= r[1]), f'{what} is representable in {t}, line {line}', line, 'wrap')
        return v

    # hooks for nonlinear integer terms
    def nl_mul(self, a, b):
        raise Unsupported('product of two symbolic integers')

    def sym_divmod(self, op, l, b, st):
        for name, (d, P) in self.th.D.items():
            if z3.eq(z3.simplify(P - b), Z(0)):
                if op == '%':
                    f = z3.Function('mod_' + name, z3.IntSort(), z3.IntSort())
                    r = f(z3.simplify(l, som=True))
                    st.pc += [r >= 0, r < b, d(l - r)]
                    return r
        raise Unsupported('division by a symbolic integer')

    def sym_shift(self, op, l, b, st):
        raise Unsupported('shift by a symbolic amount')

    def unop(self, e, st):
        op = e.op
        if op in ('++', '--'):
            old = self.ev(e.e, st)
            one = Z(1)
            if isinstance(old, Ptr):
                new = self.ptr_add(old, one if op == '++' else -one)
            else:
                new = self.arith('+' if op == '++' else '-', old, one, e.e.t, st, e.line)
            self.store(e.e, new, st)
            return old if e.post else new
        if op == '-':
            v = self.ev(e.e, st)
            if isinstance(v, FV):
                return FV(-v.p, -v.c)
            return -v
        if op == '+':
            return self.ev(e.e, st)
        if op == '!':
            return z3.If(self.evb(e, st), Z(1), Z(0))
        if op == '*':
            return self.load(self.ev(e.e, st), st, e.line)
        if op == '&':
            if e.e.k == 'index':
                return self.ptr_add(self.ev(e.e.b, st), self.ev(e.e.i, st))
            v = self.ev(e.e, st)
            if isinstance(v, Struct):
                return v
            raise Unsupported('address of variable')
        if op == '__extension__':
            return self.ev(e.e, st)
        raise Unsupported('unary ' + op)

    def ptr_add(self, p, i):
        if not isinstance(p, Ptr):
            raise Unsupported('indexing a non-pointer')
        return Ptr(p.arr, z3.simplify(p.off + i))

    def load(self, p, st, line):
        a = p.arr
        if a is None:
            raise Unsupported('null pointer read')
        self.oblige(st, z3.And(p.off >= 0, p.off < a.length), f'read of {a.name} in bounds, line {line}', line, 'bounds')
        if a.kind == 'data':
            return FV(a.fn(p.off))
        if a.kind in ('filter', 'filter0'):
            return Filt(a, p.off)
        if a.kind == 'ints':
            return a.fn(p.off)
        if a.kind == 'out':
            cur = st.cells[a.name]
            hit = p.off == self.P
            u, w = self.fresh('oth', 'real'), self.fresh('othc', 'real')
            return FV(z3.If(hit, cur.p, u), z3.If(hit, cur.c, w))
        raise Unsupported('array kind ' + a.kind)

    def store(self, lhs, v, st):
        if lhs.k == 'cast':
            raise Unsupported('assignment through a cast')
        if lhs.k == 'var':
            if lhs.id not in st.env:
                raise Unsupported('assignment to ' + lhs.name)
            if is_float(lhs.t) and not isinstance(v, (FV, Filt)):
                v = self.fv(v)
            st.env[lhs.id] = z3.simplify(v, som=False) if z3.is_expr(v) else v
            return
        if lhs.k == 'index':
            p = self.ptr_add(self.ev(lhs.b, st), self.ev(lhs.i, st))
        elif lhs.k == 'un' and lhs.op == '*':
            p = self.ev(lhs.e, st)
        else:
            raise Unsupported('assignment target ' + lhs.k)
        self.store_ptr(p, v, st, lhs.line)

    def store_ptr(self, p, v, st, line):
        a = p.arr
        if a is None or a.kind not in ('out',):
            raise Unsupported(f'write to {a.name if a else "null"}')
        self.oblige(st, z3.And(p.off >= 0, p.off < a.length), f'write of {a.name} in bounds, line {line}', line, 'bounds')
        v = self.fv(v)
        cur = st.cells[a.name]
        hit = p.off == self.P
        st.cells[a.name] = FV(z3.If(hit, v.p, cur.p), z3.If(hit, v.c, cur.c))

    def assign(self, e, st):
        if e.op is None:
            v = self.ev(e.r, st)
        else:
            r = self.ev(e.r, st)
            l = self.ev(e.l, st)
            v = self.arith(e.op, l, r, e.l.t if is_int(e.l.t) else e.ct, st, e.line)
        self.store(e.l, v, st)
        return v

    def cast(self, e, st):
        ck = e.ck
        v = self.ev(e.e, st)
        if ck in ('IntegralCast', 'IntegralToBoolean'):
            if ck == 'IntegralToBoolean':
                return z3.If(v != 0, Z(1), Z(0))
            if is_unsigned(e.t) and not is_unsigned(e.e.t):
                s = z3.simplify(v)
                if not (z3.is_int_value(s) and s.as_long() >= 0):
                    self.oblige(st, v >= 0, f'conversion to unsigned keeps the value, line {e.line}', e.line, 'wrap')
            if WIDTH.get(e.t, 64) < WIDTH.get(e.e.t, 32) or e.t in WIDTH and not is_unsigned(e.t) and is_unsigned(e.e.t) \
                    and WIDTH[e.t] <= WIDTH.get(e.e.t, 32):
                self.fits(v, e.t, st, e.line, 'converted value')
            return v
        if ck in ('FloatingCast', 'FloatingRealToComplex', 'FloatingComplexCast'):
            return v
        if ck in ('IntegralToFloating', 'IntegralRealToComplex'):
            s = z3.simplify(v)
            return FV(z3.ToReal(s))
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BitCast':
            return v
        if ck == 'ToVoid':
            return v
        if ck == 'PointerToBoolean':
            return Z(1 if v.arr is not None else 0)
        raise Unsupported('cast ' + ck)

    def call(self, e, st):
        if e.f.k != 'fn':
            raise Unsupported('indirect call')
        name = e.f.name
        if name in self.contracts:
            return self.contracts[name](self, e, [self.ev(a, st) for a in e.args], st)
        f = self.funcs.get(name)
        if isinstance(f, Fn):            # no contract: the body is inlined
            if self.depth > 6:
                raise Unsupported('recursion ' + name)
            args = [self.ev(a, st) for a in e.args]
            saved = st.env
            env = {p[0]: a for p, a in zip(f.params, args)}
            s2 = St(dict(saved, **env), st.pc, st.cells)
            if name not in self.collected:
                self.collected.add(name)
                self.collect(f.body)
            self.depth += 1
            sav, self.oracle = self.oracle, None
            outs = self.block([f.body], s2)
            self.oracle = sav
            self.depth -= 1
            if len(outs) != 1:
                outs = [o for o in outs if self.feasible(o[1])]
            if not outs:
                raise Unsupported('no end of ' + name)
            pick = 0
            if len(outs) > 1:
                pick = self.choose(len(outs))
            kind, s3, val = outs[pick]
            if kind not in ('return', 'next'):
                raise Unsupported('end of inlined function')
            st.pc, st.cells = s3.pc, s3.cells
            for k in saved:
                st.env[k] = s3.env.get(k, saved[k])
            return val
        raise Unsupported('call of ' + name)

    forking = ()
    gaveup = False        # the solver gave up on some query: nothing that failed afterwards means anything
    modular = False       # exact 64-bit wrap-around for size_t + and -

    def choose(self, n):
        """nondeterministic choice inside an expression, enumerated by the enclosing statement"""
        if self.oracle is None:
            raise Unsupported('choice inside an unsupported statement')
        pref, made, todo = self.oracle
        pick = 0
        if len(made) < len(pref):
            pick = pref[len(made)]
        else:
            todo += [made + [k] for k in range(1, n)]
        made.append(pick)
        return pick

    def has_inline(self, x):
        if isinstance(x, Node):
            if x.k == 'call' and x.f.k == 'fn' and x.f.name in self.forking:
                return True
            if x.k == 'call' and x.f.k == 'fn' and x.f.name not in self.contracts and isinstance(self.funcs.get(x.f.name), Fn):
                return True
            return any(self.has_inline(v) for v in x.a.values())
        if isinstance(x, (list, tuple)):
            return any(self.has_inline(v) for v in x)
        return False

    # ---------------------------------------------------------------- statements
    def block(self, ss, st):
        """-> list of (kind, state, value); kind in next, break, continue, return, goto"""
        live, res = [st], []
        for i, s in enumerate(ss):
            nxt = []
            for x in live:
                for o in self.stmt(s, x):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        res.append(o)
            # labels: forward gotos only
            if s.k == 'label':
                pass
            live = nxt
            if not live:
                # a label later in this block may catch a goto
                pass
            # resolve gotos to a label that follows in this block
            for j in range(i + 1, len(ss)):
                pass
        res2 = [('next', x, None) for x in live]
        pend = list(res)
        for o in pend:
            if o[0] == 'goto':
                idx = next((j for j, s in enumerate(ss) if s.k == 'label' and s.id == o[2]), None)
                if idx is not None:
                    res2 += self.block(ss[idx:], o[1])
                    continue
            res2.append(o)
        return res2

    def stmt(self, s, st):
        direct = {'decl': lambda: [v[3] for v in s.vs if v[3] is not None], 'expr': lambda: s.e, 'return': lambda: s.e,
                  'if': lambda: s.c, 'switch': lambda: s.c}.get(s.k)
        if direct is not None and self.has_inline(direct()):
            todo, res = [[]], []
            while todo:
                pref = todo.pop()
                sav, self.oracle = self.oracle, (pref, [], todo)
                try:
                    res += self.stmt1(s, st.copy())
                finally:
                    self.oracle = sav
            return res
        return self.stmt1(s, st)

    def stmt1(self, s, st):
        k = s.k
        if k == 'null':
            return [('next', st, None)]
        if k == 'block':
            return self.block(s.ss, st)
        if k == 'decl':
            for i, name, t, ini in s.vs:
                if ini is not None:
                    v = self.ev(ini, st)
                    if is_float(t) and not isinstance(v, (FV, Filt)):
                        v = self.fv(v)
                    st.env[i] = z3.simplify(v) if z3.is_expr(v) else v
                else:
                    st.env[i] = None
            return [('next', st, None)]
        if k == 'expr':
            self.ev(s.e, st)
            return [('next', st, None)]
        if k == 'if':
            b = z3.simplify(self.evb(s.c, st))
            if z3.is_true(b):
                return self.stmt(s.x, st)
            if z3.is_false(b):
                return self.stmt(s.y, st)
            res = []
            f1, f2 = self.feasible(st, [b]), self.feasible(st, [z3.Not(b)])
            if f1:
                s1 = st.copy() if f2 else st
                s1.pc.append(b)
                res += self.stmt(s.x, s1)
            if f2:
                st.pc.append(z3.Not(b))
                res += self.stmt(s.y, st)
            return res
        if k == 'loop':
            return self.loop(s, st)
        if k == 'switch':
            return self.switch(s, st)
        if k in ('case', 'default', 'label'):
            return self.stmt(s.s, st)
        if k == 'break':
            return [('break', st, None)]
        if k == 'continue':
            return [('continue', st, None)]
        if k == 'return':
            return [('return', st, self.ev(s.e, st) if s.e is not None else None)]
        if k == 'goto':
            return [('goto', st, s.to)]
        raise Unsupported('statement ' + k)

    def switch(self, s, st):
        v = self.ev(s.c, st)
        body = s.body.ss if s.body.k == 'block' else [s.body]
        flat = []
        for x in body:          # case 1: case 2: stmt
            while x.k in ('case', 'default'):
                flat.append(x)
                x = x.s
            flat.append(x)
        res, rest = [], [st]
        entries = []
        dflt = None
        for i, x in enumerate(flat):
            if x.k == 'case':
                entries.append((i, x))
            elif x.k == 'default':
                dflt = i
        cur = st
        for i, x in entries:
            cv = self.ev(x.v, cur)
            b = z3.simplify(v == cv)
            if z3.is_false(b) or not self.feasible(cur, [b]):
                continue
            always = z3.is_true(b) or not self.feasible(cur, [z3.Not(b)])
            s1 = cur if always else cur.copy()
            s1.pc.append(b)
            res += self.block([y for y in flat[i:] if y.k not in ('case', 'default')], s1)
            if always:
                cur = None
                break
            cur.pc.append(z3.Not(b))
        if cur is not None:
            if dflt is None:
                res.append(('next', cur, None))
            else:
                res += self.block([y for y in flat[dflt:] if y.k not in ('case', 'default')], cur)
        return [('next', o[1], None) if o[0] == 'break' else o for o in res]

    # ---------------------------------------------------------------- loops
    def modified(self, x, acc=None):
        """ids assigned in a tree, names of arrays written (by pointer expression roots)"""
        acc = acc if acc is not None else (set(), [False])
        if isinstance(x, Node):
            if x.k == 'assign' or x.k == 'un' and x.op in ('++', '--'):
                l = x.l if x.k == 'assign' else x.e
                if l.k == 'var':
                    acc[0].add(l.id)
                else:
                    acc[1][0] = True
            if x.k == 'call':
                f = self.funcs.get(x.f.name) if x.f.k == 'fn' else None
                acc[1][0] = True
                if isinstance(f, Fn) and x.f.name not in self.contracts:
                    self.modified(f.body, acc)
            for v in x.a.values():
                self.modified(v, acc)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.modified(v, acc)
        return acc

    def collect(self, x):
        """remember output subscripts (psi) and filter subscripts (phi) written in the text"""
        if isinstance(x, Node):
            if x.k == 'assign' and x.l.k == 'index' and is_float(x.l.t):
                self.psis.append(x.l.i)
            if x.k == 'assign' and x.l.k == 'un' and x.l.op == '*' and x.l.e.k == 'bin' and x.l.e.op == '+' and is_int(x.l.e.r.t):
                self.psis.append(x.l.e.r)
            if x.k == 'index' and is_float(x.t):
                self.phis.append((x.b, x.i))
            if x.k == 'un' and x.op == '*' and x.e.k == 'bin' and x.e.op == '+' and is_int(x.e.r.t):
                self.phis.append((x.e.l, x.e.r))
            for v in x.a.values():
                self.collect(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.collect(v)

    def uniq(self, es):
        seen, r = set(), []
        for e in es:
            k = repr(e)
            if k not in seen:
                seen.add(k)
                r.append(e)
        return r

    def mathev(self, e, st):
        """evaluate an integer expression without obligations; None when it uses variables not in scope"""
        self.dry += 1
        try:
            s = st.copy()
            v = self.ev(e, s)
            return z3.simplify(v) if z3.is_expr(v) and v.sort() == z3.IntSort() and not (len(s.pc) > len(st.pc) + 4) else None
        except (Unsupported, KeyError, z3.Z3Exception):
            return None
        finally:
            self.dry -= 1

    def atoms(self, x, acc):
        """comparison atoms inside loop guards and ifs of a tree"""
        if isinstance(x, Node):
            if x.k == 'loop' or x.k == 'if' or x.k == 'cond':
                self._cmp(x.c, acc)
            for v in x.a.values():
                self.atoms(v, acc)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.atoms(v, acc)
        return acc

    def _cmp(self, c, acc):
        if c.k == 'bin' and c.op in ('&&', '||'):
            self._cmp(c.l, acc)
            self._cmp(c.r, acc)
        elif c.k == 'bin' and c.op in ('<', '<=', '!='):
            acc.append((c.l, c.r))
        elif c.k == 'bin' and c.op in ('>', '>='):
            acc.append((c.r, c.l))

    def increments(self, x, acc):
        if isinstance(x, Node):
            if x.k == 'assign' and x.op in ('+', '-') and is_int(x.l.t):
                acc.append(x.r)
            for v in x.a.values():
                self.increments(v, acc)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.increments(v, acc)
        return acc

    def candidates(self, s, st0, ids, guard_of):
        """list of (label, st -> Bool)"""
        C = []
        ints = [i for i in ids if z3.is_expr(st0.env[i])]
        flts = [i for i in ids if isinstance(st0.env[i], FV)]
        g = guard_of

        def add(label, f, guarded=False):
            C.append((label, f))
            if guarded:
                C.append(('guard=>' + label, lambda st, f=f: z3.Implies(g(st), f(st))))
        nm = {}
        for a in ints:
            u0 = st0.env[a]
            add(f'{a[-4:]}>=0', lambda st, a=a: st.env[a] >= 0)
            add(f'{a[-4:]} up', lambda st, a=a, u0=u0: st.env[a] >= u0)
            add(f'{a[-4:]} down', lambda st, a=a, u0=u0: st.env[a] <= u0)
            for b in ints:
                v0 = st0.env[b]
                if a < b:
                    for c in (1, -1, 2):
                        add(f'delta {c}', lambda st, a=a, b=b, u0=u0, v0=v0, c=c: st.env[a] - u0 == c * (st.env[b] - v0))
                elif a > b:
                    add('delta 2', lambda st, a=a, b=b, u0=u0, v0=v0: st.env[a] - u0 == 2 * (st.env[b] - v0))
            for name, (d, P) in self.th.D.items():
                add(f'D_{name}', lambda st, a=a, u0=u0, d=d: d(z3.simplify(st.env[a] - u0, som=True)), True)
                if not z3.eq(u0, Z(0)) and name == 'fs':
                    add(f'D_{name} abs', lambda st, a=a, d=d: d(z3.simplify(st.env[a], som=True)), True)
        at = self.uniq(self.atoms(s, []))
        gatoms = []
        self._cmp(s.c, gatoms)
        gk = {repr(x) for x in gatoms}
        gatoms = [x for x in at if repr(x) in gk]
        slack = [Z(-1), Z(0), Z(1)]
        for e in self.uniq(self.increments(s, [])):
            v = self.mathev(e, st0)
            if v is not None:
                slack += [v, v - 1]
        for l, r in at:
            for sl in slack:
                def f(st, l=l, r=r, sl=sl):
                    a, b = self.mathev(l, st), self.mathev(r, st)
                    return None if a is None or b is None else a <= b + sl
                if f(st0) is not None:
                    C.append((f'guard slack {sl}', f))
                    if gatoms and any(l is x and r is y for x, y in gatoms):
                        C.append((f'unmoved or guard slack {sl}', lambda st, f=f: None if f(st) is None else z3.Or(
                            z3.And(*[st.env[a] == st0.env[a] for a in ints]), f(st))))
        # contributions
        psis = [p for p in self.uniq(self.psis)]
        inside = VC.__new__(VC)
        inside.psis, inside.phis = [], []
        inside.funcs = {}
        VC.collect(inside, [s.c, s.body, s.inc])
        inpsis = self.uniq(inside.psis)
        phis = []
        for b, i in self.uniq(inside.phis if inside.phis else self.phis):
            try:
                v = st0.env.get(b.id) if b.k == 'var' else self.ev(b, st0.copy())
            except (Unsupported, AttributeError):
                v = None
            if v is None or isinstance(v, Ptr) and v.arr is not None and v.arr.kind == 'filter':
                phis.append(i)
        phis = self.uniq(phis)
        T, P = self.T, self.P
        tracked = []
        for a in flts:
            tracked.append((a, lambda st, a=a: st.env[a], st0.env[a]))
        for n, v in st0.cells.items():
            tracked.append((n, lambda st, n=n: st.cells[n], v))
        spec = self.spec
        for a, get, v0 in tracked:
            iscell = a in st0.cells
            add('p same', lambda st, get=get, v0=v0: get(st).p == v0.p)
            if spec is None:
                continue
            add('c same', lambda st, get=get, v0=v0: get(st).c == v0.c)
            for ps in psis:
                y0 = self.mathev(ps, st0)
                if y0 is None:
                    continue
                for ph in phis:
                    f0 = self.mathev(ph, st0)
                    if f0 is None:
                        continue
                    for up in (True, False):
                        def f(st, get=get, v0=v0, ps=ps, ph=ph, f0=f0, up=up):
                            y, ff = self.mathev(ps, st), self.mathev(ph, st)
                            if y is None or ff is None:
                                return None
                            rng = z3.And(f0 <= T, T < ff) if up else z3.And(ff < T, T <= f0)
                            return z3.Implies(y == P, get(st).c == v0.c + z3.If(rng, spec, R0))
                        C.append(('tap range', f))
                if iscell:
                    for mode in ('set', 'acc'):
                        def f(st, get=get, v0=v0, ps=ps, y0=y0, mode=mode):
                            y = self.mathev(ps, st)
                            if y is None:
                                return None
                            done = z3.And(y0 <= P, P < y)
                            cc = spec if mode == 'set' else v0.c + spec
                            pp = R0 if mode == 'set' else v0.p
                            return z3.And(get(st).c == z3.If(done, cc, v0.c), get(st).p == z3.If(done, pp, v0.p))
                        C.append(('cells done ' + mode, f))
            if iscell and psis:
                def f(st, get=get, v0=v0):
                    ys = [self.mathev(p, st) for p in (inpsis or psis)]
                    ys = [y for y in ys if y is not None]
                    return z3.Or(z3.And(get(st).c == v0.c, get(st).p == v0.p), *[y == P for y in ys])
                C.append(('other cells same', f))
        for tm in self.extra_templates:
            C += tm(self, s, st0, ids, g, psis, phis)
        # distinct only
        res, seen = [], set()
        for l, f in C:
            try:
                v = f(st0)
            except KeyError:
                continue
            if v is None:
                continue
            res.append((l, f))
        return res

    def tainted(self, st0, trees):
        """ids whose value may depend on filter values (syntactic closure)"""
        t = {i for i, v in st0.env.items() if isinstance(v, Filt) or isinstance(v, Ptr) and v.arr is not None and v.arr.kind not in ('data', 'ints')
             or isinstance(v, FV) and not self.nofilter(v)}

        def mentions(x):
            if isinstance(x, Node):
                if x.k == 'var' and x.id in t:
                    return True
                return any(mentions(v) for v in x.a.values())
            if isinstance(x, (list, tuple)):
                return any(mentions(v) for v in x)
            return False

        def go(x):
            ch = False
            if isinstance(x, Node):
                if x.k == 'assign' and x.l.k == 'var' and x.l.id not in t and mentions(x.r):
                    t.add(x.l.id)
                    ch = True
                if x.k == 'decl':
                    for i, _, _, e in x.vs:
                        if e is not None and i not in t and mentions(e):
                            t.add(i)
                            ch = True
                for v in x.a.values():
                    ch |= go(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    ch |= go(v)
            return ch
        while go(trees):
            pass
        return t

    def havoc(self, st0, ids, cells, trees=()):
        st = st0.copy()
        taint = self.tainted(st0, list(trees))
        for i in ids:
            v = st.env[i]
            if z3.is_expr(v):
                x = self.fresh('h', 'int')
                st.env[i] = x
            elif isinstance(v, FV):
                st.env[i] = FV(self.fresh('hp', 'real'), self.fresh('hc', 'real') if i in taint else R0)
            elif v is None:
                pass
            elif isinstance(v, Ptr):
                st.env[i] = Ptr(v.arr, self.fresh('ho', 'int'))
            else:
                raise Unsupported('loop changes a value of unsupported kind')
        if cells:
            for n in st.cells:
                st.cells[n] = FV(self.fresh('cp', 'real'), self.fresh('cc', 'real'))
        return st

    def inner_loops(self, s):
        if s not in self.inner:
            acc = []

            def go(x):
                if isinstance(x, Node):
                    if x.k == 'loop':
                        acc.append(id(x))
                    for v in x.a.values():
                        go(v)
                elif isinstance(x, (list, tuple)):
                    for v in x:
                        go(v)
            go(s.body)
            self.inner[s] = acc
        return self.inner[s]

    def run_body(self, s, head):
        """one iteration from a head state satisfying the guard -> (states at the next head, other outcomes)"""
        st = head.copy()
        b = self.evb(s.c, st)
        st.pc.append(b)
        ends, others = [], []
        for i in self.inner_loops(s):
            self.occ[i] = 0
        for o in self.stmt(s.body, st):
            if o[0] in ('next', 'continue'):
                if s.inc is not None:
                    self.ev(s.inc, o[1])
                ends.append(o[1])
            else:
                others.append(o)
        return ends, others

    def loop(self, s, st0):
        if s.do:
            # body once, then as a while loop
            res = []
            nxt = []
            for o in self.stmt(s.body, st0):
                if o[0] in ('next', 'continue'):
                    nxt.append(o[1])
                elif o[0] == 'break':
                    res.append(('next', o[1], None))
                else:
                    res.append(o)
            w = Node('loop', None, s.line, c=s.c, body=s.body, inc=None, do=False)
            for x in nxt:
                res += self.loop(w, x)
            return res
        # infeasible entry: nothing to do
        if not self.feasible(st0):
            return []
        g0 = z3.simplify(self.mathguard(s, st0))
        if z3.is_false(g0) or not self.feasible(st0, [g0]):
            st0.pc.append(z3.Not(self.evb(s.c, st0)))
            return [('next', st0, None)]
        ids, arr = self.modified([s.c, s.body, s.inc])
        ids = sorted(i for i in ids if i in st0.env)
        # uninitialised variables stay unset at the head
        guard_of = lambda st: self.mathguard(s, st)
        head = self.havoc(st0, [i for i in ids if st0.env[i] is not None], arr[0], [s.c, s.body, s.inc])
        C = self.candidates(s, st0, [i for i in ids if st0.env[i] is not None], guard_of)
        occ = self.occ.get(id(s), 0)
        self.occ[id(s)] = occ + 1
        key = (id(s), occ)
        ck = self.cache.get(key)
        idx = list(range(len(C)))
        ncand = len(C)
        if ck is not None and ck[0] == len(C):
            idx = [i for i in idx if i in ck[1]]
            C = [C[i] for i in idx]
        number = {id(f): i for i, (_, f) in zip(idx, C)}
        # 1. initial filter
        C = self.filter(st0.pc, [(l, f, f(st0)) for l, f in C])
        # 2. inductive closure
        self.dry += 1
        try:
            rounds = 0
            while True:
                rounds += 1
                h = head.copy()
                h.pc = list(st0.pc) + [f(h) for _, f in C]
                hh = h.copy()
                ends, _ = self.run_body(s, hh)
                before = len(C)
                for e in ends:
                    C = self.filter(e.pc, [(l, f, f(e)) for l, f in C])
                if len(C) == before:
                    break
                if rounds > 40:
                    raise Unsupported('invariant inference does not converge')
        finally:
            self.dry -= 1
        self.cache[key] = (ncand, {number[id(f)] for _, f in C})
        inv = [f(head) for _, f in C]
        head.pc = list(st0.pc) + inv
        if not self.dry:
            self.inv_log.append((s.line, [l for l, _ in C]))
        # 3. body obligations and termination
        ends, others = self.run_body(s, head.copy())
        if not self.dry:
            self.termination(s, head, ends)
        res = []
        ex = head.copy()
        b = self.evb(s.c, ex)
        ex.pc.append(z3.Not(b))
        if self.feasible(ex):
            res.append(('next', ex, None))
        for o in others:
            if o[0] == 'break':
                res.append(('next', o[1], None))
            else:
                res.append(o)
        return res

    def mathguard(self, s, st):
        self.dry += 1
        try:
            x = st.copy()
            return self.evb(s.c, x)
        finally:
            self.dry -= 1

    def termination(self, s, head, ends):
        """some comparison atom of the guard has a strictly decreasing, bounded difference on every iteration"""
        acc = []
        self._cmp(s.c, acc)
        best = None
        for l, r in acc:
            a, b = self.mathev(l, head), self.mathev(r, head)
            if a is None or b is None:
                continue
            ok = True
            for e in ends:
                a2, b2 = self.mathev(l, e), self.mathev(r, e)
                if a2 is None or b2 is None or self.check(e.pc, [z3.Not((b2 - a2) < (b - a))])[0] != z3.unsat:
                    ok = False
                    break
            if ok:
                # bounded below inside the loop: the guard must imply b - a >= 0 (or the atom is a conjunct)
                h = head.copy()
                h.pc.append(self.mathguard(s, head))
                if self.check(h.pc, [z3.Not(b - a >= 0)])[0] == z3.unsat:
                    best = True
                    break
        self.obls.append(Obl(f'{self.name}:loop at line {s.line} terminates', 'proved' if best else 'sat', 0,
                             '' if best else 'no variant found', None, s.line, 'term'))

    def filter(self, pc, cs):
        """drop candidates not implied by pc (model-guided)"""
        cs = [(l, f, v) for l, f, v in cs if v is not None]
        triv = [(l, f) for l, f, v in cs if z3.is_true(z3.simplify(v))]
        todo = [(l, f, v) for l, f, v in cs if not z3.is_true(z3.simplify(v))]
        keep = []
        while todo:
            r, s = self.check(pc, [z3.Or([z3.Not(v) for _, _, v in todo])], timeout=4000)
            if r == z3.unsat:
                keep += [(l, f) for l, f, _ in todo]
                break
            if r == z3.sat:
                m = s.model()
                nxt = [(l, f, v) for l, f, v in todo if z3.is_true(m.eval(v, model_completion=True))]
                if len(nxt) == len(todo):      # model incomplete for instances: test one by one
                    nxt = [(l, f, v) for l, f, v in todo if self.check(pc, [z3.Not(v)], timeout=2000)[0] == z3.unsat]
                    keep += [(l, f) for l, f, _ in nxt]
                    break
                todo = nxt
            else:
                nxt = [(l, f, v) for l, f, v in todo if self.check(pc, [z3.Not(v)], timeout=1500)[0] == z3.unsat]
                keep += [(l, f) for l, f, _ in nxt]
                break
        order = {id(f): i for i, (l, f, v) in enumerate(cs)}
        return sorted(triv + keep, key=lambda lf: order[id(lf[1])])

    # ---------------------------------------------------------------- function
    def function(self, fn, args, pre, post, cells):
        """args: values by parameter position; post(vc, outcome state, return value) -> list of (what, formula)"""
        if isinstance(fn, str):
            raise Unsupported(fn)
        self.collect(fn.body)
        st = St({p[0]: a for p, a in zip(fn.params, args)}, list(pre), dict(cells))
        st.env['$ev'] = ()
        if not self.feasible(st):
            self.obls.append(Obl(self.name + ':precondition is satisfiable', 'sat', 0, 'contradictory precondition', kind='vacuity'))
            return
        self.obls.append(Obl(self.name + ':precondition is satisfiable', 'proved', 0, kind='vacuity'))
        outs = self.block([fn.body], st)
        n = 0
        for kind, s, val in outs:
            if kind not in ('next', 'return'):
                raise Unsupported('control leaves the function by ' + kind)
            if not self.feasible(s):
                continue
            n += 1
            for what, f in post(self, s, val):
                self.oblige(s, f, what + (f' (exit {n})' if len(outs) > 1 else ''), kind='post')
        self.obls.append(Obl(self.name + ':an exit is reachable', 'proved' if n else 'sat', 0, kind='vacuity'))
