"""The continuous wavelet functions of cwt.template.c against their closed forms.

Each function is a map over its input: the loop rule below shows that the iterations visit every index 0..N-1 exactly once, that each one reads and
writes only its own index, and that nothing is carried from one iteration to the next; the value stored, as a function of x = input[i] and of the
parameters, is then compared with the closed form by exact computer algebra (sympy).  Values are reals; integers are checked against their C range."""
import math, random
import sympy as sp
import lib
from cast import N as Node, Fn, Unsupported

X = sp.Symbol('x', real=True, nonzero=True)
FB, FC = sp.Symbol('FB', positive=True), sp.Symbol('FC', positive=True)
NN, K = sp.Symbol('N', integer=True, nonnegative=True), sp.Symbol('k', integer=True, nonnegative=True)
IR = {'int': (-(1 << 31), 1 << 31), 'unsigned int': (0, 1 << 32), 'long': (-(1 << 63), 1 << 63), 'unsigned long': (0, 1 << 64), 'char': (-128, 128),
      'unsigned char': (0, 256), 'short': (-(1 << 15), 1 << 15), 'unsigned short': (0, 1 << 16), 'long long': (-(1 << 63), 1 << 63), '_Bool': (0, 2)}
SZ = {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}
MATH = {'pow': lambda a, b: a ** b, 'sqrt': sp.sqrt, 'exp': sp.exp, 'cos': sp.cos, 'sin': sp.sin, 'fabs': sp.Abs, 'log': sp.log, 'tan': sp.tan, 'cosh': sp.cosh, 'sinh': sp.sinh}
MATH.update({k + 'f': v for k, v in list(MATH.items())})


class Refuted(Exception):
    def __init__(self, what, x=None):
        self.what, self.x = what, x


class Poison:
    def __init__(self, why):
        self.why = why


class Ptr:
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def isf(t):
    return (t or '') in ('float', 'double', 'long double')


class Ex:
    """one execution for given decisions about conditions on x"""
    def __init__(self, fns, x, decisions):
        self.fns, self.x, self.dec, self.conds = fns, x, list(decisions), []
        self.cells = {}               # output -> expression in x (None: not written)
        self.cover = {}
        self.probing = False
        self.iter = None              # index expression used in the current iteration
        self.depth = 0
        self.n = 0

    # ------------------------------------------------------------ integers and conditions
    def rng(self, v, t):
        if t in IR and isinstance(v, int):
            lo, hi = IR[t]
            if not lo <= v < hi:
                if t.startswith('unsigned'):
                    raise Unsupported('unsigned wrap-around')
                raise Refuted(f'signed integer overflow: {v} in {t}')
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Ptr):
            return True
        if v is sp.true or v is sp.false:
            return bool(v)
        if isinstance(v, sp.Expr):
            v = sp.Ne(v, 0)
            if v in (sp.true, sp.false):
                return bool(v)
        if isinstance(v, sp.logic.boolalg.Boolean):
            if v.has(K) or v.has(NN):
                raise Unsupported('condition on the index')
            for c, b in self.conds:
                if c == v:
                    return b
                if c == sp.Not(v):
                    return not b
            d = self.dec[len(self.conds)] if len(self.conds) < len(self.dec) else True
            self.conds.append((v, d))
            if len(self.conds) > 12:
                raise Unsupported('too many conditions')
            return d
        raise Unsupported(f'truth of {v!r}')

    # ------------------------------------------------------------ lvalues
    def loc(self, e, env):
        if e.k == 'var':
            return ('v', e.id)
        if e.k == 'index':
            b, i = self.ev(e.b, env), self.ev(e.i, env)
            return ('c', b, i)
        if e.k == 'un' and e.op == '*':
            return ('c', self.ev(e.e, env), 0)
        raise Unsupported('lvalue ' + e.k)

    def cell(self, b, i):
        if isinstance(b, list):
            return b, int(i)
        if not isinstance(b, Ptr):
            raise Unsupported('index into ' + type(b).__name__)
        ix = sp.expand(b.off + i)
        if self.iter is None:
            raise Unsupported('array access outside the loop')
        if self.iter == ():
            self.iter = (ix,)
        elif not self.probing and sp.expand(self.iter[0] - ix) != 0:
            raise Unsupported('more than one index per iteration')
        return b.arr, ix

    def get(self, l, env):
        if l[0] == 'v':
            if l[1] not in env:
                raise Unsupported('unknown variable')
            v = env[l[1]]
            if isinstance(v, Poison):
                raise Unsupported('value carried between iterations: ' + v.why)
            return v
        a, i = self.cell(l[1], l[2])
        if isinstance(a, list):
            return a[i]
        if a == 'in':
            return self.x
        v = self.cells.get(a)
        if v is None:
            raise Unsupported('output read before it is written')
        return v

    def put(self, l, v, env, t):
        if l[0] == 'v':
            env[l[1]] = v
            return
        a, i = self.cell(l[1], l[2])
        if isinstance(a, list):
            a[i] = v
        elif a == 'in':
            raise Refuted('the input is written')
        else:
            self.cells[a] = v
            self.wrote.add(a)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.n += 1
        if self.n > 200000:
            raise Unsupported('too long')
        k = e.k
        if k == 'int':
            return e.v
        if k == 'float':
            v = str(e.v)
            f = float(v)
            for c, m in ((math.pi, sp.pi), (2 * math.pi, 2 * sp.pi), (math.sqrt(2), sp.sqrt(2)), (math.sqrt(math.pi), sp.sqrt(sp.pi)), (math.pi / 2, sp.pi / 2), (math.sqrt(.5), 1 / sp.sqrt(2))):
                if abs(f - c) < 4e-16 * abs(c):
                    return m
            return sp.Rational(v)
        if k in ('var', 'index') or k == 'un' and e.op == '*':
            return self.get(self.loc(e, env), env)
        if k == 'sizeof':
            if e.of in SZ:
                return SZ[e.of]
            raise Unsupported('sizeof ' + e.of)
        if k == 'cast':
            v = self.ev(e.e, env)
            if e.ck in ('IntegralToFloating', 'FloatingCast'):
                return sp.Integer(v) if isinstance(v, int) else v
            if e.ck == 'IntegralCast':
                if isinstance(v, int) and e.t in IR and not IR[e.t][0] <= v < IR[e.t][1]:
                    raise Unsupported('wrapping conversion')
                return v
            if e.ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                return int(self.truth(v))
            if e.ck in ('BitCast',):
                return v
            if e.ck == 'FloatingToIntegral' and isinstance(v, sp.Integer):
                return int(v)
            raise Unsupported('conversion ' + e.ck)
        if k == 'un':
            if e.op in ('++', '--'):
                l = self.loc(e.e, env)
                v = self.get(l, env)
                d = 1 if e.op == '++' else -1
                w = Ptr(v.arr, sp.expand(v.off + d)) if isinstance(v, Ptr) else self.rng(sp.expand(v + d) if isinstance(v, sp.Expr) else v + d, e.t)
                self.put(l, w, env, e.t)
                return v if e.post else w
            v = self.ev(e.e, env)
            if e.op == '-':
                return self.rng(-v, e.t)
            if e.op == '+':
                return v
            if e.op == '!':
                return int(not self.truth(v))
            raise Unsupported('unary ' + e.op)
        if k == 'bin':
            return self.bin(e.op, e, env)
        if k == 'assign':
            l = self.loc(e.l, env)
            v = self.ev(e.r, env)
            if e.op:
                v = self.ar(e.op, self.get(l, env), v, e.ct)
            self.put(l, v, env, e.t)
            return v
        if k == 'cond':
            return self.ev(e.x if self.truth(self.ev(e.c, env)) else e.y, env)
        if k == 'call':
            if e.f.k != 'fn':
                raise Unsupported('indirect call')
            a = [self.ev(x, env) for x in e.args]
            n = e.f.name
            f = self.fns.get(n)
            if isinstance(f, Fn):
                return self.fn(f, a)
            if n in MATH or n.startswith('__builtin_') and n[10:] in MATH:
                return MATH[n[10:] if n.startswith('__b') else n](*[sp.sympify(x) for x in a])
            raise Unsupported('call of ' + n)
        raise Unsupported('expression ' + k)

    def ar(self, op, a, b, t):
        if isinstance(a, Ptr) and op in '+-' and not isinstance(b, Ptr):
            return Ptr(a.arr, sp.expand(a.off + (b if op == '+' else -b)))
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            if isf(t):
                r = sp.sympify(a) / sp.sympify(b)
                if r.has(sp.zoo, sp.nan):
                    raise Refuted('division by zero', self.x)
            elif isinstance(a, int) and isinstance(b, int) and b:
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            else:
                raise Unsupported('integer division')
        elif op == '%' and isinstance(a, int) and isinstance(b, int) and b:
            r = math.copysign(abs(a) % abs(b), a)
            r = int(r)
        elif op in ('<<', '>>', '&', '|') and isinstance(a, int) and isinstance(b, int):
            r = {'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b}[op]
        else:
            raise Unsupported('operator ' + op)
        return self.rng(r, t)

    def bin(self, op, e, env):
        if op == '&&':
            return int(self.truth(self.ev(e.l, env)) and self.truth(self.ev(e.r, env)))
        if op == '||':
            return int(self.truth(self.ev(e.l, env)) or self.truth(self.ev(e.r, env)))
        if op == ',':
            self.ev(e.l, env)
            return self.ev(e.r, env)
        a, b = self.ev(e.l, env), self.ev(e.r, env)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, int) and isinstance(b, int):
                return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr == b.arr:
                    a, b = sp.sympify(a.off), sp.sympify(b.off)
                else:
                    raise Unsupported('comparison of pointers')
            a, b = sp.sympify(a), sp.sympify(b)
            return {'<': sp.Lt, '<=': sp.Le, '>': sp.Gt, '>=': sp.Ge, '==': sp.Eq, '!=': sp.Ne}[op](a, b)
        return self.ar(op, a, b, e.t)

    def fn(self, f, args):
        self.depth += 1
        if self.depth > 20:
            raise Unsupported('recursion')
        env = {p[0]: a for p, a in zip(f.params, args)}
        try:
            self.st(f.body, env)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def st(self, s, env):
        k = s.k
        if k == 'block':
            for x in s.ss:
                self.st(x, env)
        elif k == 'null':
            pass
        elif k == 'decl':
            for i, n, t, e in s.vs:
                if e is not None and e.k == 'initlist':
                    env[i] = [self.ev(y, env) for y in e.es]
                else:
                    env[i] = self.ev(e, env) if e is not None else Poison('uninitialised ' + n)
        elif k == 'expr':
            self.ev(s.e, env)
        elif k == 'if':
            self.st(s.x if self.truth(self.ev(s.c, env)) else s.y, env)
        elif k == 'return':
            raise Ret(self.ev(s.e, env) if s.e is not None else None)
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'switch':
            v = self.ev(s.c, env)
            if not isinstance(v, int):
                raise Unsupported('switch on a symbolic value')
            self.switch(s.body, v, env)
        elif k == 'loop':
            self.loop(s, env)
        else:
            raise Unsupported('statement ' + k)

    def switch(self, b, v, env):
        flat = []

        def add(x):
            if x.k == 'case':
                flat.append(('case', self.ev(x.v, env)))
                add(x.s)
            elif x.k == 'default':
                flat.append(('default', None))
                add(x.s)
            else:
                flat.append(('s', x))
        for x in (b.ss if b.k == 'block' else [b]):
            add(x)
        at = [i for i, (k, w) in enumerate(flat) if k == 'case' and w == v] or [i for i, (k, w) in enumerate(flat) if k == 'default']
        if not at:
            return
        try:
            for k, x in flat[at[0]:]:
                if k == 's':
                    self.st(x, env)
        except Brk:
            pass

    def concrete(self, s, env):
        """a loop whose condition is concrete (no dependence on N): executed"""
        for _ in range(400):
            c = self.ev(s.c, env) if not s.do or _ else 1
            if not isinstance(c, int) and c not in (sp.true, sp.false):
                raise Unsupported('loop condition')
            if not self.truth(c):
                return
            try:
                self.st(s.body, env)
            except Cont:
                pass
            except Brk:
                return
            if s.inc is not None:
                self.ev(s.inc, env)
        raise Unsupported('loop bound')

    def loop(self, s, env):
        if self.iter is not None:
            return self.concrete(s, env)
        probe = dict(env)
        try:
            c = self.ev(s.c, probe)
        except Unsupported:
            c = None
        if c is not None and (isinstance(c, int) or c in (sp.true, sp.false)) and self.pure(s):
            return self.concrete(s, env)
        if s.do:
            raise Unsupported('do loop over the array')
        # pass 1: which variables move, and by how much
        mod = self.assigned(s)
        start = {v: env[v] for v in mod if v in env}
        cells0 = dict(self.cells)
        wrote0 = getattr(self, 'wrote', set())
        step = {}
        for p in (1, 2):
            e2 = dict(env)
            sym = {}
            for v, x in start.items():
                if isinstance(x, Ptr):
                    e2[v] = Ptr(x.arr, sp.expand(x.off + (step.get(v, 0) * K if p == 2 else sp.Symbol('h%d' % len(sym), integer=True))))
                    sym[v] = e2[v].off
                elif (isinstance(x, int) or isinstance(x, sp.Expr) and x.is_integer and not x.has(X)) and (p == 1 or v in step):
                    e2[v] = sp.expand(x + (step[v] * K if p == 2 else sp.Symbol('h%d' % len(sym), integer=True)))
                    sym[v] = e2[v]
                else:
                    e2[v] = Poison('variable changed by the loop')
            self.cells, self.wrote, self.iter = dict(cells0), set(), ()
            nc, self.probing = len(self.conds), p == 1
            try:
                c = self.ev(s.c, e2)
                try:
                    self.st(s.body, e2)
                except Cont:
                    pass
                if s.inc is not None:
                    self.ev(s.inc, e2)
            finally:
                it, self.iter = self.iter, None
            if p == 1:
                del self.conds[nc:]
                for v in sym:
                    w = e2[v].off if isinstance(e2[v], Ptr) else e2[v]
                    d = sp.expand(w - sym[v]) if isinstance(w, (int, sp.Expr)) else None
                    if d is not None and (isinstance(d, int) or d.is_Integer):
                        step[v] = int(d)
                    elif isinstance(start[v], Ptr):
                        raise Unsupported('moving pointer')
        if not it:
            raise Unsupported('loop without array access')
        # the condition holds exactly for k < count
        cnt = self.count(c)
        ix = sp.expand(it[0])
        if not ((ix == K or sp.expand(ix - (cnt - 1 - K)) == 0) and sp.expand(cnt - NN) == 0):
            lin = ix.is_polynomial(K) and sp.degree(ix, K) == 1
            if lin and cnt.free_symbols <= {NN}:
                for n in (1, 2, 3, 5, 8):
                    visited = sorted(int(ix.subs({K: j, NN: n})) for j in range(max(0, int(cnt.subs(NN, n)))))
                    if visited != list(range(n)):
                        raise Refuted(f'for {n} samples the loop visits the indices {visited}')
            raise Unsupported(f'iterations {cnt}, index {ix}')
        self.iters = cnt
        for v in mod:
            env[v] = e2.get(v, Poison('loop variable')) if v in step and step[v] == 0 else Poison('variable after the loop')
        self.wrote |= wrote0

    def pure(self, s):
        """the loop does not touch arrays other than local ones"""
        return 'index' not in kinds(s) and '*' not in kinds(s)

    def count(self, c):
        if isinstance(c, sp.core.relational.Relational):
            l, r = c.lhs, c.rhs
            d = sp.expand(l - r)
            if d.is_polynomial(K) and sp.degree(d, K) == 1:
                a = d.coeff(K, 1)
                z = sp.expand(-(d - a * K) / a)        # zero at k = z
                if isinstance(c, sp.StrictLessThan) and a == 1 or isinstance(c, sp.StrictGreaterThan) and a == -1:
                    return z
                if isinstance(c, sp.LessThan) and a == 1 or isinstance(c, sp.GreaterThan) and a == -1:
                    return z + 1
                if isinstance(c, sp.Ne) and a in (1, -1):
                    return z
        if isinstance(c, sp.Expr) and c.is_polynomial(K) and sp.degree(c, K) == 1:
            a = c.coeff(K, 1)
            return sp.expand(-(c - a * K) / a)
        raise Unsupported(f'loop condition {c}')

    def assigned(self, s):
        acc = set()

        def go(x):
            if isinstance(x, Node):
                if x.k == 'assign' and x.l.k == 'var':
                    acc.add(x.l.id)
                if x.k == 'un' and x.op in ('++', '--') and x.e.k == 'var':
                    acc.add(x.e.id)
                if x.k == 'un' and x.op == '&':
                    raise Unsupported('address of a variable')
                for v in x.a.values():
                    go(v)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
        go(s)
        return acc


def kinds(s):
    acc = set()

    def go(x):
        if isinstance(x, Node):
            acc.add(x.k)
            if x.k == 'un':
                acc.add(x.op)
            for v in x.a.values():
                go(v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(s)
    return acc


# ---------------------------------------------------------------- closed forms
def gauss_poly(n, cplx):
    """P with d^n f = P(x) f, f = exp(-x^2) or exp(-ix - x^2)"""
    x = X
    P = sp.Integer(1)
    q = -2 * x - (sp.I if cplx else 0)
    for _ in range(n):
        P = sp.expand(sp.diff(P, x) + P * q)
    return P


def energy(P):
    """integral over the line of |P(x)|^2 exp(-2x^2), exactly"""
    R = sp.Poly(sp.expand(sp.re(P) ** 2 + sp.im(P) ** 2), X)
    t = sp.Integer(0)
    for (m,), c in R.terms():
        if m % 2 == 0:
            t += c * sp.factorial2(m - 1) / sp.Integer(4) ** (m // 2)
    return t * sp.sqrt(sp.pi / 2)


def spec(fam, n=None, M=None):
    """real and imaginary part of the documented closed form"""
    x = X
    if fam == 'gaus':
        P = gauss_poly(n, False)
        return ((-1) ** (n // 2) * P * sp.exp(-x ** 2) / sp.sqrt(energy(P)),)
    if fam == 'cgau':
        P = gauss_poly(n, True)
        a, b = sp.re(P), sp.im(P)
        g = sp.exp(-x ** 2) / sp.sqrt(energy(P))
        c, s = sp.cos(x), sp.sin(x)
        return ((a * c + b * s) * g, (b * c - a * s) * g)        # P * (cos x - i sin x)
    if fam == 'mexh':
        return (2 / (sp.sqrt(3) * sp.pi ** sp.Rational(1, 4)) * (1 - x ** 2) * sp.exp(-x ** 2 / 2),)
    if fam == 'morl':
        return (sp.exp(-x ** 2 / 2) * sp.cos(5 * x),)
    w = 2 * sp.pi * FC * x
    if fam == 'cmor':
        g = sp.exp(-x ** 2 / FB) / sp.sqrt(sp.pi * FB)
    elif fam == 'shan':
        g = sp.sqrt(FB) * sp.sin(sp.pi * FB * x) / (sp.pi * FB * x)
    else:
        g = sp.sqrt(FB) * (sp.sin(sp.pi * FB * x / M) / (sp.pi * FB * x / M)) ** M
    return (g * sp.cos(w), g * sp.sin(w))


PTS = [sp.Rational(p, 7) for p in (-31, -25, -19, -13, -9, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8, 11, 16, 23, 30, 37)]
PAR = [(sp.Rational(3, 2), sp.Integer(1)), (sp.Rational(1, 2), sp.Rational(3, 4)), (sp.Integer(3), sp.Rational(3, 10)), (sp.Integer(1), sp.Integer(2))]


def decide(got, want, zero, conds):
    """'proved' | 'undecided' | raises Refuted with a point"""
    if not isinstance(got, sp.Expr):
        got = sp.sympify(got)
    d = got - want
    ok = d == 0 or sp.expand(d) == 0
    if not ok:
        ok = sp.simplify(sp.powsimp(sp.expand(sp.powdenest(d, force=True)))) == 0
    if ok:
        return 'proved'
    big = None
    for b, c in (PAR if d.has(FB) or d.has(FC) else PAR[:1]):
        for p in (PTS if not zero else [sp.Integer(0)]):
            sub = {X: p, FB: b, FC: c}
            if any(bool(q.subs(sub)) != v for q, v in conds):
                continue
            g, w = sp.N(got.subs(sub), 40), sp.N(want.subs(sub), 40)
            if not g.is_number or not g.is_finite or abs(g - w) > sp.Float('1e-10') * max(1, abs(w)) or g.has(sp.I) and abs(sp.im(g)) > 1e-12:
                big = (float(p), float(b), float(c), str(g)[:20], str(w)[:20])
                break
        if big:
            break
    if big:
        raise Refuted(f'at x={big[0]} (B={big[1]}, C={big[2]}): {big[3]} instead of {big[4]}', big[:3])
    return 'undecided'


def run_fn(T, fam, n, M, deadline=None):
    """-> list of (obligation, status, detail, point)"""
    fns, _ = lib.tu('cwt.c')
    f = fns.get(f'{T}_{fam}')
    if not isinstance(f, Fn):
        return [('verified', 'undecided', str(f), None)]
    cplx = fam in ('cgau', 'shan', 'fbsp', 'cmor')
    outs = ['re', 'im'] if cplx else ['re']
    args = [Ptr('in')] + [Ptr(o) for o in outs] + [NN]
    if n is not None:
        args.append(n)
    if fam == 'fbsp':
        args.append(M)
    if fam in ('shan', 'fbsp', 'cmor'):
        args += [FB, FC]
    if len(args) != len(f.params):
        return [('verified', 'undecided', 'parameters changed', None)]
    res = []
    want = spec(fam, n, M)
    for zero in (False, True):
        ws = want if not zero else [sp.limit(w, X, 0) for w in want]
        where = 'at x = 0' if zero else 'at every x != 0'
        todo, done = [[]], 0
        while todo:
            dec = todo.pop()
            done += 1
            if done > 16:
                res.append((f'value {where}', 'undecided', 'too many paths', None))
                break
            ex = Ex(fns, sp.Integer(0) if zero else X, dec)
            ex.wrote = set()
            ex.iters = None
            try:
                ex.fn(f, list(args))
                if ex.iters is None:
                    raise Unsupported('no loop over the array')
                for c in range(len(dec), len(ex.conds)):
                    todo.append([v for _, v in ex.conds[:c]] + [not ex.conds[c][1]])
                bad = [o for o in outs if ex.cells.get(o) is None]
                feasible = all(bool(v) == bool(q) if q in (sp.true, sp.false) else True for q, v in ex.conds)
                if bad and not ex.conds:
                    res.append(('every sample of every output is written', 'failed', ', '.join(bad), (0.0 if zero else 0.5, 1.5, 1.0)))
                    continue
                if bad or not feasible:
                    raise Unsupported('conditional output')
                res.append(('each iteration touches one sample only and every sample is visited', 'proved', '', None))
                for o, w in zip(outs, ws):
                    s = decide(ex.cells[o], w, zero, ex.conds)
                    res.append((f'{"imaginary" if o == "im" else "real"} part is the closed form {where}', s, '' if s == 'proved' else str(ex.cells[o])[:300], None))
            except Refuted as r:
                res.append((f'value is the closed form {where}', 'failed', r.what, r.x if isinstance(r.x, tuple) else (0.0 if zero else 0.5, 1.5, 1.0)))
            except (Unsupported, Ret) as u:
                res.append((f'value {where}', 'undecided', str(u), None))
    return res


def name(fam, n, M, pt):
    b, c = (pt[1], pt[2]) if pt else (1.5, 1.0)
    if fam in ('gaus', 'cgau'):
        return f'{fam}{n}'
    if fam in ('shan', 'cmor'):
        return f'{fam}{b}-{c}'
    if fam == 'fbsp':
        return f'fbsp{M}-{b}-{c}'
    return fam


def tasks(tier='quick'):
    T = []
    jobs = [('gaus', n, None) for n in range(1, 9)] + [('cgau', n, None) for n in range(1, 9)] + [('mexh', None, None), ('morl', None, None), ('shan', None, None), ('cmor', None, None)] + \
           [('fbsp', None, M) for M in range(1, 7)]
    for fam, n, M in jobs:
        def run(deadline, fam=fam, n=n, M=M):
            obs = []
            for t in ('double', 'float'):
                for what, st, det, pt in run_fn(t, fam, n, M):
                    rp = []
                    if st == 'failed':
                        p = pt or (0.5, 1.5, 1.0)
                        rp = [dict(t='psi', w=name(fam, n, M, p), dt='f8' if t == 'double' else 'f4', level=3, length=3, b=[p[0] - 1, p[0] + 1]),
                              dict(t='psi', w=name(fam, n, M, p), dt='f8' if t == 'double' else 'f4', level=3, length=5, b=None)]
                    obs.append(lib.ob(f'{t}_{fam}' + (f', order {n}' if n else '') + (f', order {M}' if M else '') + ': ' + what, st, 'sympy (exact) on the clang AST', 0, det, rp))
            return obs
        T.append(lib.Task(f'{fam} {n or M or ""}', run, 3, [f'cwt.template.c: {fam}']))

    def lemmas(deadline):
        obs = []

        def o(nm, ok, d=''):
            obs.append(lib.ob('closed forms: ' + nm, 'proved' if ok else 'failed', 'sympy (exact)', 0, d))
        for n in range(1, 9):
            for cp, fam in ((False, 'gaus'), (True, 'cgau')):
                P, Q = gauss_poly(n, cp), gauss_poly(n - 1, cp)
                q = -2 * X - (sp.I if cp else 0)
                o(f'{fam}{n} is the derivative of a function vanishing at infinity (zero mean)', sp.expand(P - sp.diff(Q, X) - Q * q) == 0)
                sc = spec(fam, n)
                en = sp.expand(sum(sp.expand(c * sp.exp(X ** 2)) ** 2 for c in sc))
                en = sp.expand(sp.simplify(en.subs(sp.sin(X) ** 2, 1 - sp.cos(X) ** 2))) if cp else en
                R = sp.Poly(sp.expand(en), X)
                e = sum(c * sp.factorial2(m - 1) / sp.Integer(4) ** (m // 2) for (m,), c in R.terms() if m % 2 == 0) * sp.sqrt(sp.pi / 2)
                o(f'{fam}{n} has unit energy', sp.simplify(e - 1) == 0, str(e))
        m = spec('mexh')[0]
        o('mexh is a derivative of a function vanishing at infinity (zero mean)', sp.simplify(m - sp.diff(2 / (sp.sqrt(3) * sp.pi ** sp.Rational(1, 4)) * X * sp.exp(-X ** 2 / 2), X)) == 0)
        y = sp.Symbol('y', real=True)
        o('mexh has unit energy', sp.simplify(sp.integrate(m.subs(X, y) ** 2, (y, -sp.oo, sp.oo)) - 1) == 0)
        return obs
    T.append(lib.Task('closed forms', lemmas, 2, []))
    return T


if __name__ == '__main__':
    import time, collections, main
    t0 = time.time()
    obs = main.run_tasks(tasks(), time.time() + 280)
    print(len(obs), collections.Counter(o['status'] for o in obs), time.time() - t0)
    for o in obs:
        if o['status'] != 'proved':
            print(o['status'], o['name'], o['detail'][:300])
