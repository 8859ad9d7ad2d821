"""C11, Python layer: pad against the extension rules, axis by axis; numpy's own padding modes are trusted, the two callbacks and their loops are verified."""
from pylib import *
zi = V.zi
FN = ['pywt/_dwt.py: pad, pad.pad_smooth, pad.pad_antisymmetric']
NPMODE = dict(symmetric='symmetric', reflect='reflect', wrap='periodic', edge='constant', constant='zero')
I = z3.IntSort()
BLK = z3.Function('block', I, I, I)          # floor(t / n)
START = z3.Function('start', I, I, I)        # k * n


def block_facts(t, n, ks=()):
    """instances of: start(k) = k*n, block(t) is the k with start(k) <= t < start(k) + n (lemma below)"""
    e = V.CUR
    b = BLK(t, n)
    e.assume(z3.And(START(b, n) <= t, t < START(b, n) + n))
    for k in (z3.IntVal(0), z3.IntVal(-1), z3.IntVal(1)) + tuple(ks):
        k = z3.simplify(k)
        e.assume(START(k + 1, n) == START(k, n) + n)
        e.assume(START(-k, n) == -START(k, n))
        e.assume(z3.Implies(z3.And(START(k, n) <= t, t < START(k, n) + n), b == k))
    e.assume(START(z3.IntVal(0), n) == 0)
    e.assume(START(z3.IntVal(1), n) == n)


def ext1(mode, n, x, t):
    """value at position t of the extension of the line x of n >= 1 samples; the definition, C01's and C11's"""
    n = zi(n)
    inside = z3.And(t >= 0, t < n)
    if mode == 'zero':
        return z3.If(inside, x(t), z3.RealVal(0))
    if mode == 'constant':
        return x(z3.If(t < 0, 0, z3.If(t >= n, n - 1, t)))
    if mode == 'periodic':
        return x(z3.If(inside, t, t % n))
    if mode in ('symmetric', 'antisymmetric'):
        q = t % (2 * n)
        v = x(z3.If(inside, t, z3.If(q < n, q, 2 * n - 1 - q)))
        return v if mode == 'symmetric' else z3.If(BLK(t, n) % 2 == 0, v, -v)
    if mode in ('reflect', 'antireflect'):
        p = 2 * n - 2
        q = t % p
        v = x(z3.If(inside, t, z3.If(q < n, q, p - q)))
        if mode == 'reflect':
            return z3.If(n == 1, x(z3.IntVal(0)), v)
        per = BLK(t, p)
        jump = 2 * (x(n - 1) - x(z3.IntVal(0)))
        far = z3.If(q < n, x(q), 2 * x(n - 1) - x(p - q)) + z3.ToReal(per) * jump
        return z3.If(n == 1, x(z3.IntVal(0)), z3.If(inside, x(t), far))
    if mode == 'smooth':
        l, r = x(z3.IntVal(0)), x(n - 1)
        sl, sr = l - x(z3.IntVal(1)), r - x(n - 2)
        return z3.If(inside, x(t), z3.If(t < 0, z3.If(n == 1, l, l + z3.ToReal(-t) * sl), z3.If(n == 1, r, r + z3.ToReal(t - n + 1) * sr)))
    raise V.Unsupported('mode ' + mode)


def ext_small(mode, n, x, t):
    """the same extension at concrete n and t, as a sum of samples"""
    if mode == 'periodization':
        m = n + n % 2
        return x(min(t % m, n - 1))
    if mode == 'zero':
        return x(t) if 0 <= t < n else z3.RealVal(0)
    if mode == 'constant':
        return x(min(max(t, 0), n - 1))
    if mode == 'periodic':
        return x(t % n)
    if mode == 'smooth':
        if n == 1 or 0 <= t < n:
            return x(min(max(t, 0), n - 1))
        return x(0) - t * (x(0) - x(1)) if t < 0 else x(n - 1) + (t - n + 1) * (x(n - 1) - x(n - 2))
    if mode in ('symmetric', 'antisymmetric'):
        q = t % (2 * n)
        v = x(q if q < n else 2 * n - 1 - q)
        return -v if mode == 'antisymmetric' and (t // n) % 2 else v
    if n == 1:
        return x(0)
    p = 2 * n - 2
    q, k = t % p, t // p
    v = x(q if q < n else p - q)
    if mode == 'reflect':
        return v
    return (v if q < n else 2 * x(n - 1) - v) + 2 * k * (x(n - 1) - x(0))


def ext_axis(a, axis, b, r, mode):
    """a extended by b samples before and r after along axis"""
    n = a.shape[axis]
    el = a.elem()
    sh = list(a.shape)
    sh[axis] = n + b + r

    def val(idx):
        line = lambda t: el([t if k == axis else i for k, i in enumerate(idx)])
        return ext1(mode, n, line, idx[axis] - zi(b))
    return SArr.fresh(sh, a.dtype, val)


def extend(a, pw, mode):
    if mode == 'periodization':
        for k in range(a.ndim):
            a = ext_axis(a, k, 0, V.CUR.norm(zi(a.shape[k]) % 2), 'constant')
        mode = 'periodic'
    for k in range(a.ndim):
        a = ext_axis(a, k, pw[k][0], pw[k][1], mode)
    return a


class IArr:
    """small integer array of known shape with symbolic entries (pad widths)"""
    def __init__(self, v):
        self.v = v

    def min(self):
        return V.smin(*self.flat())

    def flat(self):
        return [self.v[i] for i in np.ndindex(self.v.shape)]

    def astype(self, dt, copy=True):
        if np.dtype(dt).kind != 'i':
            raise V.Unsupported('pad widths as ' + str(dt))
        return IArr(self.v.copy())

    def tolist(self):
        return self.v.tolist()

    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    size = property(lambda s: s.v.size)

    def __getattr__(self, n):
        raise V.Unsupported('attribute of the pad widths: ' + n)


def pick(v, i):
    r = z3.RealVal(v[-1]) if v else z3.RealVal(0)
    for k in range(len(v) - 1):
        r = z3.If(i == k, z3.RealVal(v[k]), r)
    return r


class PadNP(NPU):
    """numpy with np.pad: its named modes are the extensions of the same name (trusted); a callback must fill the margins of
    every line as the mode under test requires (checked here on a line of any length and content)"""
    mode = None
    inline = False

    def array(self, x, *a, **k):
        if not a and not k and not isinstance(x, SArr):
            def conv(y):
                return [conv(z) for z in y] if isinstance(y, (list, tuple)) else y
            def shape(y):
                if not isinstance(y, list): return ()
                s = {shape(z) for z in y}
                if len(s) != 1: raise V.stub_exc(ValueError, 'inhomogeneous')
                return (len(y),) + s.pop()
            y = conv(x)
            v = np.empty(shape(y), object)
            for i in np.ndindex(v.shape):
                z = y
                for j in i:
                    z = z[j]
                v[i] = z
            return IArr(v)
        return super().array(x, *a, **k)

    def round(self, x, *a):
        if isinstance(x, IArr) and not a:
            return IArr(x.v.copy())
        raise V.Unsupported('np.round')

    def broadcast_to(self, x, shape):
        if isinstance(x, IArr):
            return IArr(np.broadcast_to(x.v, tuple(int(s) for s in shape)))
        raise V.Unsupported('np.broadcast_to')

    def arange(self, *a, **k):
        if len(a) == 3 and a[2] == -1 and not isinstance(a[2], SInt) and not k and any(V.is_sym(x) for x in a):
            st, en = zi(a[0]), zi(a[1])
            n = V.CUR.norm(z3.If(st > en, st - en, 0))
            return SArr.fresh((n,), np.dtype(int), lambda idx: z3.ToReal(st - idx[0]))
        if not any(V.is_sym(x) for x in a) and not k:
            v = [int(x) for x in np.arange(*a)]
            return SArr.fresh((len(v),), np.dtype(int), lambda idx: pick(v, idx[0]))
        return super().arange(*a, **k)

    def pad(self, a, pw, mode='constant', **kw):
        e = V.CUR
        if not isinstance(a, SArr):
            raise V.Unsupported('np.pad of ' + type(a).__name__)
        pw = [pw] if a.ndim == 1 and not isinstance(pw[0], (list, tuple)) else pw
        pw = [tuple(p) for p in pw]
        if len(pw) != a.ndim or any(len(p) != 2 for p in pw):
            raise V.Unsupported('np.pad widths')
        for p in pw:
            for w in p:
                if bool(w < 0):
                    raise V.stub_exc(ValueError, 'negative width')
        for n in a.shape:
            if not e.valid(zi(n) >= 1):
                raise V.Unsupported('np.pad of an empty array')
        if callable(mode):
            if kw:
                raise V.Unsupported('np.pad options')
            if PadNP.inline:
                (n,), (b, r), el = a.shape, pw[0], a.elem()
                v = SArr.fresh((n + b + r,), a.dtype, lambda idx: z3.If(z3.And(idx[0] >= b, idx[0] < b + n), el([idx[0] - b]), z3.RealVal(0)))
                mode(v, (b, r), 0, {})
                return v
            for k in range(a.ndim):
                self.line(mode, a.shape[k], pw[k], k)
            for k in range(a.ndim):
                a = ext_axis(a, k, pw[k][0], pw[k][1], PadNP.mode)
            return a
        m = NPMODE.get(mode)
        if mode == 'constant' and kw.pop('constant_values', 0) != 0:
            raise V.Unsupported('constant_values')
        if mode == 'reflect' and kw.pop('reflect_type', 'even') == 'odd':
            m = 'antireflect'
        if m is None or kw:
            raise V.Unsupported(f'np.pad mode {mode} {kw}')
        for k in range(a.ndim):
            a = ext_axis(a, k, pw[k][0], pw[k][1], m)
        return a

    def line(self, f, n, pw, axis):
        """contract of a callback: margins of one line"""
        e = V.CUR
        b, r = pw
        G = z3.Function(e.fresh('line'), I, V.RealS)
        M = z3.Function(e.fresh('margin'), I, V.RealS)
        size = n + b + r
        v = SArr.fresh((size,), np.dtype('f8'), lambda idx: z3.If(z3.And(idx[0] >= zi(b), idx[0] < zi(b) + zi(n)), G(idx[0] - zi(b)), M(idx[0])))
        buf = v.buf
        k, res = e.call(f, v, V.SVec([b, r]) if False else (b, r), axis, {})
        e.ob('the callback of np.pad returns', k == 'ok', repr(res)[:200])
        if k == 'ok':
            i = z3.Int(e.fresh('i'))
            t = i - zi(b)
            block_facts(t, zi(n))
            e.require('the callback of np.pad fills both margins of a line as the mode requires and keeps the samples',
                      z3.Implies(z3.And(i >= 0, i < zi(size)), buf.elem([i]) == ext1(PadNP.mode, n, G, t)), f'mode {PadNP.mode}')


class Antisym:
    """loops of pad_antisymmetric: after each round the copies of the signal up to (down to) the edge carry the right sign"""
    def pick(self, lp, env, names):
        e = V.CUR
        side = 'right' if 'r_edge' in names else 'left' if 'l_edge' in names else None
        if side is None or not {'n'} <= set(names):
            raise V.Unsupported('loop of pad_antisymmetric does not fit its contract')
        vp, N = env['vp'], zi(env['seg_width'])
        S0 = vp.buf.elem
        base = zi(env['l_edge' if side == 'left' else 'r_edge'])
        l0 = base if side == 'left' else base + 1 - N
        size = zi(vp.shape[0])

        def content(edge):
            def el(idx):
                p = idx[0]
                neg = z3.If(BLK(p - l0, N) % 2 == 0, S0(idx), -S0(idx))
                return z3.If(z3.And(p > l0 + N - 1, p <= edge) if side == 'right' else z3.And(p < l0, p >= edge), neg, S0(idx))
            return el

        def inv(env):
            n, edge = zi(env['n']), zi(env['r_edge' if side == 'right' else 'l_edge'])
            p = z3.Int(e.fresh('p'))
            ks = (n, n - 1, -n, 1 - n)
            block_facts(p - l0, N, ks)
            e.assume(z3.Implies(n >= 1, START(n - 1, N) >= 0))
            e.assume(z3.Implies(n >= 1, START(n, N) >= N))
            pos = edge == l0 + START(n, N) - 1 if side == 'right' else edge == l0 - START(n - 1, N)
            return [('position of the edge', z3.And(n >= 1, pos, N >= 1, N == zi(env['seg_width']))),
                    ('signs of the copies', z3.Implies(z3.And(p >= 0, p < size), vp.buf.elem([p]) == content(edge)([p])))]

        def havoc(env):
            n = e.int(e.fresh('n'), 1)
            edge = SInt(z3.simplify(l0 + START(n.e, N) - 1 if side == 'right' else l0 - START(n.e - 1, N)))
            vp.buf.elem = content(edge.e)
            return {'n': n, ('r_edge' if side == 'right' else 'l_edge'): edge}

        def variant(env):
            edge = zi(env['r_edge' if side == 'right' else 'l_edge'])
            return size - edge if side == 'right' else edge
        lp.inv, lp.havoc, lp.variant = inv, havoc, variant


def mod():
    return V.load('pywt/_dwt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', np=PadNP()), loops={'pad_antisymmetric': Antisym()})


def lemma_blocks(deadline):
    """start(k) = k*n and block(t) = floor(t/n) satisfy the instances used"""
    import time
    t, n, k, b = z3.Ints('t n k b')
    res = []
    def prove(name, hyp, goal):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(n >= 1, *hyp)
        s.add(z3.Not(goal))
        t0 = time.time()
        r = s.check()
        res.append(lib.ob('blocks: ' + name, 'proved' if r == z3.unsat else 'undecided', 'z3', time.time() - t0, str(r)))
    prove('every position lies in its block', [b == t / n], z3.And(b * n <= t, t < b * n + n))
    prove('blocks do not overlap', [b * n <= t, t < b * n + n, k * n <= t, t < k * n + n], b == k)
    P, q, r, m, d = z3.Ints('P q r m d')
    dv = [P >= 1, m == q * P + r, r >= 0, r < P]
    prove('remainder is unique', dv + [b * P <= m, m < b * P + P], z3.And(b == q, m - b * P == r))
    prove('half blocks', [m == q * (2 * n) + r, r >= 0, r < 2 * n, b * n <= m, m < b * n + n], b == 2 * q + z3.If(r < n, 0, 1))
    prove('inside is block 0', dv + [m >= 0, m < P], q == 0)
    prove('next block', [], (k + 1) * n == k * n + n)
    prove('mirrored block', [], (-k) * n == -(k * n))
    prove('blocks after the first start at n or later', [k >= 1], z3.And(k * n >= n, (k - 1) * n >= 0))
    return res


def interior(mode):
    """a zero-extension transform of the padded signal reads, inside, what the transform of the signal reads under the mode"""
    def run(e):
        n = e.int('N', 2 if 'reflect' in mode else 1)
        b, r = e.int('b', 0), e.int('a', 0)
        x = e.input('x', (n,), 'f8')
        y = extend(x, [(b, r)], mode)
        el, ey = x.elem(), y.elem()
        t = z3.Int('t')
        m = V.CUR.norm(zi(n) + zi(n) % 2) if mode == 'periodization' else n
        line = (lambda u: el([z3.If(u < zi(n), u, zi(n) - 1)])) if mode == 'periodization' else (lambda u: el([u]))
        want = ext1('periodic' if mode == 'periodization' else mode, m, line, t)
        i = t + zi(b)
        block_facts(t, zi(m))
        e.require('zero extension of the padded signal is the extension of the signal inside',
                  z3.Implies(z3.And(i >= 0, i < zi(y.shape[0])), ext1('zero', y.shape[0], lambda u: ey([u]), i) == want), '')
        e.require('the signal itself is at the offset', z3.Implies(z3.And(t >= 0, t < zi(n)), ey([i]) == el([t])), '')
    return run


def lemma_same(deadline):
    """the extension used here is the one the kernels are proved against (vf/proof/ext.py)"""
    import time
    import ext
    n, m, q, r, b, c = z3.Ints('n m q r b c')
    x = z3.Function('x', I, V.RealS)
    res = []

    class E:
        assume = staticmethod(lambda f: hyp.append(f))
    for mode in ext.MODES:
        hyp = [n >= (2 if 'reflect' in mode else 1)]
        k = 'periodic' if mode == 'periodization' else mode
        P = ext.period(mode, n, c)
        if mode == 'periodization':
            hyp += [c == n % 2]
            mine = ext1('periodic', n + c, lambda u: x(z3.If(u < n, u, n - 1)), m)
        else:
            mine = ext1(mode, n, x, m)
        if P is None:
            goal = z3.And([z3.Implies(cnd, mine == v) for cnd, v in ext.window(mode, n, x, m)])
            smul = ext.VC.smul
            todo, seen = [goal], set()
            while todo:                              # meaning of the product symbol of the kernels' theory
                u = todo.pop()
                if u.get_id() not in seen:
                    seen.add(u.get_id())
                    todo += u.children()
                    if z3.is_app(u) and u.decl().eq(smul):
                        hyp.append(u == z3.ToReal(u.arg(0)) * u.arg(1))
        else:
            hyp += [m == q * P + r, r >= 0, r < P]
            # floor(m/P) and m mod P are q and r (uniqueness of the division, proved under 'blocks')
            hyp += [m % P == r]
            if mode == 'antisymmetric':
                hyp += [BLK(m, n) == 2 * q + z3.If(r < n, 0, 1)]
            if mode == 'antireflect':
                hyp += [BLK(m, P) == q]
            hyp += [z3.Implies(z3.And(m >= 0, m < n), q == 0)]
            goal = mine == ext.definition(mode, n, x, m, q, r, c)
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        t0 = time.time()
        v = s.check()
        s2 = z3.Solver()
        s2.set('timeout', 5000)
        s2.add(*hyp)
        if v == z3.unsat and s2.check() == z3.unsat:
            v = 'the hypotheses contradict each other'
        res.append(lib.ob(f'extension {mode}: the one the kernels are proved against', 'proved' if v == z3.unsat else 'undecided', 'z3', time.time() - t0, str(v)))
    return res


def tasks_C11(tier='quick'):
    T = [lib.Task('block lemma', lemma_blocks, 1), lib.Task('extension lemma', lemma_same, 2)]

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))
    MODES = sorted(S.MODE)

    def padt(mode, nd, form, dt='f8', neg=False):
        def run(e):
            ns = mod()
            PadNP.mode = mode
            x = e.input('x', sizes(e, nd, lo=1), dt)
            lo = None if neg else 0
            if form == 'scalar':
                w = e.int('w', lo)
                arg, pw = w, [(w, w)] * nd
            elif form == 'pair':
                p = (e.int('b', lo), e.int('a', lo))
                arg, pw = p, [p] * nd
            elif form == 'one':
                p = (e.int('b', lo), e.int('a', lo))
                arg, pw = [p], [p] * nd
            elif form == 'column':
                q = [e.int(f'w{k}', lo) for k in range(nd)]
                arg, pw = [[v] for v in q], [(v, v) for v in q]
            else:
                pw = [(e.int(f'b{k}', lo), e.int(f'a{k}', lo)) for k in range(nd)]
                arg = list(pw)
            k, r = e.call(ns['pad'], x, arg, mode)
            ws = [zi(v) for p in pw for v in p]
            if k == 'raise':
                e.require('refuses only negative widths', z3.Or([v < 0 for v in ws]), repr(r)[:200])
            else:
                e.require('negative widths are refused', z3.And([v >= 0 for v in ws]), '')
                want = extend(x, pw, mode)
                if want.dtype.kind == 'c' and r.dtype != want.dtype: pass
                e.require_same('the padded array is the extension of x, axis by axis', r, want)
                e.ob('result shares no memory with x', r.buf.origin == 'fresh' and r.buf.shares is None, '')
            e.ob('x is not written', not e.input_writes, str(e.input_writes))
        return run
    for m in MODES:
        for nd in (1, 2, 3):
            add(f'pad, mode {m}, rank {nd}', padt(m, nd, 'full'), cost=4 if 'anti' in m else 1)
        for form in ('scalar', 'pair', 'one', 'column'):
            add(f'pad, mode {m}, rank 2, widths given as {form}', padt(m, 2, form), cost=4 if 'anti' in m else 1)
        for dt in ('f4', 'c16', 'c8'):
            add(f'pad, mode {m}, {np.dtype(dt)}', padt(m, 1, 'full', dt))
        add(f'pad, mode {m}, widths of any sign', padt(m, 1, 'full', neg=True))
        add(f'interior, mode {m}', interior(m))

    def small(mode):
        """extents and widths concrete (all small combinations), contents symbolic: the loops run as written"""
        def run(e):
            e.bound_hit.add('extents 1 to 3, widths 0 to 8')
            PadNP.mode, PadNP.inline = mode, True
            try:
                for n in (1, 2, 3):
                    for b in (0, 1, 2, 3, 5, 8):
                        for a in (0, 1, 3, 4, 7):
                            ns = V.load('pywt/_dwt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', np=PadNP()))
                            x = e.input('x', (n,), 'f8')
                            k, r = e.call(ns['pad'], x, (b, a), mode)
                            rep = [dict(k='1', N=n, L=b, R=a, mode=mode, dtype='f8')]
                            ok = k == 'ok' and isinstance(r, SArr) and r.ndim == 1
                            if ok:
                                for t in range(-b, n + a):
                                    v, w = r.at([t + b]), ext_small(mode, n, lambda u: x.at([u]), t)
                                    if not e.valid(z3.simplify(v) == z3.simplify(w)):
                                        ok = False
                            e.ob('small signals and margins', ok, f'n={n} before={b} after={a} {r!r}'[:200], replay=[] if ok else rep)
            finally:
                PadNP.inline = False
        return run

    for m in ('smooth', 'antisymmetric'):
        add(f'pad, mode {m}, concrete extents', small(m), cost=2)

    def bad(e):
        ns = mod()
        x = e.input('x', sizes(e, 1, lo=1), 'f8')
        k, r = e.call(ns['pad'], x, (1, 1), 'nonsense')
        e.ob('an unknown mode is refused', k == 'raise' and isinstance(r, ValueError), repr(r)[:200])
    add('pad, unknown mode', bad)
    return T


if __name__ == '__main__':
    go(tasks_C11)
