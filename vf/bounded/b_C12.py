import copy, itertools, pickle
import numpy as np
from . import core, ref
from .b_C08 import step, istep, Bad
MODES = ref.MODES


def cases(tier, rng):
    for i in range(9000 if tier == 'quick' else 80000):
        cls = ['WaveletPacket', 'WaveletPacket2D', 'WaveletPacketND'][i % 3]
        nd = rng.choice([1, 1, 2, 3]) if i % 3 == 0 else rng.choice([2, 2, 3]) if i % 3 == 1 else rng.choice([1, 2, 3])
        na = 1 if i % 3 == 0 else 2 if i % 3 == 1 else rng.randrange(1, nd + 1)
        axes = rng.sample(range(nd), na)
        shape = [rng.choice([1, 2, 3, 4]) for _ in range(nd)]
        for a in axes:
            shape[a] = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16] if nd < 3 else [2, 3, 4, 5])
        parts = ['a', 'd'] if i % 3 == 0 else ['a', 'h', 'v', 'd'] if i % 3 == 1 else [''.join(p) for p in itertools.product('ad', repeat=na)]
        maxl = rng.choice([1, 2, 2, 3])
        ops = []
        for _ in range(rng.randrange(1, 10)):
            path = [rng.choice(parts) for _ in range(rng.randrange(1, maxl + 1))]
            ops.append([rng.choice(['get', 'get', 'tuple', 'chain', 'set', 'set', 'setnode', 'del', 'level', 'leaf', 'rec', 'rec0', 'clone', 'walk']),
                        path, rng.randrange(100)])
        yield dict(cls=cls, shape=shape, axes=[a - nd if rng.random() < .3 else a for a in axes], parts=parts, maxl=maxl, ops=ops,
                   F=2 * rng.randrange(1, 4), mode=rng.choice(MODES), dtype=rng.choice(['f8', 'f8', 'c16', 'f4', 'c8']), seed=i,
                   pr=rng.random() < .4)


KEY2 = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'}


class N:
    def __init__(s, data):
        s.data, s.ch, s.shape = data, {}, None if data is None else data.shape


class Model:
    """what a tree holds, by definition"""

    def __init__(s, data, c, bank):
        s.c, s.b, s.n = c, bank, len(c['axes'])
        s.k = (lambda p: KEY2[p]) if c['cls'].endswith('2D') else (lambda p: p)
        s.root = N(data.astype(ref.wide(data)))

    def expand(s, n):
        if n.data is None:
            raise KeyError
        if len(n.ch) < len(s.c['parts']):
            r = step(n.data, [s.b] * s.n, [s.c['mode']] * s.n, s.c['axes'])
            for p in s.c['parts']:
                if p not in n.ch:
                    n.ch[p] = N(r[s.k(p)])

    def get(s, path):
        n = s.root
        for p in path:
            if p not in n.ch:
                s.expand(n)
            n = n.ch[p]
        return n

    def rec(s, n):
        if not n.ch:
            return n.data
        co = {}
        for p in s.c['parts']:
            if p in n.ch:
                co[s.k(p)] = s.rec(n.ch[p])
        have = [v for v in co.values() if v is not None]
        if not have:
            raise Bad
        if len({v.shape for v in have}) > 1:
            raise Bad
        for p in s.c['parts']:
            if co.get(s.k(p)) is None:
                co[s.k(p)] = np.zeros(have[0].shape)
        r = istep(co, [s.b] * s.n, [s.c['mode']] * s.n, s.c['axes'])
        if n.shape is not None:
            r = r[tuple(slice(k) for k in n.shape)]
        return r


def gray(level):
    o = ['a', 'd']
    for _ in range(level - 1):
        o = ['a' + p for p in o] + ['d' + p for p in o[::-1]]
    return o


def run(c):
    import pywt
    D = c['dtype']
    w, b = core.wav('db2' if c['pr'] else [c['F'], c['seed'] % 3])
    x = core.data(c['shape'], D, c['seed'], 2)
    ax = c['axes'][0] if c['cls'] == 'WaveletPacket' else tuple(c['axes'])
    kw = {'axis' if c['cls'] == 'WaveletPacket' else 'axes': ax}
    make = lambda d: getattr(pywt, c['cls'])(d, w, c['mode'], maxlevel=c['maxl'], **kw)
    wp = make(x.copy())
    M = Model(x, c, b)
    # exact as long as intermediate values stay small; otherwise compare with a tolerance
    tol = 1e-3 if D in ('f4', 'c8') else 1e-9
    assigned = deleted = False
    for op, path, r in c['ops']:
        what = f'{op} {path}'
        try:
            if op in ('get', 'tuple', 'chain'):
                try:
                    n = M.get(path)
                except KeyError:
                    continue
                if op == 'chain':
                    g = wp
                    for p in path:
                        g = g[p]
                else:
                    g = wp[tuple(path)] if op == 'tuple' else wp[''.join(path)]
                if g.path != ''.join(path) or g.level != len(path) or tuple(g.path_tuple) != tuple(path):
                    return f'{what}: node path {g.path} level {g.level}'
                if n.data is None:
                    if g.data is not None:
                        return f'{what}: data expected to be missing'
                    continue
                e = core.diff(g.data, n.data, tol, what, D)
                if e:
                    return e
            elif op in ('set', 'setnode'):
                try:
                    n = M.get(path)         # parents materialised first, so that shapes are known
                except KeyError:
                    continue
                wp[''.join(path)]
                new = core.data((n.data if n.data is not None else np.zeros(3)).shape, D, r, 2)
                if n.data is None:
                    continue
                if op == 'set':
                    wp[''.join(path)] = new
                else:
                    other = make(x)[''.join(path)]
                    other.data = new
                    wp[''.join(path)] = other
                n.data = new.astype(ref.wide(new))
                assigned = True
            elif op == 'del':
                try:
                    M.get(path[:-1])
                    n = M.get(path)
                except KeyError:
                    continue
                del wp[''.join(path)]
                del M.get(path[:-1]).ch[path[-1]]
                deleted = True
            elif op == 'level':
                L = len(path)
                allp = [''.join(p) for p in itertools.product(c['parts'], repeat=L)]
                got = wp.get_level(L)
                if [g.path for g in got] != allp:
                    return f'{what}: {[g.path for g in got]}'
                for g in got:
                    q = [g.path[k:k + wp.PART_LEN] for k in range(0, len(g.path), wp.PART_LEN)]
                    e = core.diff(g.data, M.get(q).data, tol, f'level node {g.path}', D)
                    if e:
                        return e
                if c['cls'] == 'WaveletPacket':
                    if [g.path for g in wp.get_level(L, 'freq')] != gray(L):
                        return f'{what}: frequency order'
                elif c['cls'] == 'WaveletPacket2D':
                    fr = wp.get_level(L, 'freq')
                    gl = [p.replace('a', 'l').replace('d', 'h') for p in gray(L)]
                    exp = {'a': 'll', 'h': 'hl', 'v': 'lh', 'd': 'hh'}
                    seen = [[(''.join(exp[p][0] for p in g.path), ''.join(exp[p][1] for p in g.path)) for g in row] for row in fr]
                    if seen != [[(a, q) for q in gl] for a in gl]:
                        return f'{what}: frequency order {seen}'
            elif op == 'leaf':
                got = [g.path for g in wp.get_leaf_nodes()]
                want = []

                def coll(n, p, lv):
                    if not n.ch or (lv == c['maxl'] and n.data is not None):
                        want.append(p)
                        return
                    for q in c['parts']:
                        if q in n.ch:
                            coll(n.ch[q], p + q, lv + 1)
                coll(M.root, '', 0)
                if got != want:
                    return f'{what}: {got}, expected {want}'
            elif op == 'walk':
                seen, want = [], []
                wp.walk(lambda n: seen.append(n.path) or True, decompose=False)

                def pre(n, p):
                    want.append(p)
                    for q in c['parts']:
                        if q in n.ch:
                            pre(n.ch[q], p + q)
                pre(M.root, '')
                if seen != want:
                    return f'{what}: visited {seen}, expected {want}'
            elif op in ('rec', 'rec0'):
                try:
                    want = M.rec(M.root)
                except (Bad, ValueError):
                    continue
                got = wp.reconstruct(update=op == 'rec')
                e = core.diff(got, want, tol, what, D)
                if e:
                    return e
                if c['pr'] and not assigned and not deleted:
                    e = core.diff(got, x, tol * 10, what + ' vs data')
                    if e:
                        return e
                if op == 'rec':
                    M.root.data = want
                    assigned = True
                    e = core.diff(wp.data, want, tol, 'updated root', D)
                else:
                    e = core.diff(wp.data, M.root.data, tol, 'root data after update=False')
                if e:
                    return e
            elif op == 'clone':
                for q in (pickle.loads(pickle.dumps(wp)), copy.copy(wp), copy.deepcopy(wp)) if c['cls'] != 'WaveletPacketND' else ():
                    if q.maxlevel != wp.maxlevel or q.axes != wp.axes or q.mode != wp.mode:
                        return f'{what}: parameters differ'
                    sub = M.__class__(np.asarray(M.root.data), c, b)
                    e = core.diff(q[''.join(path)].data, sub.get(path).data, tol, what + ' node of the copy', D)
                    if e:
                        return e
        except Bad:
            return None     # a step of the definition does not exist (one-sample line in a reflecting mode)
        except ValueError:
            if c['mode'].endswith('reflect') or c['mode'].endswith('reflect'):
                return None
            raise
    return None
