from pylib import *
zi = V.zi
FN = ['pywt/_wavelet_packets.py: every class and function except __str__']
PARTS = {'1': ['a', 'd'], '2': ['a', 'h', 'v', 'd']}
KEY2 = dict(a='aa', h='da', v='ad', d='dd')
CLS = {'1': 'WaveletPacket', '2': 'WaveletPacket2D', 'N': 'WaveletPacketND'}


def mod():
    return V.load('pywt/_wavelet_packets.py', S.stubs('dwt', 'idwt', 'dwt2', 'idwt2', 'dwtn', 'idwtn', 'dwt_max_level', 'Wavelet', '_check_dtype'))


def parts(kind, axes):
    return PARTS[kind] if kind != 'N' else [''.join(p) for p in itertools.product('ad', repeat=len(axes))]


def dec(kind, x, w, m, axes):
    """specification: the children of a node"""
    if kind == '1':
        return dict(zip('ad', S.dwt(x, w, m, axes)))
    c = S.dwtn(x, w, m, axes)
    return {p: c[KEY2[p] if kind == '2' else p] for p in parts(kind, axes)}


def rec(kind, c, w, m, axes):
    """specification: a node from its children; None is zeros"""
    if kind == '1':
        return S.idwt(c.get('a'), c.get('d'), w, m, axes)
    return S.idwtn({KEY2[p] if kind == '2' else p: v for p, v in c.items() if v is not None}, w, m, axes)


def crop(a, shape):
    return a[tuple(slice(0, n) for n in shape)]


def split(path, n):
    return [path[i:i + n] for i in range(0, len(path), n)]


class Tree:
    """specification: node data by path, None for deleted"""
    def __init__(self, kind, x, w, m, axes):
        self.a = (w, m, axes)
        self.kind, self.x = kind, x
        self.n = 1 if kind != 'N' else len(axes)
        self.memo = {'': x}

    def at(self, path):
        if path not in self.memo:
            up, p = path[:-self.n], path[-self.n:]
            for q, v in dec(self.kind, self.at(up), *self.a).items():
                self.memo[up + q] = v
        return self.memo[path]

    def rebuild(self, path, known):
        """reconstruction of node `path` from the nodes in `known` (path -> array; the deepest ones)"""
        if path in known:
            return known[path]
        c = {}
        for p in parts(self.kind, self.a[2]):
            if any(k.startswith(path + p) for k in known):
                c[p] = self.rebuild(path + p, known)
        r = rec(self.kind, c, *self.a)
        return crop(r, self.at(path).shape)


def graycode(level, x, y):
    """frequency order: bit strings in Gray-code order"""
    return [''.join(y if (k ^ (k >> 1)) >> (level - 1 - b) & 1 else x for b in range(level)) for k in range(1 << level)]


def tasks_C12(tier='quick'):
    T = []

    def add(key, run, **k):
        T.append(task(key, run, FN, **k))

    def setup(e, kind, nd, axes, maxlevel, dt='f8'):
        x = e.input('x', sizes(e, nd, lo=1), dt)
        w = S.Wavelet('w')
        m = sym_mode(e)
        tax = [axes] if kind == '1' else list(axes) if axes is not None else list(range(nd))
        for a in tax:
            e.assume(z3.Implies(z3.Or(zi(m) == S.REFLECT, zi(m) == S.ANTIREFLECT), z3.And(zi(x.shape[a]) >= 8, zi(x.shape[a]) >= 8)))
        kw = dict(axis=axes) if kind == '1' else dict(axes=axes)
        k, wp = e.call(mod()[CLS[kind]], x, w, m, maxlevel=maxlevel, **kw)
        e.ob('the tree can be made', k == 'ok', repr(wp)[:200])
        if k != 'ok':
            raise V.Prune()
        spec_axes = axes % nd if kind == '1' else tuple(axes) if axes is not None else tuple(range(nd))
        return x, w, m, wp, Tree(kind, x, w, m, spec_axes), spec_axes

    def deeper(e, t, path, m):
        """reflecting modes stay admissible down to the given path"""

    def paths_of(kind, axes, n):
        return [''.join(p) for p in itertools.product(parts(kind, axes), repeat=n)]

    def frame(e):
        e.ob('arguments are not written', not e.input_writes, str(e.input_writes))

    def reach(kind, nd, axes, path, how):
        def run(e):
            n = 1 if kind != 'N' else nd if axes is None else len(axes)
            ps = split(path, n)
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, max(1, len(ps)))
            if how == 'string':
                f = lambda: wp[path]
            elif how == 'tuple':
                f = lambda: wp[tuple(ps)]
            elif how == 'chained':
                def f():
                    r = wp
                    for p in ps:
                        r = r[p]
                    return r
            elif how == 'again':
                def f():
                    wp[path]
                    wp[ps[0]]
                    return wp[path]
            k, nd_ = e.call(f)
            k2, want = e.call(lambda: t.at(path))
            e.ob('the node is reached exactly when its transform is admissible', k == k2, f'{k} {nd_!r} {k2} {want!r}'[:300])
            frame(e)
            if k == k2 == 'ok':
                e.require_same('node data is the transform along its path', nd_.data, want)
                e.ob('path and level of the node', nd_.path == path and nd_.level == len(ps) and (not ps or nd_.node_name == ps[-1]) and tuple(nd_.path_tuple) == tuple(ps), f'{nd_.path} {nd_.level}')
                e.ob('root data unchanged', wp.data is x or e.same(wp.data, x), '')
        return run

    def toolong(kind, nd, axes, ml):
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, ml)
            p = parts(kind, ax)[0] * (ml + 1)
            k, r = e.call(lambda: wp[p])
            e.ob('a path longer than maxlevel is refused', k == 'raise' and isinstance(r, IndexError), f'{k} {r!r}'[:200])
            k, r = e.call(lambda: wp.get_level(ml + 1))
            e.ob('a level above maxlevel is refused', k == 'raise' and isinstance(r, ValueError), f'{k} {r!r}'[:200])
        return run

    def maxlev(kind, nd, axes):
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, None)
            tax = [ax] if kind == '1' else ax
            e.require('the default maxlevel is that of the shortest transformed axis', zi(wp.maxlevel) == zi(V.smin(*[S.dwt_max_level(x.shape[a], w) for a in tax]))
                      if len(tax) == 1 else z3.Or(*[zi(wp.maxlevel) == zi(S.dwt_max_level(x.shape[a], w)) for a in tax]))
        return run

    def levels(kind, nd, axes, lv, order):
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, lv + (1 if lv < 2 else 0))
            kw = {} if kind == 'N' else dict(order=order)
            k, r = e.call(wp.get_level, lv, **kw)
            k2, _ = e.call(lambda: [t.at(p) for p in paths_of(kind, ax, lv)])
            e.ob('refused exactly when the transform is', k == k2, f'{k} {r!r} {k2}'[:300])
            frame(e)
            if not k == k2 == 'ok':
                return
            if order == 'natural':
                want = paths_of(kind, ax, lv)
                got = [q.path for q in r]
                flat = list(r)
            elif kind == '1':
                want = graycode(lv, 'a', 'd')
                got, flat = [q.path for q in r], list(r)
            else:
                g = graycode(lv, 'l', 'h')
                nm = {('l', 'l'): 'a', ('h', 'l'): 'h', ('l', 'h'): 'v', ('h', 'h'): 'd'}
                want = [[''.join(nm[p, q] for p, q in zip(rp, cp)) for cp in g] for rp in g]
                got = [[q.path for q in row] for row in r]
                flat = [q for row in r for q in row]
            e.ob('every node of the level once, in the documented order', got == want, f'{got} {want}'[:300])
            for q in flat:
                e.require_same('node data is the transform along its path', q.data, t.at(q.path))
        return run

    def unmodified(kind, nd, axes, how, update, dt='f8'):
        def run(e):
            n = 1 if kind != 'N' else nd if axes is None else len(axes)
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, 2, dt)
            ps = parts(kind, ax)

            def f():
                if how == 'level 1':
                    wp.get_level(1)
                elif how == 'level 2':
                    wp.get_level(2)
                elif how == 'partly':
                    wp[ps[0] + ps[-1]]
                    wp[ps[-1]]
                return wp.reconstruct(update)
            k, r = e.call(f)
            k2, want = e.call(lambda: [t.at(p) for p in paths_of(kind, ax, 2)])
            e.ob('reconstruction succeeds when the decomposition is admissible', k == 'ok' or k2 == 'raise', f'{k} {r!r}'[:300])
            frame(e)
            if k == 'ok' and k2 == 'ok':
                e.require_same('reconstruction of unmodified nodes is the data', r, SArr.fresh(x.shape, S.rule(x.dtype) if how != 'none' else x.dtype, x.elem()))
                e.require_same('root data after reconstruction', wp.data, SArr.fresh(x.shape, wp.data.dtype, x.elem()))
        return run

    def modified(kind, nd, axes, lv, change, update=True):
        """change: 'set i' assigns leaf i, 'del i' deletes it"""
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, lv)
            ps = paths_of(kind, ax, lv)
            k2, want = e.call(lambda: [t.at(p) for p in ps])
            if k2 == 'raise':
                return
            known = {p: t.at(p) for p in ps}
            new = {}

            def f():
                wp.get_level(lv)
                for c, i in change:
                    p = ps[i]
                    if c == 'set':
                        v = known[p]
                        new[p] = known[p] = e.input('new' + p, v.shape, 'f8')
                        wp[p] = new[p]
                    elif c == 'del':
                        del wp[p]
                        known.pop(p)
                    elif c == 'delup':
                        n_ = len(p) // lv
                        del wp[p[:-n_]]
                        for q in [q for q in known if q.startswith(p[:-n_])]:
                            known.pop(q)
                return wp.reconstruct(update)
            w0 = len(e.input_writes)
            k, r = e.call(f)
            k3, want = e.call(lambda: t.rebuild('', known))
            e.ob('reconstruction succeeds', k == k3 == 'ok', f'{k} {r!r} {k3} {want!r}'[:300])
            e.ob('assigned arrays are not written', not e.input_writes, str(e.input_writes))
            if k == k3 == 'ok':
                e.require_same('reconstruction uses exactly the current leaves, deleted ones as zeros', r, want)
                e.require_same('root data is updated exactly on request', wp.data, want if update else SArr.fresh(x.shape, x.dtype, x.elem()), dtype=update)
                for p, v in new.items():
                    e.ob('an assigned leaf keeps its data', e.same(wp[p].data, v), '')
        return run

    def build(kind, nd, axes, lv):
        """a new tree without data, filled from the leaves of another"""
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, lv)
            ps = paths_of(kind, ax, lv)
            k2, want = e.call(lambda: [t.at(p) for p in ps])
            if k2 == 'raise':
                return
            kw = dict(axis=ax) if kind == '1' else dict(axes=ax)
            known = {p: t.at(p) for p in ps}

            def f():
                z = mod()[CLS[kind]](None, w, m, maxlevel=lv, **kw)
                for p in ps:
                    z[p] = known[p]
                return z.reconstruct()
            k, r = e.call(f)
            e.ob('reconstruction succeeds or the odd extents do not fit', k == 'ok' or lv > 1 and isinstance(r, ValueError), repr(r)[:200])
            if k == 'ok':
                idx = [z3.Int(e.fresh('t')) for _ in x.shape]
                e.require('reconstruction from assigned leaves starts with the data', z3.Implies(z3.And(e.inb(idx, x.shape)), z3.And(
                    r.elem()(idx) == x.elem()(idx), *[zi(p) >= zi(q) for p, q in zip(r.shape, x.shape)])))
        return run

    def leaf(kind, nd, axes):
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, 2)
            ps = parts(kind, ax)
            k2, _ = e.call(lambda: [t.at(p) for p in paths_of(kind, ax, 2)])
            if k2 == 'raise':
                return

            def f():
                wp[ps[-1] + ps[0]]
                seen = []
                wp.walk_depth(lambda q: seen.append(q.path), decompose=False)
                return [q.path for q in wp.get_leaf_nodes()], seen, [q.path for q in wp.get_leaf_nodes(decompose=True)]
            k, r = e.call(f)
            e.ob('leaves can be listed', k == 'ok', repr(r)[:200])
            if k == 'ok':
                now = ps[:-1] + [ps[-1] + q for q in ps]
                e.ob('leaves of a partly decomposed tree, once each, in order', r[0] == now, str(r[0]))
                e.ob('walk_depth visits children first, every node once', r[1] == ps[:-1] + [ps[-1] + q for q in ps] + [ps[-1], ''], str(r[1]))
                e.ob('leaves after full decomposition are the deepest level', r[2] == paths_of(kind, ax, 2), str(r[2]))
        return run

    def pickled(kind, nd, axes):
        def run(e):
            x, w, m, wp, t, ax = setup(e, kind, nd, axes, 2)
            if not hasattr(type(wp), '__reduce__') or '__reduce__' not in type(wp).__dict__:
                raise V.Unsupported('default pickling')
            k, r = e.call(lambda: wp.__reduce__())
            e.ob('reduces to its constructor', k == 'ok' and isinstance(r, tuple) and len(r) == 2 and r[0] is type(wp), repr(r)[:200])
            if k != 'ok':
                return
            k, z = e.call(lambda: r[0](*r[1]))
            e.ob('and can be made again', k == 'ok', repr(z)[:200])
            if k == 'ok':
                e.ob('with the same parameters', z.wavelet == w and e.par_eq(z.mode, m) and e.par_eq(z.maxlevel, wp.maxlevel) and e.par_eq(z.axes, wp.axes) and e.same(z.data, x), '')
        return run

    def gray(e):
        f = mod()['get_graycode_order']
        for lv in range(1, 13):
            k, r = e.call(f, lv)
            e.ob(f'frequency order of level {lv} is the Gray code', k == 'ok' and list(r) == graycode(lv, 'a', 'd'), '')
            k, r = e.call(f, lv, x='l', y='h')
            e.ob(f'frequency order of level {lv} is the Gray code, other letters', k == 'ok' and list(r) == graycode(lv, 'l', 'h'), '')
        e.bound_hit.add('levels 1 to 12 enumerated')
    add('get_graycode_order', gray)
    cfg = [('1', 1, -1), ('1', 2, 0), ('1', 2, -1), ('1', 3, -2), ('2', 2, (-2, -1)), ('2', 2, (1, 0)), ('2', 3, (0, 2)), ('N', 1, None), ('N', 2, None), ('N', 2, (1,)), ('N', 2, (1, 0)), ('N', 3, (2, 0))]
    for kind, nd, axes in cfg:
        n = parts(kind, tuple(range(nd)) if axes is None else axes)
        lab = f'{CLS[kind]}, rank {nd}, axes {axes}'
        pl = n + [n[0] + n[-1], n[-1] + n[0]] + ([n[-1] * 3, n[0] + n[-1] * 2] if kind == '1' and nd == 1 else [])
        for p in [''] + pl:
            for how in ('string', 'tuple', 'chained', 'again') if p else ('string',):
                if how != 'string' and len(p) <= len(n[0]):
                    continue
                add(f'{lab}, node {p!r} by {how}', reach(kind, nd, axes, p, how))
        add(f'{lab}, too long', toolong(kind, nd, axes, 1))
        add(f'{lab}, default maxlevel', maxlev(kind, nd, axes))
        for lv in (1, 2, 3) if kind == '1' and nd == 1 or kind == '2' and axes == (-2, -1) else (1, 2):
            if kind != 'N':
                add(f'{lab}, level {lv} freq', levels(kind, nd, axes, lv, 'freq'))
            add(f'{lab}, level {lv} natural', levels(kind, nd, axes, lv, 'natural'))
        for how in ('none', 'level 1', 'level 2', 'partly'):
            for up in (True, False):
                add(f'{lab}, reconstruct after {how}, update {up}', unmodified(kind, nd, axes, how, up), cost=3)
        for dt in ('f4', 'i4'):
            add(f'{lab}, reconstruct {dt}', unmodified(kind, nd, axes, 'level 1', True, dt))
        k = len(n)
        for lv, ch in ((1, (('set', 0),)), (1, (('set', k - 1),)), (1, (('del', 0),)), (1, (('del', k - 1),)), (2, (('set', 1),)), (2, (('set', k), ('set', 0))), (2, (('del', k * k - 1),)),
                       (2, (('delup', 0),)), (2, (('delup', k * k - 1), ('set', 0))), (2, (('set', 1), ('del', 0)))):
            for up in (True, False) if lv == 1 else (True,):
                add(f'{lab}, level {lv} leaves {ch}, update {up}', modified(kind, nd, axes, lv, ch, up), cost=4)
        add(f'{lab}, new tree from leaves', build(kind, nd, axes, 1), cost=3)
        add(f'{lab}, leaves', leaf(kind, nd, axes), cost=2)
        if kind != 'N':
            add(f'{lab}, pickled', pickled(kind, nd, axes))
    return T


if __name__ == '__main__':
    go(tasks_C12)
