"""Shared by the property modules p_*.py: tasks, template instances, replay cases, result records."""
import os, sys, time
from cast import load, Unsupported, shape, Fn, N as Node

REPO = os.environ.get('VF_REPO', '/repo')
CDIR = os.path.join(REPO, 'pywt', '_extensions', 'c')
TYPES = ['double', 'float', 'float_complex', 'double_complex']
NP = dict(double='f8', float='f4', float_complex='c8', double_complex='c16')
MAPT = [('_Complex float', 'T'), ('_Complex double', 'T'), ('double_complex', 'T'), ('float_complex', 'T'), ('double', 'T'), ('float', 'T')]
_tu = {}


def tu(name):
    """(functions, enum constants) of a C file of the current tree"""
    if name not in _tu:
        _tu[name] = load(os.path.join(CDIR, name), CDIR)
    return _tu[name]


def ob(name, status, backend, t=0.0, detail='', replay=()):
    return dict(name=name, status=status, backend=backend, time=round(t, 4), detail=detail, replay=list(replay))


class Task:
    """key: name shown when the task cannot be done; run(deadline) -> list of obligation records"""
    def __init__(self, key, run, cost=1, functions=()):
        self.key, self.run, self.cost, self.functions = key, run, cost, list(functions)


def model_ints(m, names):
    r = {}
    for d in (m.decls() if m is not None else []):
        if d.arity() == 0 and d.name() in names:
            try:
                r[d.name()] = m[d].as_long()
            except Exception:
                pass
    return r


def records(vcs, definite, replay=None, backend='z3 (own VC generator over the clang AST)'):
    """obligations of finished VCs; definite: a solver model is a counterexample (no inferred invariant involved)"""
    res, seen = [], {}
    for vc in vcs if isinstance(vcs, list) else [vcs]:
        for o in vc.obls:
            n = seen.get(o.name, 0)
            seen[o.name] = n + 1
            name = o.name + (f' #{n + 1}' if n else '')
            if o.status == 'proved':
                res.append(ob(name, 'proved', backend, o.time))
            else:
                # 'failed': the solver has a model but it may exist only because an inferred loop invariant is too weak;
                # a run in which the solver or the clock gave up decides nothing
                st = 'undecided' if o.status != 'sat' or vc.gaveup or o.kind == 'vacuity' else 'refuted' if definite else 'failed'
                res.append(ob(name, st, backend, o.time, o.status + ' ' + o.detail, replay(vc, o) if replay else ()))
    return res


def calls(fn, fns, acc=None):
    """functions of the same translation unit reachable from fn"""
    acc = {} if acc is None else acc
    if not isinstance(fn, Fn) or fn.name in acc:
        return acc
    acc[fn.name] = fn

    def go(x):
        if isinstance(x, Node):
            if x.k == 'fn' and isinstance(fns.get(x.name), Fn):
                calls(fns[x.name], fns, acc)
            for v in x.a.values():
                go(v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(fn.body)
    return acc


def group(fns, base, types=TYPES):
    """groups of types whose instances of `base` (with everything they call) differ only in the element type"""
    res = {}
    for T in types:
        f = fns.get(f'{T}_{base}')
        if not isinstance(f, Fn):
            key = ('missing', T, f)
        else:
            key = tuple(sorted(shape(g, MAPT) for g in calls(f, fns).values()))
        res.setdefault(key, []).append(T)
    return list(res.values())


ORDER = {'float': 0, 'double': 1}


def narrowing(fns, base, T):
    """places in the instance for T (and its callees) where a value loses precision or its imaginary part"""
    f = fns.get(f'{T}_{base}')
    if not isinstance(f, Fn):
        return ['no such function: ' + str(f)]
    real = T.split('_')[0]
    cplx = T.endswith('complex')
    bad = []

    def fl(t):
        t = (t or '').replace('_Complex', '').strip()
        return t if t in ORDER else None

    def go(x, where):
        if isinstance(x, Node):
            if x.k == 'cast' and x.a['ck'] in ('FloatingCast', 'FloatingComplexCast', 'FloatingComplexToReal', 'FloatingComplexToIntegralComplex',
                                              'FloatingToIntegral', 'IntegralToFloating', 'FloatingRealToComplex'):
                t = fl(x.t)
                if x.a['ck'] in ('FloatingComplexToReal', 'FloatingToIntegral', 'FloatingComplexToIntegralComplex'):
                    bad.append(f'{where}: {x.a["ck"]} at line {x.line}')
                elif t and ORDER[t] < ORDER[real]:
                    bad.append(f'{where}: conversion to {x.t} at line {x.line}')
            if x.k == 'decl':
                for _, nm, t, _e in x.vs:
                    b = fl(t.replace('*', ''))
                    if b and (ORDER[b] < ORDER[real]):
                        bad.append(f'{where}: variable {nm} of type {t} at line {x.line}')
            for v in x.a.values():
                go(v, where)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y, where)
    for n, g in calls(f, fns).items():
        go(g.body, n)
    return bad


def instance_task(cfile, bases, replay=None):
    def run(deadline):
        fns, _ = tu(cfile)
        res = []
        for b in bases:
            gs = group(fns, b)
            res.append(ob(f'{b}: instances compared, verified representatives: ' + ', '.join(g[0] for g in gs), 'proved', 'clang AST comparison'))
            for T in TYPES:
                bad = narrowing(fns, b, T)
                res.append(ob(f'{T}_{b}: no conversion loses precision or an imaginary part', 'failed' if bad else 'proved',
                              'clang AST type scan', 0, '; '.join(bad)[:500], replay(b, T) if bad and replay else ()))
        return res
    return Task('instances of ' + ', '.join(bases), run, 1)
