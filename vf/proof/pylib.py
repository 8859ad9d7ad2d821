"""Loading of the modules under proof and the common shape of their tasks."""
import itertools, numpy as np, z3
import lib, pyvc as V, pyspec as S
from pyvc import Engine, SArr, SInt


class NPU(V.NP):
    class lib:
        class NumpyVersion:
            def __init__(self, v):
                pass

            def __ge__(self, o):
                return True
    __version__ = '2'


def utils():
    return V.load('pywt/_utils.py', S.stubs('Wavelet', 'ContinuousWavelet', 'DiscreteContinuousWavelet', 'Modes', np=NPU(), inspect=None))


def U(*names):
    u = utils()
    return {n: u[n] for n in names}


def mod_dwt():
    return V.load('pywt/_dwt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', 'dwt_axis', 'dwt_single', 'idwt_axis', 'idwt_single',
                                          '_dwt_coeff_len', '_dwt_max_level', **U('_as_wavelet')))


def mod_multidim():
    return V.load('pywt/_multidim.py', S.stubs('dwt_axis', 'idwt_axis', '_check_dtype', **U('_modes_per_axis', '_wavelets_per_axis')))


def mod_multilevel():
    md = mod_multidim()
    return V.load('pywt/_multilevel.py', S.stubs('dwt', 'idwt', 'dwt_coeff_len', 'dwt_max_level', 'Modes', 'Wavelet', 'dwt2', 'dwtn', 'idwt2', 'idwtn',
                                                 _fix_coeffs=md['_fix_coeffs'], **U('_as_wavelet', '_modes_per_axis', '_wavelets_per_axis')))


def mod_swt():
    return V.load('pywt/_swt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', 'swt_max_level', '_swt', '_swt_axis', 'idwt_single', 'idwt2', 'idwtn', **U('_as_wavelet', '_wavelets_per_axis')))


def sizes(e, nd, pre='N', lo=0):
    return tuple(e.int(f'{pre}{k}', lo) for k in range(nd))


def sym_mode(e, name='mode'):
    return e.int(name, 0, S.MODE_MAX - 1)


def params(e, n, per):
    """(wavelet argument, mode argument)"""
    if per:
        return [S.Wavelet(f'w{j}') for j in range(n)], [sym_mode(e, f'm{j}') for j in range(n)]
    return S.Wavelet('w'), sym_mode(e)


TRUST = ['CPython executes the unchanged source text of the functions (imports bound to contracts)', 'contracts of numpy functions (vf/proof/pyvc.py, class NP)',
         'contracts of the compiled single-level transforms (vf/proof/pyspec.py), proved from the C source for 1-D lines under C01/C04/C07']


def task(key, run, functions=(), cost=1, timeout=4000, maxpaths=3000):
    def go(deadline):
        e = Engine(deadline=deadline, timeout=timeout, maxpaths=maxpaths)
        e.explore(run)
        r = e.records(key)
        for b in sorted(e.bound_hit):
            for o in r:
                o['bound'] = b
        return r
    return lib.Task(key, go, cost, functions)


def compare(e, r, s, what):
    """results of the function and of its contract agree (structure, extents, dtype, every element)"""
    if isinstance(s, SArr):
        return e.require_same(what, r, s)
    if isinstance(s, dict):
        ok = isinstance(r, dict) and set(r) == set(s)
        e.ob(what + ': keys', ok, f'{list(r) if isinstance(r, dict) else r!r} instead of {list(s)}'[:300])
        return ok and all([compare(e, r[k], s[k], what) for k in s])
    if isinstance(s, (list, tuple)):
        ok = isinstance(r, (list, tuple)) and len(r) == len(s)
        e.ob(what + ': structure', ok, f'{r!r} instead of {s!r}'[:300])
        return ok and all([compare(e, x, y, what) for x, y in zip(r, s)])
    if V.isint(s):
        if not V.isint(r):
            e.ob(what, False, f'{r!r} instead of {s!r}')
            return False
        return e.require(what, V.zi(r) == V.zi(s), f'{r!r} instead of {s!r}')
    ok = r is s or r == s
    e.ob(what, bool(ok), f'{r!r} instead of {s!r}'[:300])
    return ok


def meets(e, f, contract, args, kw=None, what='result equals the contract', frame=True, alias=False):
    """body f meets contract on these arguments"""
    kw = kw or {}
    k, r = e.call(f, *args, **kw)
    w0 = list(e.input_writes)
    k2, s = e.call(contract, *args, **kw)
    e.ob('raises exactly when the contract does', k == k2, f'{k} {r!r} / {k2} {s!r}'[:300])
    e.ob('arguments are not written', not w0, str(w0))
    if k == k2 == 'ok':
        compare(e, r, s, what)
        if frame:
            bad = [o for o in V.flat(r) if isinstance(o, SArr) and (o.buf.origin != 'fresh' or o.shares is not None and o.shares.origin != 'fresh')]
            e.ob('result shares no memory with the arguments', alias or not bad, 'shares memory')
    return k, r, s


def go(f):
    import time, collections, main
    t = time.time()
    ts = f()
    obs = main.run_tasks(ts, time.time() + 280)
    print(len(ts), len(obs), collections.Counter(o['status'] for o in obs), round(time.time() - t, 1))
    for st in ('failed', 'undecided'):
        for o in [o for o in obs if o['status'] == st][:12]:
            print(o['status'], o['name'], o['detail'][:400])


ASSUME = ['array elements are mathematical reals (complex arrays: the value as one opaque number); rounding is left to the bounded part',
          'extents are unbounded non-negative integers; no allocation fails',
          'rank, axes, keys and number of wavelets are enumerated (ranks 0 to 3), everything else is symbolic; the code is uniform in the rank but that is not proved']
BOUNDED = ['obligations whose record has a "bound": level loops with symbolic trip count unrolled to the bound']
