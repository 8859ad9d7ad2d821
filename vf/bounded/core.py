"""Shared pieces of the concrete (bounded / replay) harness.  Runs in /opt/venv/bin/python."""
import os, sys, random, importlib
import numpy as np


def use_build(dest):
    """import pywt from the scratch build, never from the editable install"""
    sys.meta_path[:] = [f for f in sys.meta_path if 'esonpy' not in type(f).__name__]
    sys.path.insert(0, dest)
    import pywt
    assert os.path.realpath(pywt.__file__).startswith(os.path.realpath(dest)), pywt.__file__
    return pywt


DT = {'f4': np.float32, 'f8': np.float64, 'c8': np.complex64, 'c16': np.complex128}
_W = {}


def int_bank(F, seed):
    r = random.Random(f'{F}-{seed}')
    return [[float(r.choice([-3, -2, -1, 1, 2, 3])) for _ in range(F)] for _ in range(4)]


def int_wavelet(F, seed=0):
    import pywt
    k = (F, seed)
    if k not in _W:
        b = int_bank(F, seed)
        _W[k] = (pywt.Wavelet(f'ib{F}_{seed}', filter_bank=b), b)
    return _W[k]


_NW = {}


def named(name):
    import pywt
    if name not in _NW:
        w = pywt.Wavelet(name)
        _NW[name] = (w, [list(map(float, f)) for f in w.filter_bank])
    return _NW[name]


def wav(spec):
    """spec: int F / [F, seed] -> integer bank; str -> built-in wavelet. returns (wavelet, bank)"""
    if isinstance(spec, str):
        return named(spec)
    if isinstance(spec, (list, tuple)):
        return int_wavelet(spec[0], spec[1])
    return int_wavelet(spec)


def is_exact(spec):
    return not isinstance(spec, str)


def data(shape, dtype, seed, lim=9):
    r = np.random.default_rng(abs(hash_(f'{shape}{dtype}{seed}')) % (1 << 32))
    x = r.integers(-lim, lim + 1, size=shape).astype(float)
    if dtype.startswith('c'):
        x = x + 1j * r.integers(-lim, lim + 1, size=shape)
    return x.astype(DT.get(dtype, dtype))


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def tol_of(dtype, exact=False, scale=1.0):
    if exact:
        return 0.0
    return (2e-4 if np.dtype(dtype) in (np.dtype('f4'), np.dtype('c8')) else 1e-10) * max(1.0, scale)


def diff(got, want, tol=0.0, what='', dtype=None):
    """None if equal (shape, dtype if given, values within tol), else a message"""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return f'{what}: shape {got.shape}, expected {want.shape}'
    if dtype is not None and got.dtype != np.dtype(dtype):
        return f'{what}: dtype {got.dtype}, expected {np.dtype(dtype)}'
    if got.size == 0:
        return None
    if not np.all(np.isfinite(got)) and np.all(np.isfinite(want)):
        return f'{what}: non-finite values {got.ravel()[:6]}, expected {want.ravel()[:6]}'
    e = np.abs(got.astype(np.complex128) - want.astype(np.complex128))
    lim = tol * (1.0 + float(np.max(np.abs(want)))) if tol else 0.0
    if not np.all(e <= lim):
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
        return f'{what}: at {tuple(int(k) for k in i)} got {got[i]!r}, expected {want[i]!r}'
    return None


def raises(fn, *exc):
    """returns None if fn raises an Exception (of one of exc), else a message"""
    try:
        r = fn()
    except exc or Exception:
        return None
    return f'no exception; returned {str(r)[:120]}'


ALL_BUILTIN = None


def builtin():
    import pywt
    return pywt.wavelist(kind='discrete')
