"""Reference definitions (the specification functions), written independently of pywt.

Everything is plain O(N*F) arithmetic in float64/complex128 on small arrays.  With the
integer data and integer filter banks the harness uses, every operation is exact, so results
can be compared for equality.
"""
import numpy as np

MODES = ['zero', 'constant', 'symmetric', 'periodic', 'smooth', 'periodization', 'reflect',
         'antisymmetric', 'antireflect']


def ext(x, m, mode):
    """value at position m (any integer) of the unbounded extension of x"""
    N = len(x)
    if 0 <= m < N:
        return x[m]
    if mode == 'zero':
        return x[0] * 0
    if mode == 'constant':
        return x[0] if m < 0 else x[N - 1]
    if mode == 'periodic':
        return x[m % N]
    if mode == 'periodization':
        P = N + (N % 2)
        return x[min(m % P, N - 1)]
    if mode in ('symmetric', 'antisymmetric'):
        q, r = divmod(m, N)
        v = x[r] if q % 2 == 0 else x[N - 1 - r]
        return v if (mode == 'symmetric' or q % 2 == 0) else -v
    if mode == 'reflect':
        if N == 1:
            return x[0]
        r = m % (2 * N - 2)
        return x[r] if r < N else x[2 * N - 2 - r]
    if mode == 'antireflect':
        if N == 1:
            return x[0]
        q, r = divmod(m, N - 1)
        d = x[N - 1] - x[0]
        # each segment of N-1 steps climbs by d; odd segments are point reflections
        base = x[0] + q * d
        if q % 2 == 0:
            return base + (x[r] - x[0])
        return base + (x[N - 1] - x[N - 1 - r])
    if mode == 'smooth':
        if N == 1:
            return x[0]
        if m < 0:
            return x[0] + (-m) * (x[0] - x[1])
        return x[N - 1] + (m - N + 1) * (x[N - 1] - x[N - 2])
    raise ValueError(mode)


def ext_range(x, a, b, mode):
    return np.array([ext(x, m, mode) for m in range(a, b)], dtype=wide(x))


def wide(x):
    return np.complex128 if np.asarray(x).dtype.kind == 'c' else np.float64


def coeff_len(N, F, mode):
    return (N + 1) // 2 if mode == 'periodization' else (N + F - 1) // 2


def dwt1(x, f, mode):
    x = np.asarray(x)
    x = x.astype(wide(x))
    N, F = len(x), len(f)
    O = coeff_len(N, F, mode)
    f = np.asarray(f, dtype=float)
    c = F // 2 if mode == 'periodization' else 1
    e = ext_range(x, c - F, c + 2 * O, mode)       # e[t] = ext(t + c - F)
    out = np.zeros(O, x.dtype)
    for o in range(O):
        # sum_j f[j]*ext(c+2o-j);  index in e: F + 2o - j
        out[o] = np.dot(f, e[2 * o + 1: F + 2 * o + 1][::-1])
    return out


def idwt_len(n, F, mode):
    return 2 * n if mode == 'periodization' else 2 * n - F + 2


def idwt1(a, d, lo, hi, mode):
    n = len(a) if a is not None else len(d)
    F = len(lo)
    L = idwt_len(n, F, mode)
    src = a if a is not None else d
    dt = wide(src)
    if a is not None and d is not None and (wide(a) == np.complex128 or wide(d) == np.complex128):
        dt = np.complex128
    out = np.zeros(L, dt)
    for band, f in ((a, lo), (d, hi)):
        if band is None:
            continue
        if mode == 'periodization':
            for k in range(n):
                for t in range(F):
                    # band[k] contributes f[t] at position 2k + t - (F/2 - 1) mod 2n
                    out[(2 * k + t - (F // 2 - 1)) % L] += band[k] * f[t]
        else:
            full = np.zeros(2 * n + F, dt)
            for k in range(n):
                full[2 * k:2 * k + F] += band[k] * np.asarray(f, float)
            out += full[F - 2:F - 2 + L]
    return out


def upcoef_full(c, f):
    c = np.asarray(c)
    n, F = len(c), len(f)
    out = np.zeros(2 * n + F - 2, wide(c))
    for k in range(n):
        out[2 * k:2 * k + F] += c[k] * np.asarray(f, float)
    return out


def swt1(x, f, level):
    """one stationary step at 1-based level on approximation x"""
    x = np.asarray(x)
    x = x.astype(wide(x))
    N, F, s = len(x), len(f), 2 ** (level - 1)
    out = np.zeros(N, x.dtype)
    for i in range(N):
        for t in range(F):
            out[i] += f[t] * x[(i + s * (F // 2 - t)) % N]
    return out


def along(fn, x, axis):
    """apply 1-D fn on every line of x along axis"""
    x = np.asarray(x)
    y = np.moveaxis(x, axis, -1)
    lead = y.shape[:-1]
    if 0 in lead:
        probe = fn(np.zeros(y.shape[-1], y.dtype))
        return np.moveaxis(np.zeros(lead + probe.shape, probe.dtype), -1, axis)
    flat = y.reshape(-1, y.shape[-1]) if lead else y.reshape(1, -1)
    rows = [fn(np.array(r)) for r in flat]
    out = np.array(rows).reshape(lead + rows[0].shape)
    return np.moveaxis(out, -1, axis)
