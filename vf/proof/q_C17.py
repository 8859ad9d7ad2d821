"""C17, Python layer: dtype of every result, and no conversion on the way loses precision or an imaginary part: the values equal those of the
same call on the same values in double complex (conversions to a narrower type are unknown functions here)."""
from pylib import *
zi = V.zi
D1 = ['f2', 'f4', 'f8', 'c8', 'c16', 'i1', 'u1', 'i4', 'u8', '?', '>f4', '>f8', '>c8', '>c16', '>i2', 'g', 'G']
D2 = ['f2', 'f4', 'f8', 'c8', 'c16', 'i4', '>f4', '>c16']
D3, D4 = ['f4', 'f8', 'c8', 'c16'], ['f2', 'i4', '>f4', '>c16']
FN = ['pywt/_dwt.py: dwt, idwt', 'pywt/_multidim.py: dwtn, idwtn, dwt2, idwt2, _fix_coeffs', 'pywt/_multilevel.py: wavedec, waverec, wavedec2, waverec2, wavedecn, waverecn, fswavedecn, fswaverecn',
      'pywt/_swt.py: swt, iswt, swt2, iswt2, swtn, iswtn', 'pywt/_mra.py: mra, mra2, mran', 'pywt/_wavelet_packets.py: data access and reconstruction']


def mod_ml():
    md, m1 = mod_multidim(), mod_dwt()
    return V.load('pywt/_multilevel.py', S.stubs('dwt_coeff_len', 'dwt_max_level', 'Modes', 'Wavelet', dwt=m1['dwt'], idwt=m1['idwt'], dwt2=md['dwt2'], dwtn=md['dwtn'],
                                                 idwt2=md['idwt2'], idwtn=md['idwtn'], _fix_coeffs=md['_fix_coeffs'], **U('_as_wavelet', '_modes_per_axis', '_wavelets_per_axis')))


def mod_sw():
    md = mod_multidim()
    return V.load('pywt/_swt.py', S.stubs('Modes', 'Wavelet', '_check_dtype', 'swt_max_level', '_swt', '_swt_axis', 'idwt_single', idwt2=md['idwt2'], idwtn=md['idwtn'], **U('_as_wavelet', '_wavelets_per_axis')))


def mod_mra():
    ml, sw = mod_ml(), mod_sw()
    return V.load('pywt/_mra.py', dict(swt_max_level=S.swt_max_level, **{k: ml[k] for k in ('_prep_axes_wavedecn', 'wavedec', 'wavedec2', 'wavedecn', 'waverec', 'waverec2', 'waverecn')},
                                       **{k: sw[k] for k in ('swt', 'swt2', 'swtn', 'iswt', 'iswt2', 'iswtn')}, **U('_modes_per_axis', '_wavelets_per_axis')))


def mod_wp():
    md, m1 = mod_multidim(), mod_dwt()
    return V.load('pywt/_wavelet_packets.py', S.stubs('dwt_max_level', 'Wavelet', '_check_dtype', dwt=m1['dwt'], idwt=m1['idwt'], dwt2=md['dwt2'], idwt2=md['idwt2'], dwtn=md['dwtn'], idwtn=md['idwtn']))


def arrays(r):
    if isinstance(r, SArr):
        return [r]
    if hasattr(r, 'coeffs') and not isinstance(r, (list, tuple, dict)):
        return [r.coeffs]
    return [x for x in V.flat(r) if isinstance(x, SArr)]


def inp(e, name, shape, dt):
    a = e.input(name, shape, dt)
    a.contig = True          # memory layout is the business of C06 to C08
    return a


def relate(e, f, make, dts, what):
    """f on arrays of the given types against f on the same values in double complex"""
    e.strict_cast = max(V.comp(S.rule(d)) for d in dts)      # bytes per component the result must keep
    k1, r1 = e.call(lambda: f(*make(dts)))
    k2, r2 = e.call(lambda: f(*make(['c16'] * len(dts))))
    e.ob(f'{what}: accepted or refused whatever the type', k1 == k2, f'{dts}: {r1!r}'[:300])
    if k1 != 'ok' or k2 != 'ok':
        return
    A, B = arrays(r1), arrays(r2)
    e.ob(f'{what}: structure', len(A) == len(B) > 0, f'{len(A)} {len(B)}')
    rules = [S.rule(d) for d in dts]
    for a, b in zip(A, B):
        if len(set(rules)) == 1:
            e.ob(f'{what}: dtype follows the rule', a.dtype == rules[0], f'{a.dtype} for {dts}')
        else:
            ok = all(np.can_cast(t, a.dtype, 'safe') for t in rules) and a.dtype in ('f4', 'f8', 'c8', 'c16')
            e.ob(f'{what}: dtype holds every band without loss', ok, f'{a.dtype} for {dts}')
        if not e.same(a, b):
            e.ob(f'{what}: no conversion on the way loses precision or an imaginary part', False, f'{dts}')
        else:
            e.ob(f'{what}: no conversion on the way loses precision or an imaginary part', True)


def tasks_C17(tier='quick'):
    T = []

    def add(name, f, make, nb=1, cost=1, dts=None):
        """nb: number of independently typed bands"""
        if nb == 1:
            for d in dts or D1:
                T.append(task(f'{name}, {d}', lambda e, d=d: relate(e, f(), make(e), [d], name.split(',')[0]), FN, cost=cost))
        else:
            cs = set()
            for p, q in [(D3, D3)] + [(D4, ['f4', 'c8'])]:
                for a in p:
                    for b in q:
                        for k in range(nb):
                            cs.add((a,) * k + (b,) + (a,) * (nb - k - 1))
                            cs.add((b,) * k + (a,) + (b,) * (nb - k - 1))
            for c in sorted(cs):
                T.append(task(f'{name}, {",".join(c)}', lambda e, c=c: relate(e, f(), make(e), list(c), name.split(',')[0]), FN, cost=cost))
    W, M = lambda: S.Wavelet('w'), 'symmetric'

    def one(nd, mult=1, lo=2):
        def m(e):
            sh = sizes(e, nd, lo=lo)
            if mult > 1:
                sh = tuple(s * mult for s in sh)
            return lambda d: [inp(e, 'x', sh, d[0])]
        return m
    add('dwt', lambda: lambda x: mod_dwt()['dwt'](x, W(), M), one(1))
    add('dwt, rank 2', lambda: lambda x: mod_dwt()['dwt'](x, W(), M, axis=0), one(2))
    add('dwtn', lambda: lambda x: mod_multidim()['dwtn'](x, W(), M), one(2))
    add('dwt2', lambda: lambda x: mod_multidim()['dwt2'](x, W(), M), one(2))
    add('wavedec', lambda: lambda x: mod_ml()['wavedec'](x, W(), M, 2), one(1))
    add('wavedec2', lambda: lambda x: mod_ml()['wavedec2'](x, W(), M, 2), one(2))
    add('wavedecn', lambda: lambda x: mod_ml()['wavedecn'](x, W(), M, 2), one(2))
    add('fswavedecn', lambda: lambda x: mod_ml()['fswavedecn'](x, W(), M, 1), one(2))
    for norm in (False, True):
        t = ', norm' if norm else ''
        add('swt' + t, lambda norm=norm: lambda x: mod_sw()['swt'](x, W(), 2, norm=norm), one(1, 4, 1))
        add('swt, rank 2' + t, lambda norm=norm: lambda x: mod_sw()['swt'](x, W(), 2, axis=0, norm=norm), one(2, 4, 1))
        add('swt2' + t, lambda norm=norm: lambda x: mod_sw()['swt2'](x, W(), 2, norm=norm), one(2, 4, 1))
        add('swtn' + t, lambda norm=norm: lambda x: mod_sw()['swtn'](x, W(), 1, norm=norm), one(2, 2, 1))
    add('mra', lambda: lambda x: mod_mra()['mra'](x, W(), 1, transform='dwt'), one(1))
    add('mra, swt', lambda: lambda x: mod_mra()['mra'](x, W(), 1), one(1, 2, 1), cost=2)
    add('mra2', lambda: lambda x: mod_mra()['mra2'](x, W(), 1, transform='dwt2'), one(2), cost=2)
    add('mra2, swt', lambda: lambda x: mod_mra()['mra2'](x, W(), 1), one(2, 2, 1), cost=8, dts=D2)
    add('mran', lambda: lambda x: mod_mra()['mran'](x, W(), 1, transform='dwtn'), one(2), cost=2)
    add('mran, swt', lambda: lambda x: mod_mra()['mran'](x, W(), 1), one(1, 2, 1), cost=2)

    # inverses: independently typed bands
    def bands(nd, n, L=0, trim=1):
        """n bands of equal extents"""
        def m(e):
            sh = sizes(e, nd, lo=2)
            sh = tuple(s * 4 for s in sh)
            return lambda d: [inp(e, f'b{k}', sh, d[k % len(d)]) for k in range(n)]
        return m

    def inv1(name, f, nd, n, nb, cost=1, make=None):
        add(name, f, make or bands(nd, n), nb, cost)
    inv1('idwt', lambda: lambda a, d: mod_dwt()['idwt'](a, d, W(), M), 1, 2, 2)
    inv1('idwt, rank 2', lambda: lambda a, d: mod_dwt()['idwt'](a, d, W(), M, axis=0), 2, 2, 2)
    for w in 'ad':
        add('idwt, one band', lambda w=w: lambda x: mod_dwt()['idwt'](x if w == 'a' else None, x if w == 'd' else None, W(), M), one(1))
    inv1('idwt2', lambda: lambda a, h, v, d: mod_multidim()['idwt2']((a, (h, v, d)), W(), M), 2, 4, 2)
    inv1('idwtn', lambda: lambda a, b: mod_multidim()['idwtn']({'a': a, 'd': b}, W(), M), 1, 2, 2)
    inv1('idwtn, rank 2', lambda: lambda a, b, c, d: mod_multidim()['idwtn']({'aa': a, 'da': b, 'ad': c, 'dd': d}, W(), M), 2, 4, 4)
    inv1('waverec', lambda: lambda a, d1, d2: mod_ml()['waverec']([a, d1, d2], W(), 'periodization'), 1, 3, 3,
         make=lambda e: (lambda n: lambda d: [inp(e, 'a', (n,), d[0]), inp(e, 'd1', (n,), d[1]), inp(e, 'd2', (2 * n,), d[2])])(e.int('n', 2)))
    inv1('waverec2', lambda: lambda a, d1, d2: mod_ml()['waverec2']([a, (d1, d2, d1)], W(), M), 2, 3, 3)
    inv1('waverecn', lambda: lambda a, d1, d2: mod_ml()['waverecn']([a, {'da': d1, 'ad': d2, 'dd': d1}], W(), M), 2, 3, 3)
    inv1('iswt', lambda: lambda a, d1, d2: mod_sw()['iswt']([a, d1, d2], W()), 1, 3, 3, cost=2)
    inv1('iswt, pairs', lambda: lambda a, d1, d2: mod_sw()['iswt']([(a, d1), (a, d2)], W()), 1, 3, 3, cost=2)
    inv1('iswt, rank 2', lambda: lambda a, d1, d2: mod_sw()['iswt']([a, d1, d2], W(), axis=0), 2, 3, 3, cost=2)
    inv1('iswt2', lambda: lambda a, d1, d2: mod_sw()['iswt2']([a, (d1, d2, d1)], W()), 2, 3, 3, cost=4)
    inv1('iswtn', lambda: lambda a, d1, d2: mod_sw()['iswtn']([a, {'d': d1}, {'d': d2}], W()), 1, 3, 3, cost=2)

    # wavelet packets
    def wp(x):
        w = mod_wp()['WaveletPacket'](x, W(), M, maxlevel=2)
        return [w['ad'].data, w['d'].data, w['da'].reconstruct(), w.reconstruct()]

    def wp2(x):
        w = mod_wp()['WaveletPacket2D'](x, W(), M, maxlevel=1)
        return [w['h'].data, w.reconstruct()]

    def wpn(x):
        w = mod_wp()['WaveletPacketND'](x, W(), M, maxlevel=1)
        return [w['ad'].data, w.reconstruct()]

    def wpset(a, d):
        w = mod_wp()['WaveletPacket'](None, W(), M, maxlevel=1)
        w['a'], w['d'] = a, d
        return w.reconstruct(False)
    add('WaveletPacket', lambda: wp, one(1), cost=2)
    add('WaveletPacket2D', lambda: wp2, one(2), cost=2)
    add('WaveletPacketND', lambda: wpn, one(2), cost=2)
    inv1('WaveletPacket, nodes set', lambda: wpset, 1, 2, 2, cost=2)
    return T


if __name__ == '__main__':
    go(tasks_C17)
