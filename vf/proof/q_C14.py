from pylib import *
import json, os, re, shutil, subprocess, tempfile, time, math
from fractions import Fraction
FN = ['pywt/_functions.py: qmf, orthogonal_filter_bank']
CFN = ['pywt/_extensions/c/wavelets.c: discrete_wavelet, blank_discrete_wavelet, copy_discrete_wavelet, free_discrete_wavelet', 'pywt/_extensions/c/wavelets_coeffs.template.h: every table']
BE = 'exact rational evaluation of the compiled tables (finite domain, exhaustive)'
DRIVER = r'''
#include <stdio.h>
#include "wavelets.h"
static void show(const char *n, int o, DiscreteWavelet *w) {
    size_t i;
    printf("W %s %d %zu %zu %d %d %d %d\n", n, o, w->dec_len, w->rec_len, (int)w->base.orthogonal, (int)w->base.biorthogonal, w->vanishing_moments_psi, w->vanishing_moments_phi);
    double *d[4] = {w->dec_lo_double, w->dec_hi_double, w->rec_lo_double, w->rec_hi_double};
    float *f[4] = {w->dec_lo_float, w->dec_hi_float, w->rec_lo_float, w->rec_hi_float};
    for (int k = 0; k < 4; k++) {
        size_t n_ = k < 2 ? w->dec_len : w->rec_len;
        printf("D"); for (i = 0; i < n_; i++) printf(" %a", d[k][i]); printf("\n");
        printf("F"); for (i = 0; i < n_; i++) printf(" %a", (double)f[k][i]); printf("\n");
    }
}
static int same(DiscreteWavelet *a, DiscreteWavelet *b) {
    size_t i;
    if (a->dec_len != b->dec_len || a->rec_len != b->rec_len) return 0;
    for (i = 0; i < a->dec_len; i++)
        if (a->dec_lo_double[i] != b->dec_lo_double[i] || a->dec_hi_double[i] != b->dec_hi_double[i] || a->dec_lo_float[i] != b->dec_lo_float[i] || a->dec_hi_float[i] != b->dec_hi_float[i]) return 0;
    for (i = 0; i < a->rec_len; i++)
        if (a->rec_lo_double[i] != b->rec_lo_double[i] || a->rec_hi_double[i] != b->rec_hi_double[i] || a->rec_lo_float[i] != b->rec_lo_float[i] || a->rec_hi_float[i] != b->rec_hi_float[i]) return 0;
    return a->dec_lo_double != b->dec_lo_double && a->rec_lo_float != b->rec_lo_float;
}
int main(void) {
    static const char *nm[] = {"haar", "rbio", "db", "sym", "coif", "bior", "dmey"};
    static const int code[] = {HAAR, RBIO, DB, SYM, COIF, BIOR, DMEY};
    for (int k = 0; k < 7; k++)
        for (int o = 0; o <= 200; o++) {
            DiscreteWavelet *w = discrete_wavelet(code[k], o);
            if (!w) continue;
            if ((k == 0 || k == 6) && o) { free_discrete_wavelet(w); continue; }
            show(nm[k], o, w);
            DiscreteWavelet *c = copy_discrete_wavelet(w);
            printf("C %d\n", c && same(w, c));
            free_discrete_wavelet(w);
            if (c) free_discrete_wavelet(c);
        }
    return 0;
}
'''
HARN = r'''
#include "wavelets.h"
void h(void) {
    unsigned int o; int n;
    __CPROVER_assume(n == DB || n == SYM || n == COIF || n == BIOR || n == RBIO);
    __CPROVER_assume(o > 200);
    __CPROVER_assert(discrete_wavelet(n, o) == 0, "every order above 200 is refused");
}
'''


def expected():
    """names offered by the library"""
    r = {('haar', 0): 2, ('dmey', 0): 62}
    r.update({('db', k): 2 * k for k in range(1, 39)})
    r.update({('sym', k): 2 * k for k in range(2, 21)})
    r.update({('coif', k): 6 * k for k in range(1, 18)})
    for a, bs in ((1, (1, 3, 5)), (2, (2, 4, 6, 8)), (3, (1, 3, 5, 7, 9)), (4, (4,)), (5, (5,)), (6, (8,))):
        for b in bs:
            for f in ('bior', 'rbio'):
                r[(f, 10 * a + b)] = max(2 * b, 2) if a == 1 else 2 * b + 2
    return r


def label(k):
    f, o = k
    return f + (f'{o // 10}.{o % 10}' if f in ('bior', 'rbio') else str(o) if o else '')


def sq2(t):
    """is |t - sqrt 2| <= tol decided exactly"""
    return lambda s: s > 0 and (s - t) ** 2 <= 2 <= (s + t) ** 2 if s > t else False


def table_checks(key, D, F, dec_len, rec_len, orth, bior, vpsi, vphi, banks):
    """(name, holds) for one bank; D, F: four filters as exact fractions"""
    fam, o = key
    a, b = divmod(o, 10) if fam in ('bior', 'rbio') else (o, 0)
    tol = Fraction(1, 100) if fam == 'dmey' else Fraction(1, 10 ** 9)
    dl, dh, rl, rh = D
    n = len(dl)
    yield 'lengths are the stated even length', all(len(f) == n for f in D + F) and dec_len == rec_len == n and n == expected().get(key) and n % 2 == 0
    if not all(len(f) == n for f in D):
        return
    ok = True
    for e in (0, 1):
        for s in range(2 * n - 1):
            v = sum(rl[t] * dl[s - t] + rh[t] * dh[s - t] for t in range(e, n, 2) if 0 <= s - t < n)
            ok = ok and abs(v - (s == n - 1)) <= tol
    yield 'perfect reconstruction identity, both phases, every shift', ok
    yield 'single precision filters are the double ones rounded', all(abs(p - q) <= abs(p) * Fraction(1, 2 ** 23) + Fraction(1, 2 ** 140) for f, g in zip(D, F) for p, q in zip(f, g))
    yield 'both low-pass filters sum to sqrt 2', all(sq2(tol)(sum(f)) for f in (dl, rl))
    yield 'flags', (orth, bior) == (int(fam not in ('bior', 'rbio')), 1)
    if fam not in ('bior', 'rbio'):
        yield 'time reversal', dl == rl[::-1] and dh == rh[::-1]
        yield 'alternating signs', rh == [(-1) ** k * v for k, v in enumerate(rl[::-1])]
        ok = True
        for f, g, c in ((dl, dl, 1), (dh, dh, 1), (dl, dh, 0), (rl, rl, 1), (rh, rh, 1), (rl, rh, 0)):
            for q in range(-n + 2, n, 2):
                ok = ok and abs(sum(f[i] * g[i - q] for i in range(max(0, q), min(n, n + q))) - (c if q == 0 else 0)) <= tol
        yield 'orthonormality, every even shift', ok
    if fam == 'rbio' and ('bior', o) in banks:
        bl, bh, sl, sh = banks['bior', o][0]
        yield 'mirrored by its bior bank', [dl, dh, rl, rh] == [sl[::-1], sh[::-1], bl[::-1], bh[::-1]]
    vm = {'haar': 1, 'db': a, 'sym': a, 'coif': 2 * a}.get(fam)
    nd, nr = {'bior': (a, b), 'rbio': (b, a)}.get(fam, (vm or 1, vm or 1))
    if (fam, o) in (('bior', 55), ('rbio', 55)):
        nd, nr = (6, 4) if fam == 'bior' else (4, 6)
    ok = True
    for f, k in ((dh, nd), (rh, nr)):
        for q in range(k):
            c = Fraction(n - 1, 2)
            ok = ok and abs(sum(v * ((i - c) / (c or 1)) ** q for i, v in enumerate(f))) <= tol
    yield 'vanishing moments of both high-pass filters', ok
    if vm is not None:
        yield 'declared number of vanishing moments', vpsi == vm and (fam != 'coif' or vphi == 2 * a - 1)


def tables(deadline):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vf14_')
    try:
        open(d + '/d.c', 'w').write(DRIVER)
        cs = [os.path.join(lib.CDIR, x) for x in ('wavelets.c', 'common.c')]
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
        r = subprocess.run(['clang', '-w', '-O0', '-g', '-std=c17', *san, '-I' + lib.CDIR, d + '/d.c', *cs, '-lm', '-o', d + '/d'], capture_output=True, text=True)
        if r.returncode:
            return [lib.ob('filter tables: whole proof', 'undecided', BE, time.time() - t0, r.stderr[:400])]
        r = subprocess.run([d + '/d'], capture_output=True, text=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [lib.ob('discrete_wavelet, copy and free: every family and order up to 200 runs without a memory or arithmetic error', 'proved' if r.returncode == 0 else 'refuted', BE + ', ASan/UBSan',
                  time.time() - t0, r.stderr[:600])]
    cur, banks, meta, cp = None, {}, {}, {}
    for line in r.stdout.splitlines():
        p = line.split()
        if p[0] == 'W':
            cur = (p[1], int(p[2]))
            banks[cur], meta[cur] = ([], []), tuple(map(int, p[3:]))
        elif p[0] in 'DF':
            v = [Fraction(*float.fromhex(z).as_integer_ratio()) if z[-1] not in 'nf' else None for z in p[1:]]
            banks[cur][p[0] == 'F'].append(v)
        elif p[0] == 'C':
            cp[cur] = p[1] == '1'
    if r.returncode:
        return res
    ex = expected()
    res.append(lib.ob('the banks constructed are exactly the built-in families and orders', 'proved' if set(banks) == set(ex) else 'refuted', BE, 0, str(sorted(set(banks) ^ set(ex)))[:300]))
    for k in sorted(banks):
        D, F = banks[k]
        rep = [dict(t='table', w=label(k))]
        if len(D) != 4 or any(None in f for f in D + F):
            res.append(lib.ob(f'{label(k)}: finite filters', 'refuted', BE, 0, '', rep))
            continue
        res.append(lib.ob(f'{label(k)}: a copy of the wavelet has the same filters in its own memory', 'proved' if cp.get(k) else 'refuted', BE, 0, '', rep))
        for name, ok in table_checks(k, D, F, *meta[k], banks):
            res.append(lib.ob(f'{label(k)}: {name}', 'proved' if ok else 'refuted', BE, 0, '', rep))
    t = (time.time() - t0) / len(res)
    for o in res:
        o['time'] = round(t, 4)
    return res


def orders(deadline):
    """blank_discrete_wavelet is replaced by "never reached" """
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vf14_')
    name = 'discrete_wavelet: every order above 200 is refused, for every family with an order'
    try:
        open(d + '/h.c', 'w').write(HARN)
        for c in (['goto-cc', '-I' + lib.CDIR, 'h.c', os.path.join(lib.CDIR, 'wavelets.c'), '-o', 'a'], ['goto-instrument', '--remove-function-body', 'blank_discrete_wavelet', 'a', 'b'],
                  ['goto-instrument', '--generate-function-body', 'blank_discrete_wavelet', '--generate-function-body-options', 'assert-false-assume-false', 'b', 'c']):
            subprocess.run(c, cwd=d, capture_output=True, check=True, timeout=60)
        r = subprocess.run(['cbmc', 'c', '--function', 'h', '--unwind', '3', '--object-bits', '12', '--slice-formula', '--json-ui'], cwd=d, capture_output=True, text=True, timeout=max(20, deadline - time.time()))
        ps = [p for e in json.loads(r.stdout) if isinstance(e, dict) for p in e.get('result', [])]
        ps = [p for p in ps if 'assertion' in p['property'] or 'unwind' in p['property']]
    except Exception as ex:
        return [lib.ob(name, 'undecided', 'cbmc', time.time() - t0, f'{type(ex).__name__}: {ex}'[:300])]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    main = [p for p in ps if p['property'].startswith('h.')]
    ok = main and all(p['status'] == 'SUCCESS' for p in ps)
    bad = main and any(p['status'] == 'FAILURE' and p['property'].startswith('h.') for p in ps)
    return [lib.ob(name, 'proved' if ok else 'failed' if bad else 'undecided', 'cbmc', time.time() - t0, str([p for p in ps if p['status'] != 'SUCCESS'])[:400])]


def tasks_C14(tier='quick'):
    T = [lib.Task('filter tables', tables, 40, CFN), lib.Task('orders above 200', orders, 10, CFN)]

    def fns():
        return V.load('pywt/_functions.py', S.stubs('Wavelet', 'ContinuousWavelet', 'DiscreteContinuousWavelet', warnings=V.Warn(), fft=None))

    def qmf(dt):
        def run(e):
            f = e.input('f', (e.int('n', 1),), dt)
            n = V.zi(f.shape[0])
            k, r = e.call(fns()['qmf'], f)
            w0 = list(e.input_writes)
            e.ob('qmf succeeds', k == 'ok', repr(r)[:200])
            if k != 'ok':
                return
            e.require_same('qmf reverses and negates the odd positions', r,
                           SArr.fresh(f.shape, f.dtype, lambda i: z3.If(i[0] % 2 == 0, f.elem()((n - 1 - i[0],)), -f.elem()((n - 1 - i[0],)))))
            e.ob('argument is not written', not w0, str(w0))
            e.ob('result shares no memory with the argument', r.buf.origin == 'fresh', '')
        return run

    def ofb(dt):
        def run(e):
            f = e.input('f', (e.int('n', 1),), dt)
            n = V.zi(f.shape[0])
            e.assume(n <= 62 * 10 ** 6)
            k, r = e.call(fns()['orthogonal_filter_bank'], f)
            w0 = list(e.input_writes)
            odd = not e.valid(n % 2 == 0) and e.valid(n % 2 == 1)
            e.ob('refused exactly for an odd length', (k == 'raise') == odd and (k == 'ok' or 'ValueError' in repr(r) or r is ValueError or isinstance(r, ValueError)), f'{k} {r!r}'[:200])
            e.ob('argument is not written', not w0, str(w0))
            if k != 'ok':
                return
            s = V.CUR.memo.get('np.sum', [])
            e.ob('one sum, of the whole scaling filter, is taken', len(s) == 1, str(len(s)))
            e.ob('four filters', isinstance(r, tuple) and len(r) == 4, '')
            if len(s) != 1 or len(r) != 4:
                return
            arr, tot = s[0]
            e.require_same('the sum is over the scaling filter', arr, SArr.fresh(f.shape, np.dtype('f8'), f.elem()))
            c = e.const(float(np.sqrt(2)))
            g = lambda i: c * f.elem()((i,)) / tot
            sg = lambda i, v: z3.If(i % 2 == 0, v, -v)
            for name, got, want in (('dec_lo', r[0], lambda i: g(n - 1 - i[0])), ('dec_hi', r[1], lambda i: sg(n - 1 - i[0], g(i[0]))),
                                    ('rec_lo', r[2], lambda i: g(i[0])), ('rec_hi', r[3], lambda i: sg(i[0], g(n - 1 - i[0])))):
                e.require_same(name + ' follows its formula', got, SArr.fresh(f.shape, np.dtype('f8'), want))
                e.ob(name + ' shares no memory with the argument', got.buf.origin == 'fresh', '')
        return run
    for dt in ('f8', 'f4', 'i8', 'c16', 'c8', 'i4'):
        T.append(task(f'qmf, {dt}', qmf(dt), FN))
        if not dt.startswith('c'):
            T.append(task(f'orthogonal_filter_bank, {dt}', ofb(dt), FN))
    return T


if __name__ == '__main__':
    go(tasks_C14)
