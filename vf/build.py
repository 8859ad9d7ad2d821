"""Build the current working tree of /repo into a scratch directory (never in /repo).

build(dest) copies pywt's sources, cythonizes the .pyx files and compiles everything
with gcc, so that `dest/pywt` is importable with PYTHONPATH=dest.
"""
import os, shutil, subprocess, sys, sysconfig, concurrent.futures as cf

REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CSRC = ['common', 'convolution', 'cwt', 'wavelets', 'wt']
PYX = ['_cwt', '_dwt', '_swt', '_pywt']
CDEFS = ['-DPY_EXTENSION', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1']
PYINC = ['-I/usr/include/python3.12', '-I/usr/include/x86_64-linux-gnu/python3.12']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def copy_sources(dest, repo=None):
    repo = repo or REPO
    src = os.path.join(repo, 'pywt')
    dst = os.path.join(dest, 'pywt')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('tests', '__pycache__', '*.so', '*.npz'))
    os.makedirs(os.path.join(dst, 'tests'), exist_ok=True)
    ext = os.path.join(dst, '_extensions')
    tmpl = open(os.path.join(ext, 'config.pxi.in')).read()
    with open(os.path.join(ext, 'config.pxi'), 'w') as f:
        f.write(tmpl.replace('@have_c99_complex_cy@', '1'))
    for name, txt in (('_c99_config.py', '_have_c99_complex = 1\n'),
                      ('version.py', 'version = "0"\nfull_version = "0"\ngit_revision = ""\n'
                                     'release = False\nshort_version = "0"\n')):
        with open(os.path.join(dst, name), 'w') as f:
            f.write(txt)
    return dst


def build(dest, repo=None, opt='-O1', san=None):
    dst = copy_sources(dest, repo)
    ext = os.path.join(dst, '_extensions')
    obj = os.path.join(dest, 'obj')
    os.makedirs(obj)
    npinc = run([PY, '-c', 'import numpy; print(numpy.get_include())']).strip()
    base = ['gcc', '-w', '-fPIC', '-std=c17', opt] + CDEFS + PYINC + ['-I' + os.path.join(ext, 'c'), '-I' + ext]
    cbase = base + (['-g', '-fsanitize=' + san, '-fno-omit-frame-pointer'] if san else [])
    suffix = '.cpython-312-x86_64-linux-gnu.so'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')

    def cobj(n):
        o = os.path.join(obj, n + '.o')
        run(cbase + ['-c', os.path.join(ext, 'c', n + '.c'), '-o', o])
        return o

    def pyx(n):
        c = os.path.join(obj, n + '.c')
        run([PY, '-m', 'cython', '-3', '--fast-fail', '-o', c, '-I', dest,
             os.path.join('pywt', '_extensions', n + '.pyx')], cwd=dest, env=env)
        o = os.path.join(obj, n + '_x.o')
        run(base + ['-I' + npinc, '-DNPY_NO_DEPRECATED_API=NPY_1_22_API_VERSION', '-c', c, '-o', o])
        return o

    with cf.ThreadPoolExecutor(9) as ex:
        px = [ex.submit(pyx, n) for n in ['_dwt', '_swt', '_pywt', '_cwt']]
        co = [ex.submit(cobj, n) for n in CSRC]
        objs = [f.result() for f in co]
        px = [f.result() for f in px]
    lib = os.path.join(dest, 'libcwt.so')
    link = ['gcc', '-shared'] + (['-fsanitize=' + san] if san else [])
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, link + [o] + objs + ['-lm', '-o', os.path.join(ext, n + suffix)])
              for o, n in zip(px, ['_dwt', '_swt', '_pywt', '_cwt'])]
        fs.append(ex.submit(run, link + objs + ['-lm', '-o', lib]))
        for f in fs:
            f.result()
    return dest


if __name__ == '__main__':
    build(sys.argv[1])
