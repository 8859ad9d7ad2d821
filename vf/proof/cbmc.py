"""CBMC as back end for contracts of 64-bit scalar C functions (loops bounded by the word size, unwinding checked)."""
import json, os, subprocess, tempfile, time, shutil
from lib import CDIR, ob

FLAGS = ['-I' + CDIR]


def run(key, cfile, harness, func, unwind, replay=None, extra=(), timeout=200, inputs=()):
    """obligations of one harness; replay(dict of input values) -> cases"""
    d = tempfile.mkdtemp(prefix='vfcb_')
    try:
        h = os.path.join(d, 'h.c')
        open(h, 'w').write(harness)
        t0 = time.time()
        try:
            r = subprocess.run(['cbmc', h, os.path.join(CDIR, cfile)] + FLAGS + list(extra) + ['--function', func, '--unwind', str(unwind),
                               '--unwinding-assertions', '--trace', '--json-ui'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            out = json.loads(r.stdout)
        except Exception as e:
            return [ob(f'{key}: whole proof', 'undecided', 'cbmc', time.time() - t0, f'{type(e).__name__} {e}'[:300])]
        t = time.time() - t0
        res = []
        for e in out:
            for p in e.get('result', []) if isinstance(e, dict) else []:
                loc = p.get('sourceLocation', {})
                if loc.get('function', '').startswith('__CPROVER') or p['property'].startswith('__CPROVER'):
                    continue
                name = f'{key}: {p["description"]} ({p["property"]})'
                if p['status'] == 'SUCCESS':
                    res.append(ob(name, 'proved', 'cbmc', t / 10))
                elif 'unwind' in p['property'] or p['status'] != 'FAILURE':
                    res.append(ob(name, 'undecided', 'cbmc', t / 10, p['status']))
                else:
                    vals = {}
                    for s in p.get('trace', []):
                        if s.get('stepType') in ('assignment', 'function-call', 'input'):
                            n, v = s.get('lhs'), s.get('value', {})
                            if n in inputs and 'binary' in v:
                                vals[n] = int(v['binary'], 2)
                            elif n in inputs and 'data' in v:
                                vals[n] = int(''.join(c for c in str(v['data']) if c.isdigit() or c == '-') or 0)
                    res.append(ob(name, 'refuted', 'cbmc', t / 10, 'counterexample ' + json.dumps(vals), replay(vals) if replay else ()))
        if not res:
            msg = ' '.join(str(e.get('messageText', '')) for e in out if isinstance(e, dict))[-300:]
            res = [ob(f'{key}: whole proof', 'undecided', 'cbmc', t, msg)]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
