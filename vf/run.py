"""run.py PROP            decide one property on /repo's current working tree
   run.py --replay FILE   rebuild and run the recorded failing input again

exit 0: every obligation that could be decided was discharged and no bounded case failed
exit 1: VIOLATION line(s);  exit 2: the check itself could not run."""
import concurrent.futures as cf, glob, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
PY = B.PY
WORKER = os.path.join(HERE, 'bounded', 'worker.py')
SAN = {'C02': 'address'}
NSH = 8


def worker_env(prop):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    if prop in SAN:
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:'
                                                'max_allocation_size_mb=3000')
    return env


def tail(s, n=3500):
    s = s or ''
    return s[-n:]


def run_case(prop, dest, case, tmp, timeout=150):
    """-> (rc, result message or None, stderr tail)"""
    fd, f = tempfile.mkstemp(dir=tmp, suffix='.case')
    os.write(fd, json.dumps(case).encode())
    os.close(fd)
    try:
        r = subprocess.run([PY, WORKER, '--case', prop, dest, f], env=worker_env(prop), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -14, None, 'timed out'
    msg = None
    if r.returncode == 0:
        msg = json.loads(r.stdout.strip().splitlines()[-1])['result']
    return r.returncode, msg, tail(r.stderr)


def crashed(rc):
    """return codes that only the code under test can produce (signal, sanitizer abort), not a python error"""
    return (rc < 0 and rc != -9) or rc in (99, 139, 134, 142)


def shard(prop, s, tier, seed, dest, tmp, budget):
    """run one shard, restarting once after an unexplained death; -> dict"""
    res = None
    for attempt in (0, 1):
        out = os.path.join(tmp, f's{s}_{attempt}.json')
        try:
            r = subprocess.run([PY, WORKER, prop, str(s), str(NSH), tier, str(seed), dest, out],
                               env=dict(worker_env(prop), VF_BUDGET=str(budget)), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 180)
            rc, err = r.returncode, tail(r.stderr)
        except subprocess.TimeoutExpired:
            rc, err = -9, 'shard timed out'
        if rc == 0 and os.path.exists(out):
            return json.load(open(out))
        cur = None
        try:
            cur = json.load(open(out + '.cur'))
        except Exception:
            pass
        if cur is not None:
            for _ in (0, 1):
                crc, msg, cerr = run_case(prop, dest, cur, tmp)
                if crashed(crc) or (crc == 1 and 'AddressSanitizer' in cerr):
                    what = 'does not return' if crc in (-14, 142) else 'kills the process'
                    return dict(evaluations=0, distinct=0, samples=[], truncated=True, wall=0,
                                violations=[(cur, f'the call {what} (exit status {crc})\n' + cerr)])
                if msg:
                    return dict(evaluations=0, distinct=0, samples=[], truncated=True, wall=0,
                                violations=[(cur, msg)])
        res = (rc, err, cur)
    rc, err, cur = res
    if crashed(rc) and cur is not None or 'AddressSanitizer' in err:
        return dict(evaluations=0, distinct=0, samples=[], truncated=True, wall=0,
                    violations=[({'shard': s, 'of': NSH, 'seed': seed, 'tier': tier, 'last_case': cur},
                                 f'twice killed the process (exit status {rc}) on this sequence of cases\n' + err)])
    raise RuntimeError(f'shard {s} of {prop} ended with status {rc}: {err}')


def bounded(prop, tier, seed, dest, tmp, budget):
    with cf.ThreadPoolExecutor(NSH) as ex:
        rs = list(ex.map(lambda s: shard(prop, s, tier, seed, dest, tmp, budget), range(NSH)))
    return dict(evaluations=sum(r['evaluations'] for r in rs), distinct=sum(r['distinct'] for r in rs),
                violations=[v for r in rs for v in r['violations']],
                samples=[c for r in rs for c in r['samples']][:6],
                truncated=any(r['truncated'] for r in rs))


def proof(prop, tier, tmp, limit):
    """deductive part, in the verification venv; -> dict or None when the property has no proof module"""
    main = os.path.join(HERE, 'proof', 'main.py')
    if not glob.glob(os.path.join(HERE, 'proof', 'p_' + prop + '.py')):
        return None
    out = os.path.join(tmp, 'proof.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VF_LIMIT=str(limit), PYTHONHASHSEED='0')
    t0 = time.time()
    p = subprocess.Popen(['/usr/bin/env', 'python3-vt', main, prop, out, tier, tmp], env=env, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=limit + 60)
    except subprocess.TimeoutExpired:
        txt = 'proof process exceeded its time'
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    if os.path.exists(out):
        d = json.load(open(out))
    else:
        d = dict(obligations=[], error='proof process gave no result: ' + tail(txt))
    d['wall'] = time.time() - t0
    return d


def known(prop):
    """known: property=<id> case=<json> :: what fails"""
    res = []
    f = os.path.join(ROOT, 'KNOWN_FINDINGS')
    for line in open(f) if os.path.exists(f) else []:
        if line.startswith('known: property=' + prop + ' '):
            c, what = line.split(' case=', 1)[1].split(' :: ', 1)
            res.append((json.loads(c), what.strip()))
    return res


def write_replay(prop, idx, obj):
    d = os.path.join(ROOT, 'out')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f'{prop}_{idx}.json')
    json.dump(obj, open(f, 'w'), indent=1)
    return f


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VF_BUDGET') or (60 if tier == 'quick' else 1500))
    limit = float(os.environ.get('VF_PROOF_LIMIT') or (300 if tier == 'quick' else 3000))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_')
    for old in glob.glob(os.path.join(ROOT, 'out', prop + '_*.json')):
        os.unlink(old)
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            fb = ex.submit(B.build, os.path.join(tmp, 'b'), None, '-O1', SAN.get(prop))
            fp = ex.submit(proof, prop, tier, tmp, limit)
            try:
                dest = fb.result()
            except B.BuildError as e:
                print('the current tree does not build:\n' + tail(str(e)))
                return 2
            bres = bounded(prop, tier, seed, dest, tmp, budget)
            pres = fp.result()
            if pres and bres['evaluations'] == 0 and not bres['violations']:
                raise RuntimeError('no bounded case was run')
            # obligations that were not discharged: run their counter-models on the real code
            obl = (pres or {}).get('obligations', [])
            refuted = [o for o in obl if o['status'] in ('refuted', 'failed')]
            todo, keys = [], set()
            for o in [o for o in obl if o['status'] != 'proved']:
                for case in o.get('replay', [])[:20]:
                    k = json.dumps(case, sort_keys=True)
                    if k not in keys and len(todo) < 160:
                        keys.add(k)
                        todo.append((o, case))
            confirmed = []

            def try_case(oc):
                rc, msg, err = run_case(prop, dest, oc[1], tmp, 100)
                return (oc[0], oc[1], msg or f'exit status {rc} ' + err) if crashed(rc) or msg else None
            if todo and not bres['violations']:
                with cf.ThreadPoolExecutor(NSH) as ex2:
                    confirmed = [r for r in ex2.map(try_case, todo) if r]
        kn = known(prop)
        kkeys = [json.dumps(c, sort_keys=True) for c, _ in kn]
        viol = []
        for c, m in bres['violations']:
            if json.dumps(c, sort_keys=True) not in kkeys:
                viol.append((c, m))
        lines, idx = [], 0
        seen = set()
        for c, m in viol:
            k = m[:50]
            if k in seen or len(seen) >= 3:
                continue
            seen.add(k)
            f = write_replay(prop, idx, dict(property=prop, kind='failing input', case=c, what=m, found_by='bounded search',
                                             failed_obligations=[o['name'] for o in refuted][:20],
                                             replay_cmd=f'python3 vf/run.py --replay out/{prop}_{idx}.json'))
            lines.append(f'VIOLATION property={prop} replay={f}')
            idx += 1
        for o, c, m in confirmed[:3]:
            f = write_replay(prop, idx, dict(property=prop, kind='failing input', case=c, what=m, found_by='counter-model of obligation',
                                             failed_obligations=[o['name']] + [p['name'] for p in refuted if p is not o][:19], detail=o.get('detail'),
                                             replay_cmd=f'python3 vf/run.py --replay out/{prop}_{idx}.json'))
            lines.append(f'VIOLATION property={prop} replay={f}')
            idx += 1
        if refuted and not lines:
            f = write_replay(prop, idx, dict(property=prop, kind='failed obligation',
                                             failed_obligations=[o['name'] for o in refuted],
                                             verifier_output=[dict(o) for o in refuted[:20]]))
            lines.append(f'VIOLATION property={prop} replay={f} no-failing-input-found')
        write_evidence(prop, tier, seed, bres, pres, len(lines), time.time() - t0, refuted)
        for c, what in kn:
            print(f'KNOWN-FINDING: property={prop} {what}')
        if pres is not None:
            obs = pres['obligations']
            und = [o for o in obs if o['status'] not in ('proved', 'refuted', 'failed')]
            print(f'{prop}: {len(obs)} obligations, {sum(o["status"] == "proved" for o in obs)} discharged, '
                  f'{len(refuted)} failed, {len(und)} undecided ({pres["wall"]:.1f} s)')
            for o in und[:8]:
                print('  undecided: ' + o['name'] + '  ' + str(o.get('detail', ''))[:160])
            if pres.get('error'):
                print('  proof part incomplete: ' + pres['error'][-1500:])
        print(f'{prop}: {bres["evaluations"]} concrete cases ({bres["distinct"]} distinct)'
              + (', stopped by the time budget' if bres['truncated'] else '') + f', {time.time() - t0:.1f} s')
        for o in refuted[:10]:
            print('failed obligation: ' + o['name'] + '  ' + str(o.get('detail', ''))[:300])
        for c, m in viol[:3]:
            print('failing input: ' + json.dumps(c)[:300] + '\n   ' + m[:600])
        for l in lines:
            print(l)
        return 1 if lines else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(prop, tier, seed, bres, pres, nviol, wall, refuted):
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'exploration')
    rule = 'bounded stand-in: cases made by vf/bounded/b_%s.py; distinct = different case descriptions; every case calls the real code and compares it with the oracle' % prop
    cov = dict(evaluations=bres['evaluations'], distinct_nontrivial=bres['distinct'], rule=rule, samples=bres['samples'],
               bounded_stopped_by_budget=bres['truncated'])
    assume = []
    if pres is not None:
        obs = pres['obligations']
        by = {}
        unrolled = [o for o in obs if o.get('bound')]
        obs = [o for o in obs if not o.get('bound')]
        for o in obs:
            b = by.setdefault(o.get('backend', '?'), dict(obligations=0, discharged=0, seconds=0.0))
            b['obligations'] += 1
            b['discharged'] += o['status'] == 'proved'
            b['seconds'] = round(b['seconds'] + o.get('time', 0), 3)
        cov.update(obligations=len(obs), discharged=sum(o['status'] == 'proved' for o in obs),
                   refuted=len(refuted), undecided=[o['name'] for o in obs if o['status'] not in ('proved', 'refuted', 'failed')][:60],
                   checker_cmd=f'python3-vt vf/proof/main.py {prop} OUT {tier} TMP',
                   trusted_base=pres.get('trusted', []), functions_under_contract=pres.get('functions', []),
                   by_backend=by, bounded_structure=pres.get('bounded', []), proof_wall_s=round(pres['wall'], 1),
                   obligation_names=[o['name'] for o in obs][:400],
                   bounded_obligations=dict(note='not counted as proved: a loop with symbolic trip count was unrolled', total=len(unrolled),
                                            discharged=sum(o['status'] == 'proved' for o in unrolled), bounds=sorted({o['bound'] for o in unrolled}),
                                            undecided=[o['name'] for o in unrolled if o['status'] not in ('proved', 'refuted', 'failed')][:40],
                                            names=[o['name'] for o in unrolled][:100]))
        if pres.get('error'):
            cov['proof_error'] = pres['error'][-2000:]
        assume = pres.get('assumptions', [])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume,
                   wall_s=round(wall, 2), violations=nviol),
              open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)


def replay(f):
    d = json.load(open(f))
    if 'case' not in d:
        print('no failing input recorded; failed obligations: ' + ', '.join(d['failed_obligations']))
        return 2
    tmp = tempfile.mkdtemp(prefix='vf_')
    try:
        dest = B.build(os.path.join(tmp, 'b'), san=SAN.get(d['property']))
        rc, msg, err = run_case(d['property'], dest, d['case'], tmp)
        print(json.dumps(d['case']), '\n', msg or ('holds' if rc == 0 else f'exit status {rc} {err}'))
        return 1 if (msg or crashed(rc)) else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == '--replay' else check(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
