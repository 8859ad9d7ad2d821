"""worker.py PROP SHARD NSHARDS TIER SEED DEST OUT   |   worker.py --case PROP DEST FILE"""
import json, os, random, signal, sys, time, traceback, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from bounded import core


def one(mod, case):
    signal.alarm(60)        # default action: an endless call ends the process
    try:
        return mod.run(case)
    except Exception:
        return 'raised ' + traceback.format_exc().strip().splitlines()[-1] + ' ' + traceback.format_exc()[-900:]


def main():
    if sys.argv[1] == '--case':
        _, _, prop, dest, f = sys.argv
        core.use_build(dest)
        mod = __import__('bounded.b_' + prop, fromlist=['x'])
        msg = one(mod, json.load(open(f)))
        print(json.dumps({'result': msg}))
        return
    prop, shard, nsh, tier, seed, dest, out = sys.argv[1:8]
    shard, nsh = int(shard), int(nsh)
    core.use_build(dest)
    mod = __import__('bounded.b_' + prop, fromlist=['x'])
    rng = random.Random(f'{prop}{seed}')
    fd = os.open(out + '.cur', os.O_RDWR | os.O_CREAT)
    n, keys, viol, samples, t0 = 0, set(), [], [], time.time()
    budget = float(os.environ.get('VF_BUDGET', '60'))
    truncated = False
    for i, case in enumerate(mod.cases(tier, rng)):
        if i % nsh != shard:
            continue
        s = json.dumps(case)
        os.ftruncate(fd, 0)
        os.pwrite(fd, s.encode(), 0)
        n += 1
        keys.add(s)
        msg = one(mod, case)
        if msg:
            viol.append((case, msg))
            if len(viol) >= 200:
                break
        elif len(samples) < 2 or (n % 997 == 0 and len(samples) < 4):
            samples.append(case)
        if time.time() - t0 > budget:
            truncated = True
            break
    json.dump(dict(evaluations=n, distinct=len(keys), violations=viol, samples=samples, truncated=truncated,
                   wall=time.time() - t0), open(out, 'w'))


main()
