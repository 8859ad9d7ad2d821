"""main.py PROP OUT TIER TMP: generate and discharge the obligations of one property from /repo's current source."""
import importlib, json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
import lib
from cast import Unsupported


def child(task, deadline, conn):
    try:
        r = task.run(deadline)
    except (Unsupported, TimeoutError) as e:
        r = [lib.ob(task.key + ': whole proof', 'undecided', 'none', 0, f'{type(e).__name__}: {e}')]
    except BaseException as e:
        r = [lib.ob(task.key + ': whole proof', 'undecided', 'none', 0, 'proof engine: ' + traceback.format_exc()[-700:])]
    conn.send(r)
    conn.close()


def run_tasks(tasks, deadline, nproc=8):
    ctx = mp.get_context('fork')
    todo = sorted(tasks, key=lambda t: -t.cost)
    live, done = [], {}
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, deadline - 5, b))
            p.start()
            b.close()
            live.append((t, p, a))
        rest = []
        for t, p, a in live:
            if a.poll():
                try:
                    done[id(t)] = a.recv()
                except EOFError:
                    done[id(t)] = [lib.ob(t.key + ': whole proof', 'undecided', 'none', 0, 'proof process died')]
                p.join()
            elif not p.is_alive() and not a.poll():
                done[id(t)] = [lib.ob(t.key + ': whole proof', 'undecided', 'none', 0, 'proof process died')]
            elif time.time() > deadline:
                p.kill()
                done[id(t)] = [lib.ob(t.key + ': whole proof', 'undecided', 'none', 0, 'time limit')]
            else:
                rest.append((t, p, a))
        live = rest
        time.sleep(0.02)
    return [o for t in tasks for o in done[id(t)]]


def main():
    prop, out, tier, tmp = sys.argv[1:5]
    deadline = time.time() + float(os.environ.get('VF_LIMIT', '250'))
    err = None
    obs, m = [], None
    try:
        m = importlib.import_module('p_' + prop)
        tasks = m.tasks(tier)
        if hasattr(m, 'preload'):
            m.preload()
        obs = run_tasks(tasks, deadline)
        fn = sorted({f for t in tasks for f in t.functions})
    except Exception:
        err = traceback.format_exc()
        fn = []
    names = {}
    for o in obs:
        n = names.get(o['name'], 0)
        names[o['name']] = n + 1
        if n:
            o['name'] += f' ({n + 1})'
    json.dump(dict(obligations=obs, functions=fn, trusted=getattr(m, 'TRUSTED', []), assumptions=getattr(m, 'ASSUME', []),
                   bounded=getattr(m, 'BOUNDED', []), error=err), open(out, 'w'))


if __name__ == '__main__':
    main()
