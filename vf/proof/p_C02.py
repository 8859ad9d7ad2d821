from ktasks import *
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
TRUSTED = CREAL + GLUE_TRUST
ASSUME = GLUE_ASSUME


def tasks(tier):
    ts = (kernel_tasks([('down', m) for m in MODES if m != 'periodization'] +
                       [('per', 2, 1), ('per', 1, 1), ('per', 1, 2), ('full',), ('valid', 'zero'), ('valid', 'periodization')]) +
          dec_tasks() + rec_tasks() + idwt_tasks() + swt_tasks(tier))
    for t in ts:      # keep the obligations about memory, arithmetic, calls and termination
        t.run = safety(t.run)
    return ts + tasks_glue(tier)


def safety(run):
    def f(deadline):
        res = run(deadline)
        keep = [o for o in res if not any(w in o['name'] for w in ('tap coefficient', 'no other term', 'nothing else is added', 'is the upsampled filter'))]
        for o in keep:
            o['replay'] = [dict(via='C07' if c.get('k') == 'def' else 'C01' if c.get('fn') == 'dwt' else 'C04', c=c) for c in o.get('replay', [])]
        return keep
    return f
