from pylib import TRUST, BOUNDED
from q_C10 import tasks_C10 as tasks
TRUSTED = TRUST[:1] + ['pointwise numpy contracts (vf/proof/ewise.py): one generic element, IEEE special values, no rounding; dtypes by the installed numpy on empty arrays']
ASSUME = ['input elements finite; scalar threshold and substitute finite reals', 'rounding, overflow and underflow are left to the bounded part']
