import ktasks, pylib
from ktasks import *
from q_C05 import tasks_C05
TRUSTED = pylib.TRUST + ['Lean 4 kernel and Mathlib for the two perfect-reconstruction lemmas; their hypotheses are the contracts proved from the C source under C01 and C04 and the bank identities checked under C14']
ASSUME = pylib.ASSUME
BOUNDED = pylib.BOUNDED
tasks = tasks_C05
