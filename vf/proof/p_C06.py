from pylib import TRUST, ASSUME as PYA, BOUNDED
from q_C06 import tasks_C06
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
TRUSTED, ASSUME = TRUST + GLUE_TRUST, PYA + GLUE_ASSUME


def tasks(tier):
    return tasks_C06(tier) + tasks_glue(tier, ('dwt_axis', 'idwt_axis'))
