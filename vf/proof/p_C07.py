from ktasks import *
import pylib
from q_C07 import tasks_C07
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
TRUSTED = CREAL + pylib.TRUST + GLUE_TRUST
ASSUME = pylib.ASSUME + GLUE_ASSUME + ['inverse stationary transform: perfect reconstruction of the periodized single-level transform (C05), and the coset lemma (proved here index by index) lifted to sums tap by tap',
                         'round trips are proved for levels 1 to 3 (the code is uniform in the level, but that is not proved)']
BOUNDED = pylib.BOUNDED


def tasks(tier):
    return (kernel_tasks([('per', 1, 1), ('per', 1, 2)]) + swt_tasks(tier) + [lemma_task(['periodization', 'periodic'])] +
            [instance_task('convolution.c', ['downsampling_convolution_periodization'], rep_types(SWTC)),
             instance_task('wt.c', ['swt_a', 'swt_d'], rep_types(SWTC))] + tasks_C07(tier) + tasks_glue(tier, ('swt_max_level', 'swt', 'swt_axis')))
