from ktasks import *
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
TRUSTED = CREAL + GLUE_TRUST
ASSUME = GLUE_ASSUME


def tasks(tier):
    return (kernel_tasks([('down', m) for m in MODES if m != 'periodization'] + [('per', 2, 1)]) + dec_tasks() + [lemma_task()] +
            [instance_task('convolution.c', ['downsampling_convolution', 'downsampling_convolution_periodization'], rep_types(DWTC)),
             instance_task('wt.c', ['dec_a', 'dec_d'], rep_types(DWTC))] + tasks_glue(tier, ('dwt_coeff_len', 'dwt_single', 'downcoef')))
