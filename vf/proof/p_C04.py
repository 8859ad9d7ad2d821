from ktasks import *
from q_glue import tasks_glue, GLUE_TRUST, GLUE_ASSUME
TRUSTED = CREAL + GLUE_TRUST
ASSUME = GLUE_ASSUME


def tasks(tier):
    return (kernel_tasks([('full',), ('valid', 'zero'), ('valid', 'periodization')]) + rec_tasks() + idwt_tasks() + [lemma_task(['periodic'])] +
            [instance_task('convolution.c', ['upsampling_convolution_full', 'upsampling_convolution_valid_sf'], rep_types(IDWTC + UPC)),
             instance_task('wt.c', ['rec_a', 'rec_d', 'idwt'], rep_types(IDWTC + UPC))] + tasks_glue(tier, ('idwt_single', 'upcoef')))
