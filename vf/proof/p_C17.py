from ktasks import *
import pylib
from q_C17 import tasks_C17
TRUSTED = CREAL + pylib.TRUST
ASSUME = pylib.ASSUME + ['numpy dtype promotion and can_cast are those of the numpy of this environment', 'dtypes enumerated (17 types; mixed bands: one odd band out of pairs of types)',
                         'levels 1 and 2; the code is uniform in the level, but that is not proved']
BOUNDED = pylib.BOUNDED


def tasks(tier):
    return ([instance_task('convolution.c', ['downsampling_convolution', 'downsampling_convolution_periodization', 'upsampling_convolution_full',
                                             'upsampling_convolution_valid_sf', 'upsampling_convolution_valid_sf_periodization'], rep_types(DWTC + IDWTC + UPC + SWTC)),
             instance_task('wt.c', ['dec_a', 'dec_d', 'rec_a', 'rec_d', 'idwt', 'swt_a', 'swt_d'], rep_types(DWTC + IDWTC + UPC + SWTC))] + tasks_C17(tier))
