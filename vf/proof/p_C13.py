import pylib
from pylib import BOUNDED
from q_C13 import tasks_C13 as tasks
TRUSTED = pylib.TRUST[:2] + ['contracts of the forward transforms (verified against their bodies under C07 and C08)']
ASSUME = pylib.ASSUME + ['the inverse transforms are linear and invert the forward transforms: linearity is the form of the contracts proved from C under C04, inversion is C07 and C08']
