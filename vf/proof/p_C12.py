import pylib
from pylib import BOUNDED
from q_C12 import tasks_C12 as tasks
TRUSTED = pylib.TRUST[:2] + ['contracts of dwt, idwt, dwt2, idwt2, dwtn, idwtn (verified against their bodies under C06)']
ASSUME = pylib.ASSUME + ['trees are explored to depth 2 (1-D: 3); the node classes are recursive, one level per call',
                         'reconstruction of unmodified nodes uses the perfect-reconstruction lemma (C05)',
                         'reflecting modes: transformed extents of at least 8 samples; copying/pickling of WaveletPacketND by the bounded part']
