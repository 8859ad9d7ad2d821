import pylib
from q_C11 import tasks_C11 as tasks
TRUSTED = pylib.TRUST[:1] + ["np.pad: its modes constant, edge, wrap, symmetric, reflect (even and odd) are the extensions of those names axis by axis, and a callback is called "
                             "with every line of the padded array, axis after axis", 'other numpy contracts (vf/proof/pyvc.py, class NP)']
ASSUME = pylib.ASSUME[:1] + ['extents are at least 1, widths any integers', 'ranks 1 to 3 and the forms of the pad widths enumerated']
BOUNDED = ['concrete extents 1 to 3 with widths up to 8 (contents symbolic) for the two callbacks, beside the unbounded proof of their loops']
