import pylib
from q_C14 import tasks_C14 as tasks
TRUSTED = pylib.TRUST[:2] + ['clang and the sanitizers, which run the compiled filter tables', 'CBMC']
ASSUME = ['the filters of a built-in wavelet are a closed finite computation: it is carried out and judged exactly (rational arithmetic); tolerance 1e-9 (dmey 1e-2) as stated in the property',
          'orthogonal_filter_bank: real arithmetic; the sum of the scaling filter is not zero']
BOUNDED = []
