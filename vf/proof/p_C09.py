from pylib import TRUST as TRUSTED, ASSUME, BOUNDED
from q_C09 import tasks_C09 as tasks
