from pylib import TRUST as TRUSTED, ASSUME, BOUNDED
from q_C08 import tasks_C08
from q_C08b import tasks_C08b


def tasks(tier):
    return tasks_C08(tier) + tasks_C08b(tier)
