import psi, pylib
from q_C15 import tasks_C15
TRUSTED = ['clang 18 parses the C source (AST in JSON); sympy simplification of exact expressions', 'real arithmetic for C floating point; libm exp, cos, sin, sqrt, pow as the exact functions'] + pylib.TRUST[:2]
ASSUME = ['B-spline orders 1 to 6 are proved one by one (the parameter M of fbsp)', 'np.convolve, np.fft, np.cumsum, np.linspace by their contracts (fft: the convolution theorem)'] + pylib.ASSUME
BOUNDED = pylib.BOUNDED


def tasks(tier):
    return psi.tasks(tier) + tasks_C15(tier)
