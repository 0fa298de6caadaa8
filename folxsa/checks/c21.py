"""Memory estimation: the public compute_memory is followed on 37 abstract programs (chains, reuse, several results, constants, literals, nested calls, loops and
their combinations) with concrete shapes and dtypes; every variable in turn is made the large one, so that its accounting decides the peak.  The number
returned is compared with the peak read off the program; argument arrangements with static arguments and keywords and operations that print are included."""
from .. import mem
RULE = 'estimate = max over equations of bytes of live tensors + peak of the nested program; other output is printed'
ASSUMPTIONS = ['library models (folxsa/m_*.py) describe numpy/jax and the traced program format correctly',
               'inputs and constants of a (nested) program stay live while it is evaluated; results nobody uses are not part of the programs']


def units(project):
    return mem.units()


def run_unit(project, uid):
    return mem.run(project, uid)
