"""Shared by the properties decided on the interpreter of traced programs."""
from .. import scen
from ..oracle import Outcome

ASSUMPTIONS = [
    'a traced program is a list of equations over variables, as jax.make_jaxpr returns it; the primitives bind and the registered rules are stand-ins that record what they are given',
    'the program shapes of folxsa/scen.py stand for all programs: the interpreter treats equations one after another and independently of their number',
    'library models (folxsa/m_*.py) describe numpy/jax/logging correctly',
]
_u = {}


def table(name):
    if name not in _u:
        _u[name] = getattr(scen, name)()
    return _u[name]


def run(project, name, uid, parts):
    out, r = scen.run(project, table(name)[uid], parts)
    return out
