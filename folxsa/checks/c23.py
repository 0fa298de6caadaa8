"""Tree helpers: each public helper of tree_utils is evaluated on symbolic trees (array, list, tuple, dictionary, nested with None, repeated leaf) and the
resulting leaves are compared, in order, with the model of the named array operation applied to the corresponding leaves."""
from .. import trees
RULE = 'same tree structure, each leaf = named operation of the corresponding leaves in operand order; reductions = sum over all leaves'
ASSUMPTIONS = ['library models (folxsa/m_*.py) describe numpy/jax correctly', 'the tree shapes of folxsa/trees.py stand for all trees']


def units(project):
    return list(trees.units())


def run_unit(project, uid):
    return trees.run(project, uid)
