"""Automatic batching: the public auto_batched_vmap is followed with recording stand-ins for the estimate and the batched map, for 572 combinations of measured
costs, memory limit and fraction, eight argument arrangements and ten failures; the batch size of the map that produces the result is compared with the
solution of the linear memory model (exact rational arithmetic), and the arguments, axes and static arguments handed on are compared with the caller's."""
from .. import auto
RULE = 'batch size = max(1, floor((fraction * limit - base) / element cost)); unbounded for zero cost; one after any failure while estimating'
ASSUMPTIONS = ['the memory statistics of a device are a dictionary with bytes_limit, None, or raise', 'costs and limits are sampled numbers; element costs are not negative']


def units(project):
    return auto.units()


def run_unit(project, uid):
    return auto.run(project, uid)
