from .. import views
from . import rulebase as B


def evaluate(project, uid, parts):
    o = views.run(project, uid)
    r = B.restrict(o, parts)
    r.reach = o.reach
    return r


def units(*prefix):
    return [u for u in views.units() if not prefix or u.startswith(prefix)]
