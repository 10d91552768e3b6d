"""C31: preflow push returns a maximum flow."""
from props import flowcommon as F

METHOD = "preflow_push"
LABELS = F.LABELS
NOTE = F.NOTE
BOUNDS = F.bounds(5, 6)


def cases(tier, seed):
    return F.cases(METHOD, tier)


flow = F.flow
invalid = F.invalid
