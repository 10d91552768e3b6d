"""C30: Ford-Fulkerson returns a maximum flow."""
from props import flowcommon as F

METHOD = "ford_fulkerson"
LABELS = F.LABELS
NOTE = F.NOTE
BOUNDS = F.bounds(6, 8)


def cases(tier, seed):
    return F.cases(METHOD, tier)


flow = F.flow
invalid = F.invalid
