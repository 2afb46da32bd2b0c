"""Shared analysis of the searches of a collector."""
from .common import *

RCACHE = sym('resolvecache')
ITEMS = attr(SELF, '_items')
LOG = attr(SELF, 'report_log')
SUBSET_OPAQUE = {'FootprintBase.footprint_couldbe', 'Collector._fasttrack_subsetting', 'FootprintLog.add'}


def search_state():
    return State().assume(isnone(LOG), False, False).assume(isnone(RCACHE), False, False)


def is_subset(c):
    c = strip_view(c)
    if c == ITEMS:
        return True
    if c[0] == 'call' and c[1] == 'Collector._fasttrack_subsetting':
        return c[2] == SELF and dict(c[4]).get('desc') == DESC
    return None if tainted(c) else False


def couldbe(x):
    """Matches a call of footprint_couldbe on x for the description (whatever the report)."""
    return lambda c: c[0] == 'call' and c[1] == 'FootprintBase.footprint_couldbe' and c[2] == x and dict(c[4]).get('rd') == DESC


def couldbe_of(terms, x):
    found = []

    def look(t):
        if couldbe(x)(t) and t not in found:
            found.append(t)
        return False
    for t in terms:
        mentions(t, look)
    return found
