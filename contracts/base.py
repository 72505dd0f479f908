"""Shared specification functions and lemmas."""
from vc.spec import Library

FD = 'Opm::FlowDiagnostics::'


def make_lib():
    L = Library()
    # sum of a[lo..hi)
    L.fn('rsum', [('a', 'rarr'), ('lo', 'int'), ('hi', 'int')], 'real',
         '0 if hi <= lo else rsum(a, lo, hi-1) + a[hi-1]')
    L.lemma('rsum_none', [('a', 'rarr'), ('lo', 'int')], [], 'rsum(a, lo, lo) == 0')
    return L
