"""Container classes."""
import native
from p21 import binary


def run(ck):
    ck.rule = ('random operation histories on every container next to a model built from standard containers, all observers compared; '
               'set operations also on structured words (empty, full, single bits, runs); a case is one history or one pair of words')
    k = ck.n(1, 12)
    native.modes(ck, binary(), [('bitset', 8, 12000 * k), ('subsets', 8, 400 * k), ('list', 8, 1500 * k), ('refmap', 8, 1500 * k), ('arrays', 8, 1000 * k)],
                 timeout=ck.n(200, 1500))
