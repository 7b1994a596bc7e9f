"""Data layouts, stores, compiled tuple access."""
import build, native


def binary(_=None):
    return build.build('store', 'store.cpp')


def run(ck):
    ck.rule = ('random schemas in random layouts (every factory with random block sizes, and random trees of up to four levels): columns are disjoint, aligned and within their block; '
               'random sequences of compiled stores and loads at random rows and subsets of attributes against a bit-level model of the whole memory; a case is one layout with its '
               'sequence of operations, non-trivial when more than one tuple was moved')
    k = ck.n(1, 12)
    native.modes(ck, binary(), [('layout', 4, 2500 * k), ('access', 16, 400 * k), ('stores', 2, 300 * k), ('manip', 4, 2500 * k)], timeout=ck.n(300, 2400))
