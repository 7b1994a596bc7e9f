"""Cardinality estimators: Cartesian products, injected cardinalities, sum-product networks."""
import build, native


def binary(_=None):
    return build.build('estimate', 'estimate.cpp')


def run(ck):
    ck.rule = ('inject: random databases, queries of up to five sources and files of injected cardinalities, well-formed, malformed and duplicate entries included: every scan, filter, limit, grouping, pairwise join and join of all sources '
               'against the value the file and the rows determine; large: the same for cardinalities up to 2^64, products saturating; spn: estimates of learned networks against the rows: exact for single predicates on discrete attributes, bounded by every '
               'predicate, by the inputs of joins and groupings, and by frequencies, independent of the order of inputs; a case is non-trivial with several sources or filters')
    native.modes(ck, binary(), [('inject', 8, ck.n(300, 12000)), ('large', 4, ck.n(400, 12000)), ('spn', 16, ck.n(50, 1200))], timeout=ck.n(400, 2400))
