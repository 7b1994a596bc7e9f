"""Joins."""
from sqlcheck import profile


def run(ck):
    ck.rule = ('random queries joining 2 to 5 relations (self joins, equality, inequality, arithmetic and disjunctive conditions, cycles, NULL keys) '
               'plus filters, compared as multisets with the reference answer; non-trivial: at least one row is produced')
    ck.assumptions = ['the join graph is connected (Cartesian products are not supported)']
    profile(ck, ck.n(48, 480), ck.n(5, 10), ck.n(36, 80), (2, 4), [0, 1, 5, 12, 30, 70, 120],
            dict(join=1, max_src=5, where=.3, depth=1, nested=.1), spread=True)
