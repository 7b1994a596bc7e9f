"""Grouping and aggregation."""
from sqlcheck import profile


def run(ck):
    ck.rule = ('random GROUP BY / HAVING / aggregate queries (0 to 3 keys, expressions as keys and arguments, NULLs, empty inputs, occasionally joins) '
               'compared with the reference answer; non-trivial: at least one row is produced')
    ck.assumptions = ['AVG, and SUM over results of a floating-point division, are compared with relative tolerance 1e-9']
    profile(ck, ck.n(48, 480), ck.n(6, 12), ck.n(55, 100), (1, 3), [0, 1, 5, 20, 70, 150],
            dict(group=1, join=.2, max_src=3, where=.5, depth=3, nested=.1))
