"""Filters, projections and nested queries in FROM."""
from sqlcheck import profile


def run(ck):
    ck.rule = ('random queries over base tables, aliases and nested queries (up to two levels, themselves filtering, grouping and joining), '
               'compared as multisets with the reference answer; non-trivial: at least one row is produced')
    profile(ck, ck.n(48, 480), ck.n(5, 10), ck.n(55, 100), (2, 3), [0, 3, 20, 70, 130],
            dict(nested=.6, join=.15, group=.15, order=.1, limit=.1, where=.9))
