"""ORDER BY, LIMIT, OFFSET."""
from sqlcheck import profile


def run(ck):
    ck.rule = ('random queries with ORDER BY (1 to 3 expressions, ascending and descending) and LIMIT/OFFSET around the number of rows and around '
               'the block size; blocks of equal sort keys are compared as multisets; non-trivial: at least one row is produced')
    profile(ck, ck.n(48, 480), ck.n(6, 12), ck.n(48, 90), (1, 2), [0, 1, 5, 20, 64, 65, 130, 200],
            dict(order=.85, limit=.6, group=.2, join=.1, max_src=2, where=.4, depth=2, nested=.15))
    # joins that produce many blocks per row, cut by limits and filtered from outside
    profile(ck, ck.n(12, 96), ck.n(4, 10), ck.n(20, 40), (2, 2), [1, 2, 5, 65, 130, 200, 260],
            dict(order=.25, limit=.8, group=.1, join=1, max_src=2, where=.2, depth=1, nested=.3, max_rows=20000), spread=True, ncols=(2, 3))
