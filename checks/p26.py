"""Learned models: sum-product networks, clustering, regression, grid search."""
import build, native


def binary(_=None):
    return build.build('learn', 'learn.cpp')


def run(ck):
    ck.rule = ('spn: random tables of up to 12 discrete and continuous columns and 300 rows (constant, dependent, clustered, outlying, NULL): after learning, after inserting and updating rows, and after deleting them again, '
               'every single-attribute likelihood, bound, expectation, and number of distinct values against the rows themselves, and the laws of probability for conjunctions; table: the same for SPNs learned from tables of all types; '
               'kmeans: centroids, labels and CDFs of random points; grid: linear spaces, grid search, distinct numbers and regression of linear functions; a case is non-trivial with at least two rows')
    native.modes(ck, binary(), [('spn', 16, ck.n(110, 3000)), ('table', 16, ck.n(70, 2500)), ('kmeans', 4, ck.n(1500, 50000)), ('grid', 4, ck.n(1500, 50000))], timeout=ck.n(400, 2400))
