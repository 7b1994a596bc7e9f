"""Plan enumerators."""
import build, native


def binary(_=None):
    return build.build('plan', 'plan.cpp', heuristic=True)


def run(ck):
    ck.rule = ('random connected join graphs (chains, cycles, stars, cliques, trees, mixed) with random cardinalities and cost functions; every plan of every enumerator in both plan tables is checked '
               'for being a tree of joins of connected parts whose cost is as recorded, and compared with the optimum found by brute force; a case is one problem, non-trivial with three or more relations')
    k = ck.n(1, 10)
    confs = [('hs', 1, 60 * k, {'conf': c}) for c in range(122)]
    native.modes(ck, binary(), [('enum', 16, 250 * k), *confs], timeout=ck.n(300, 2400))
