"""Connected subgraphs and graph algorithms."""
import build, native


def binary(_=None):
    return build.build('graph', 'graph.cpp', sources=['util/AdjacencyMatrix.cpp', 'util/ADT.cpp', 'util/fn.cpp'], use_pch=False)


def run(ck):
    ck.rule = ('random graphs placed among up to 64 vertices; connected subgraphs, pairs and cuts enumerated by the library are compared, each with its multiplicity, with those found by '
               'testing every subset; closures, spanning forests, directed trees compared with their definitions; a case is one graph, non-trivial with more than one pair')
    k = ck.n(1, 12)
    native.modes(ck, binary(), [('csg', 12, 800 * k), ('matrices', 4, 2500 * k)], timeout=ck.n(300, 2400))
