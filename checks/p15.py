"""Parsing and printing."""
import native
from front import binary


def run(ck):
    ck.rule = ('statements generated from the grammar, with random optional parts, operator nesting, parentheses, white space and comments, together with the tree they denote; the parsed tree, the tree of its printed '
               'form and the printed form of that are compared; a case is one statement, non-trivial when its tree has more than a few nodes')
    native.modes(ck, binary(), [('roundtrip', 24, ck.n(2000, 40000))], timeout=ck.n(300, 3000))
