"""Conjunctive normal forms."""
import native
from front import binary


def run(ck):
    ck.rule = ('random boolean expressions of up to five distinct atoms, sent through parser, semantic analysis and conversion; expression, normal form, conjunction, disjunction, negation and '
               'printed form are evaluated under all assignments of true, false and NULL to the atoms; a case is a pair of expressions, non-trivial with more than one clause')
    native.modes(ck, binary(), [('cnf', 16, ck.n(700, 15000))], timeout=ck.n(300, 3000))
