"""Scalar expressions: values, NULL propagation, three-valued logic and result types."""
from sqlcheck import profile


def run(ck):
    ck.rule = ('random single-table queries over random schemas and data whose SELECT and WHERE carry expressions up to depth 4; '
               'the answer and its types are compared with the reference semantics; non-trivial: at least one row is produced')
    ck.assumptions = ['overflow of the result type and division by zero are unspecified and not generated']
    profile(ck, ck.n(48, 480), ck.n(6, 12), ck.n(70, 120), (1, 1), [1, 5, 20, 70], dict(depth=4, where=.7), extreme=.02, wide=.12)
