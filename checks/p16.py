"""Semantic analysis."""
import native
from front import binary


def run(ck):
    ck.rule = ('queries over up to two sources and two levels of nested queries, insertions and table definitions, generated along with their types by rules of their own, half of them with rules broken on purpose; '
               'acceptance and the types of all expressions are compared; a case is one statement')
    native.modes(ck, binary(), [('sema', 24, ck.n(12000, 160000))], timeout=ck.n(300, 3000))
