"""Robustness of the front end."""
import native
from front import binary


def run(ck):
    ck.rule = ('grammar-generated and meaningful statements, mutated at token and byte level, plus random bytes, go through lexer, parser, printers and semantic analysis; statements around an erroneous one '
               'are compared with what they read as alone; a case is one program, non-trivial with more than three tokens')
    k = ck.n(1, 12)
    native.modes(ck, binary(), [('fuzz', 32, 2500 * k), ('recovery', 8, 3000 * k)], timeout=ck.n(300, 3000))
