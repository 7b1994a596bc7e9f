"""Utility functions on strings and numbers."""
import native
from p21 import binary


def run(ck):
    ck.rule = ('random strings over small alphabets rich in special characters and numbers around powers of two and type limits, judged by independent '
               'definitions; a case is one set of arguments')
    k = ck.n(1, 12)
    native.modes(ck, binary(), [('strings', 8, 8000 * k), ('args', 4, 6000 * k), ('numbers', 8, 12000 * k)], timeout=ck.n(200, 1500))
