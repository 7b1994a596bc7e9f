"""Tokens."""
import native
from front import binary


def run(ck):
    ck.rule = ('texts put together from numbers, keywords, identifiers, strings, dates, punctuation, comments, instructions and other bytes, correct or nearly so, with or without anything between them; tokens are compared with those '
               'of a reference tokeniser; a case is one text, non-trivial with more than one token and a number, literal or error among them')
    native.modes(ck, binary(), [('lex', 24, ck.n(20000, 400000))], timeout=ck.n(300, 3000))
