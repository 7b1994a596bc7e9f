"""Multi-versioning."""
import build, native


def binary(_=None):
    return build.build('mvcc', 'mvcc.cpp')


def run(ck):
    ck.rule = ('random histories of INSERT and IMPORT statements at random transaction times and of ended versions, on one or two multi-versioning tables in any data layout; queries of ten shapes at random times, '
               'several per transaction, must print what they print on a plain database of exactly the rows visible then; a case is one history, non-trivial when some rows are visible and some are not')
    native.modes(ck, binary(), [('history', 16, ck.n(120, 2500))], timeout=ck.n(300, 2400))
