"""Import of delimiter-separated values."""
import build, native


def binary(_=None):
    return build.build('dsv', 'dsv.cpp')


def run(ck):
    ck.rule = ('random tables of all types in all data layouts; files written cell by cell with random delimiter, quote and escape characters, permuted, missing and unknown columns in the header, skipped headers, row limits, '
               'empty cells, strings with delimiters, quotes, newlines and arbitrary bytes, values at and beyond the ends of their ranges, cells that are no value of their type, rows with too few or too many cells, '
               'files without final line end; read by the reader or an IMPORT statement into a table that may hold rows already; every value of every row is compared with what was written; '
               'a case is one table with its files, non-trivial when rows of several columns, invalid cells or malformed rows were read')
    native.modes(ck, binary(), [('import', 16, ck.n(700, 9000))], timeout=ck.n(300, 2400))
