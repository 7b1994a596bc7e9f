"""Histories of commands on the catalog."""
import build, native


def binary(_=None):
    return build.build('catalog', 'catalog.cpp')


def run(ck):
    ck.rule = ('random histories of CREATE, DROP, USE, INSERT, IMPORT and SELECT statements, valid and invalid, over three databases, through the shell loop, the command interface, execute_statement, execute_file and '
               'load_from_CSV, in any data layout and store, plain and multi-versioning; after every step output, diagnostics and the whole catalog are compared with a model, at the end the contents of all tables; '
               'a case is one history, non-trivial when more than two statements took effect')
    native.modes(ck, binary(), [('histories', 16, ck.n(220, 5000))], timeout=ck.n(400, 2400))
