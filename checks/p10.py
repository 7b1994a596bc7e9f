"""Indexes."""
import build, native


def binary(_=None):
    return build.build('index', 'index.cpp')


def run(ck):
    ck.rule = ('arrays: random multisets of keys of all 14 index types (dense, crowded, outlying, extreme, denormal, equal keys, up to 8000 entries), entries added in one or two rounds: contents, order, lower and upper bounds against '
               'a linear scan; catalog: random histories of CREATE/DROP INDEX and TABLE, INSERT, IMPORT and queries on nullable columns of all types in any data layout, after each command the indexes that exist, '
               'their contents, and those offered to queries are compared with a model; a case is one index or one history, non-trivial with two or more entries or with an index created')
    native.modes(ck, binary(), [('arrays', 8, ck.n(2800, 30000)), ('catalog', 8, ck.n(500, 6000))], timeout=ck.n(300, 2400))
