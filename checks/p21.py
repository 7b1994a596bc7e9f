"""Allocators and page-granular memory."""
import build, native


def binary(_=None):
    return build.build('adt', 'adt.cpp', sources=['util/fn.cpp', 'util/memory.cpp'], use_pch=False)


def run(ck):
    ck.rule = ('random histories of allocations and deallocations in any order on every allocator; live blocks are disjoint, aligned and keep their '
               'contents; memory is reclaimed; a case is one history and counts as non-trivial when blocks of several sizes were live at once')
    native.modes(ck, binary(), [('alloc', 8, ck.n(1500, 20000)), ('coalesce', 4, ck.n(1000, 12000)), ('mem', 8, ck.n(400, 4000))], timeout=ck.n(200, 1500))
