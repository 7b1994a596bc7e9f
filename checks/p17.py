"""Interning."""
import build, conc, native


def binary(_=None):
    return conc.conc(True)


def run(ck):
    ck.rule = ('random histories of interning, copying, moving and dropping references, by one thread against a model and by up to eight threads on one pool with injected delays: equal values share one address '
               'and one entry, contents and addresses stay, reference counts add up; a case is one history, non-trivial with two or more distinct values')
    adt = build.build('adt', 'adt.cpp', sources=['util/fn.cpp', 'util/memory.cpp'], use_pch=False)
    native.modes(ck, adt, [('pool', 4, ck.n(300, 4000))], timeout=ck.n(200, 1500))
    native.modes(ck, conc.conc(True), [('intern', 12, ck.n(120, 2500))], timeout=ck.n(300, 2400))
    native.modes(ck, conc.conc(False), [('intern', 4, ck.n(150, 2500))], timeout=ck.n(300, 2400))
