"""Builds of the concurrent harnesses; operations on mutexes are wrapped, such that delays can be injected around them."""
import build

WRAP = ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock']
WAIT = ['-Wl,--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE']
SRC = ['util/fn.cpp', 'util/memory.cpp']


def conc(tsan):
    return build.build('conc-tsan' if tsan else 'conc', 'conc.cpp', flags=build.TSAN if tsan else build.ASAN, sources=SRC, use_pch=False, extra_link=WRAP + WAIT)


def sched():
    return build.build('sched', 'sched.cpp', flags=['-O0', '-g1', '-fsanitize=thread'], extra_link=WRAP)
