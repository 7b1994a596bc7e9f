"""Reader-writer lock."""
import conc, native


def binary(_=None):
    return conc.conc(True)


def run(ck):
    ck.rule = ('lockstep schedules of random lock operations by two to five threads, where a model tells who must be granted and who must wait, and free-running stress with injected delays under ThreadSanitizer; '
               'a case is one schedule, non-trivial when a thread had to wait (lockstep), or one stress run, told apart by the order in which its critical sections ran')
    native.modes(ck, conc.conc(True), [('lockstep', 8, ck.n(900, 12000)), ('stress', 8, ck.n(120, 2500))], timeout=ck.n(300, 2400))
    native.modes(ck, conc.conc(False), [('lockstep', 8, ck.n(900, 12000)), ('stress', 8, ck.n(120, 2500))], timeout=ck.n(300, 2400))
