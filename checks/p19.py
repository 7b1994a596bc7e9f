"""Serial scheduler."""
import conc, native


def binary(_=None):
    return conc.sched()


def run(ck):
    ck.rule = ('up to eight clients schedule transactions of probe commands (some erroneous, failing or throwing) and INSERT statements with injected delays; the event log of every run is checked for exactly-once execution, '
               'no overlap, order within and between transactions, isolation, start times and results; a case is one run, told apart by the order in which the clients were served, non-trivial when it switched between clients')
    native.modes(ck, conc.sched(), [('history', 8, ck.n(250, 4000)), ('data', 8, ck.n(40, 600)), ('closing', ck.n(40, 600), 1)], timeout=ck.n(300, 2400))
