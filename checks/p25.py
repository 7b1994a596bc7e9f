"""Accepted queries are answered."""
import native
from front import binary


def run(ck):
    ck.rule = ('queries generated along with their types over up to two sources, nested up to twice, with data in random layouts; each is executed again, within a nested query, with a limit, in three parts split by a '
               'random condition, or with another plan enumerator; a case is one query, non-trivial when it has rows')
    native.modes(ck, binary(), [('exec', 24, ck.n(2500, 40000))], timeout=ck.n(400, 3000))
