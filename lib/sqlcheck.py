"""Random databases and queries against the real system, judged by the reference semantics in refsql."""
import build
from client import Client, Died
from refsql import *

LAYOUTS = ['PAX4M', 'PAX4K', 'PAX64K', 'PAX512K', 'PAX16Tup', 'PAX128Tup', 'PAX1024Tup', 'Row']
ENUMS = ['DPccp', 'DPsize', 'DPsizeOpt', 'DPsizeSub', 'DPsub', 'DPsubOpt', 'GOO', 'TDGOO', 'IKKBZ', 'LinearizedDP',
         'TDbasic', 'TDMinCutAGaT', 'PEall']


class Setup(Exception):
    pass


def binary():
    return build.build('sqlrun', 'sqlrun.cpp')


def call(cl, setup, cmd, body, ck):
    """Runs one command after the given setup; a hang is confirmed once before it counts."""
    try:
        return cl(cmd, body)
    except Died as d:
        if 'hang' not in d.err[:80]: raise
        first = d
    old, cl.timeout = cl.timeout, 150
    try:
        for s in setup: cl(*s)
        return cl(cmd, body)
    except Died as d:
        if 'hang' in d.err[:80]:
            raise Died(cmd, body, -1, 'ERROR: no answer\n' + d.err) from None
        raise
    finally:
        cl.timeout = old


def load(cl, setup):
    for s in setup:
        r = cl(*s)
        if r['status'] != 'ok' or r['err']:
            raise Setup(f'{s}: {r}')


def site(d):
    """Stable identification of a crash: innermost frames within the library."""
    fr = []
    for l in d.err.splitlines():
        l = l.strip()
        if l.startswith('#') and '/repo/src' in l or l.startswith('#') and '/repo/include/mutable' in l:
            name = l.split(' in ', 1)[-1].split('(')[0]
            if '_insist' in name or 'unreachable' in name or name.startswith('m::as<'): continue
            fr.append(name)
            if len(fr) == 2: break
    return '<'.join(fr)


def judge(ck, cl, q, setup, cmd='Q'):
    """Runs one query; returns True if the answer was right."""
    ck.count('queries')
    rep = {'setup': [list(s) for s in setup], 'cmd': cmd, 'sql': q.sql}
    try:
        r = call(cl, setup, 'Q', q.sql, ck)
    except Died as d:
        ck.violation('crash:' + (site(d) or d.brief()[:80]), f'{d.brief()} on {q.sql}', dict(rep, stderr=d.err[:4000]))
        load(cl, setup)
        return False
    if r['status'] != 'ok':
        ck.violation('rejected:' + (r.get('what') or '')[:80], f"{r.get('what')} {r['err']} on {q.sql}", rep)
        return False
    d = q.check(r['types'], r['rows'])
    if d:
        f = sorted(x for x in q.features if not x.startswith('nested-'))
        ck.violation('answer:' + ','.join(f), f'{d}: {q.sql}', dict(rep, got=r['rows'][:200], expected=q.rows[:200]))
        return False
    n = len(r['rows'])
    ck.count('rows', n)
    for f in q.features: ck.count('q:' + f)
    ck.case((q.sql, n), n > 0, sample=f'{q.sql} -> {n} rows')
    return True


def config(rng, full=False):
    o = [('O', f'data_layout={rng.choice(LAYOUTS)}')]
    if full or rng.random() < .5:
        o.append(('O', f'plan_enumerator={rng.choice(ENUMS)}'))
        o.append(('O', f'plan_table={rng.choice(["dense", "sparse", "auto"])}'))
    else:
        o += [('O', 'plan_enumerator=DPccp'), ('O', 'plan_table=auto')]
    return o


def args(k):
    """Command-line options that must not change any answer; they stay in effect for the rest of the process."""
    return {5: [('O', 'arg=--no-attribute-reordering')], 11: [('O', 'arg=--pax-pack-one-tuple-less')]}.get(k % 12, [])


def profile(ck, shards, dbs, per_db, tables, sizes, opts, ncols=(2, 6), kinds=None, extreme=0.0, spread=False, wide=0.0):
    """shards × dbs databases with per_db queries each."""
    bin_ = binary()

    def shard(ck, k):
        cl = Client(bin_)
        try:
            for d in range(dbs):
                rng = ck.rng(k, d)
                n = rng.randint(*tables)
                db = []
                for i in range(n):
                    common = rng.random() < .4
                    nr = rng.choice(sizes) if rng.random() < .6 else rng.randint(0, max(sizes))
                    w = rng.random() < wide
                    if w: common, nr = False, min(nr, 20)
                    db.append(rand_table(rng, f't{i}', nr, rng.randint(20, 58) if w else rng.randint(*ncols), kinds=kinds, wide=w,
                                         names=list('abcdefgh') if common else None, first=[INT(4)], extreme=extreme,
                                         spread=rng.choice([2, 3, 8, 20]) if spread else None))
                setup = [('R', '')] + args(k) + config(rng) + [('X', t.create()) for t in db] + [('X', s) for t in db for s in t.inserts(rng)]
                try:
                    load(cl, setup)
                except Died as e:
                    ck.violation('setup-crash:' + site(e), e.brief(), {'setup': setup, 'stderr': e.err[:4000]})
                    continue
                except Setup as e:
                    ck.violation('setup-rejected', str(e)[:300], {'setup': setup})
                    continue
                ck.count('databases')
                bad = 0
                for j in range(per_db):
                    o = dict(opts)
                    if callable(o.get('vary')): o.update(o.pop('vary')(rng))
                    q = QGen(rng, db, **o).query(2)
                    if not judge(ck, cl, q, setup):
                        bad += 1
                        if bad > 5: break
        finally:
            cl.close()
    ck.shards(shard, range(shards))
