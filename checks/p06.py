"""Answers do not depend on the configuration: enumerators, plan tables, cardinality estimates, layouts, stores."""
import itertools, json, os, re, tempfile
from client import Client, Died
from sqlcheck import *

ALL_LAYOUTS = LAYOUTS + ['PAX64M']
STORES = ['PaxStore', 'RowStore', 'ColumnStore']


def injection(rng, queries):
    """Random cardinalities for random subproblems of the queries."""
    seen, out = set(), []
    for q in queries:
        al = sorted(set(re.findall(r'\b[trq]\d+\b', q.sql)))[:7]
        for k in range(1, len(al) + 1):
            for c in itertools.combinations(al, k):
                if c not in seen and rng.random() < .8:
                    seen.add(c)
                    out.append({'relations': list(rng.sample(c, k)), 'size': rng.choice([1, 2, 10, 100, 1000, 10**6]) * rng.randint(1, 9)})
    return {'db': out}


def run(ck):
    ck.rule = ('every query of a random workload is executed under several configurations drawn from all plan enumerators, plan tables, cardinality estimators '
               '(Cartesian product, injected random cardinalities, sum-product networks), data layouts and stores; every answer must equal the reference answer; '
               'a case is one (query, configuration) with a non-empty answer')
    bin_ = binary()
    per_db = ck.n(10, 20)

    def shard(ck, k):
        cl = Client(bin_)
        tmp = tempfile.mkdtemp(prefix='hv-')
        try:
            for d in range(ck.n(3, 8)):
                rng = ck.rng(k, d)
                n = rng.randint(3, 6)
                big = rng.random() < .25
                db = [rand_table(rng, f't{i}', rng.choice([0, 100, 150, 300] if big and i < 1 else [1, 3, 8, 20, 33]), rng.randint(2, 4), first=[INT(4)],
                                 spread=rng.choice([3, 8, 20])) for i in range(n)]
                opts = dict(join=.92, max_src=rng.choice([4, 5, 6]), nested=.12, group=.2, order=.25, limit=.15, where=.4, depth=1, max_rows=3000, max_work=10**7)
                qs = [QGen(rng, db, **opts).query(1) for _ in range(per_db)]
                for c in range(3):
                    est = rng.choice(['CartesianProduct', 'Injected', 'Injected', 'Injected', 'Spn', 'Spn'])
                    setup = [('O', f'data_layout={rng.choice(ALL_LAYOUTS)}'), ('O', f'store={rng.choice(STORES)}')]
                    if est == 'Injected':
                        f = f'{tmp}/{d}-{c}.json'
                        json.dump(injection(rng, qs), open(f, 'w'))
                        setup += [('O', f'arg=--use-cardinality-file {f}')]
                    setup += [('O', 'cardinality_estimator=' + ('Injected' if est == 'Injected' else 'CartesianProduct')), ('R', '')]
                    setup += [('X', t.create()) for t in db] + [('X', s) for t in db for s in t.inserts(rng)]
                    if est == 'Spn': setup += [('S', '\\learn_spns;')]
                    try:
                        load(cl, setup)
                    except Died as e:
                        ck.violation('setup-crash:' + site(e), e.brief(), {'setup': setup, 'stderr': e.err[:4000]})
                        continue
                    except Setup as e:
                        ck.violation('setup-rejected', str(e)[:300], {'setup': setup})
                        continue
                    ck.count('est:' + est); ck.count(setup[0][1]); ck.count(setup[1][1])
                    for q in qs:
                        for _ in range(2):
                            en, pt = rng.choice(ENUMS), rng.choice(['dense', 'sparse', 'auto'])
                            conf = [('O', 'plan_enumerator=' + en), ('O', 'plan_table=' + pt)]
                            for x in conf: cl(*x)
                            if judge(ck, cl, q, setup + conf):
                                ck.count('enum:' + en); ck.count('table:' + pt)
                                ck.case((q.sql, c, en, pt, setup[0], setup[1], est), len(q.rows) > 0)
        finally:
            cl.close()
            for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
            os.rmdir(tmp)
    ck.shards(shard, range(ck.n(24, 160)))
