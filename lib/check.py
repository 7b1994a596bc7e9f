"""Frame of a check: counts what was observed, matches violations with the known findings, writes the evidence."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVID = VERIF / 'evidence'
KNOWN = VERIF / 'known-findings.txt'


def known_findings(prop):
    """Lines `known: property=<id> key=<key> | <what fails>`; a key names one specific input, call site or history."""
    out = {}
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            if l.startswith(f'known: property={prop} key='):
                k, _, w = l.split(' key=', 1)[1].partition(' | ')
                out[k.strip()] = w.strip()
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []      # (key, what, replay dict)
        self.inconclusive = []
        self.rule = ''
        self.assumptions = []
        self.level = 'exploration'

    quick = property(lambda s: s.tier == 'quick')

    def n(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def rng(self, *tag):
        return random.Random(f'{self.prop}/{self.seed}/' + '/'.join(map(str, tag)))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:10])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def violation(self, key, what, replay):
        self.violations.append((key, what, replay))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        for k, v in o.counters.items(): self.count(k, v)
        self.samples = (self.samples + o.samples)[:6]
        self.violations += o.violations
        self.inconclusive += o.inconclusive

    def shards(self, fn, items, workers=None):
        """Runs fn(sub-check, item) for every item in worker processes; the items, not the workers, determine the cases."""
        items = list(items)
        workers = min(workers or int(os.environ.get('VERIF_JOBS', '8')), len(items)) or 1
        global _job
        _job = _Job(self, fn)   # inherited by fork
        with mp.get_context('fork').Pool(workers) as pool:
            for r in pool.imap(_call, items, chunksize=1):
                if isinstance(r, str):
                    raise HarnessError(r)
                self.merge(r)

    # ---- C++ harnesses that carry their own oracle
    def native(self, line):
        """One line of harness output: {"e":"case"|"count"|"violation"|"sample", …}"""
        o = json.loads(line)
        e = o['e']
        if e == 'cases':
            self.evaluations += o['n']
            for h in o.get('h', ()): self.distinct.add(h)
        elif e == 'count': self.count(o['k'], o['n'])
        elif e == 'sample':
            if len(self.samples) < 6: self.samples.append(o['s'])
        elif e == 'violation': self.violation(o['key'], o['what'], {'native': o})
        elif e == 'inconclusive': self.inconclusive.append(o['what'])

    def finish(self):
        known = known_findings(self.prop)
        seen, bad = {}, []
        for key, what, rep in self.violations:
            if key in known: seen[key] = seen.get(key, 0) + 1
            else: bad.append((key, what, rep))
        for k in seen:
            print(f'KNOWN-FINDING: property={self.prop} {known[k]} [{k}]')
        EVID.mkdir(exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples, 'observed': dict(sorted(self.counters.items()))}
        if seen: cov['known_findings_seen'] = seen
        if self.inconclusive: cov['inconclusive'] = self.inconclusive[:20]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(bad)}
        (EVID / f'{self.prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
        print(f'[{self.prop}] {self.tier} seed={self.seed}: {self.evaluations} evaluations, {len(self.distinct)} distinct non-trivial, '
              f'{len(bad)} violations, {len(self.inconclusive)} inconclusive, {time.time()-self.t0:.0f}s', file=sys.stderr)
        if bad:
            groups = {}
            for key, what, rep in bad: groups.setdefault(key, []).append((what, rep))
            for i, (key, l) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))[:5]):
                what, rep = min(l, key=lambda x: len(json.dumps(x[1], default=str)))
                p = EVID / f'{self.prop}-violation-{i}.json'
                p.write_text(json.dumps({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': what,
                                         'occurrences': len(l), 'replay': rep}, indent=1, default=str) + '\n')
                print(f'  {key}: {what}'[:1200], file=sys.stderr)
                print(f'VIOLATION property={self.prop} replay={p}')
            return 1
        if self.evaluations == 0 or not self.distinct:
            print('the run observed nothing', file=sys.stderr)
            return 3
        return 0


class HarnessError(Exception):
    pass


_job = None


def _call(item):
    return _job(item)


class _Job:
    def __init__(self, ck, fn):
        self.prop, self.tier, self.seed, self.fn = ck.prop, ck.tier, ck.seed, fn

    def __call__(self, item):
        sub = Check(self.prop, self.tier, self.seed)
        try:
            self.fn(sub, item)
        except Exception:
            return traceback.format_exc()
        return sub
