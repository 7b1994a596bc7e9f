"""Runs harnesses that carry their own oracle, one process per (mode, shard), and collects what they observed."""
import json, os, subprocess, sys
from client import SAN_ENV, Died
from sqlcheck import site


def _run(cmd, env, timeout, cwd):
    try:
        p = subprocess.run([str(c) for c in cmd], capture_output=True, env=env, timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1')


def run_one(ck, binary, mode, shard, n, timeout=300, env=None, cwd=None, **opts):
    args = [f'mode={mode}', f'shard={shard}', f'n={n}', f'seed={ck.seed}', f'thorough={int(not ck.quick)}', *[f'{k}={v}' for k, v in opts.items()]]
    e = dict(os.environ, **SAN_ENV, **(env or {}))
    rc, out, err = _run([binary, *args], e, timeout, cwd)
    rep = {'native': True, 'args': args}
    if rc is None:   # a hang counts only if it repeats with more time
        rc, out2, err2 = _run([binary, *args], e, timeout * 2, cwd)
        if rc is None:
            ck.violation(f'hang:{mode}', f'no progress within {timeout*2} s in {mode} shard {shard}', dict(rep, out=out[-2000:], stderr=err[-2000:]))
            return
        out, err = out2, err2
        ck.inconclusive.append(f'{mode} shard {shard}: slow first attempt')
    done, case = False, None
    for l in out.splitlines():
        if not l.startswith('{'): continue
        try: o = json.loads(l)
        except ValueError: continue
        ev = o['e']
        if ev == 'done': done = True
        elif ev == 'dying': case = o['case']
        elif ev == 'violation': ck.violation(o['key'], o['what'] + f" [{o['case'][:300]}]", dict(rep, case=o['case']))
        else: ck.native(l)
    if rc == 2 and 'no mode' in err:
        raise RuntimeError(err)
    if not done or rc:
        d = Died(mode, '', rc, err)
        ck.violation(f'crash:{mode}:' + (site(d) or d.brief()[:80]), f'{d.brief()} in {mode} [{(case or "")[:600]}]', dict(rep, case=case, stderr=err[:5000]))


def modes(ck, binary, plan, timeout=300, env=None, cwd=None):
    """plan: list of (mode, shards, cases per shard[, options])"""
    items = [(p[0], s, p[2], p[3] if len(p) > 3 else {}) for p in plan for s in range(p[1])]
    ck.shards(lambda sub, it: run_one(sub, binary, it[0], it[1], it[2], timeout, env, cwd, **it[3]), items)
