"""Writes /verif/seeded/<id> from edits against a scratch worktree of /repo and a demonstration."""
import json, os, shutil, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent
W = Path(os.environ.get('SEEDWT', '/tmp/seedwt'))
BASE = '916bb3f'


def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout


def seed(id, prop, needs, breaks, edits, sql=None, files=None, cpp=None, lib=True):
    if not W.exists(): sh('git', '-C', '/repo', 'worktree', 'add', '--detach', '-f', str(W), 'HEAD')
    sh('git', '-C', str(W), 'checkout', '-q', '--detach', '-f', sh('git', '-C', '/repo', 'rev-parse', 'HEAD').strip())
    for f, old, new in edits:
        p = W / f
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    d = sh('git', '-C', str(W), 'diff')
    sh('git', '-C', str(W), 'checkout', '-q', '-f', '.')
    rem = [l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    base = {l for f, _, _ in edits for l in sh('git', '-C', '/repo', 'show', f'{BASE}:{f}').splitlines()}
    if not any(l in base for l in rem): print(id, 'WARNING: changes no line of the original repository')
    if any(l not in base for l in rem): print(id, 'WARNING: changes lines of a fix:', [l for l in rem if l not in base])
    D = V.parent / 'seeded' / id
    D.mkdir(parents=True, exist_ok=True)
    (D / 'patch.diff').write_text(d)
    (D / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    if sql is not None:
        (D / 'script.sql').write_text(sql.strip() + '\n')
        for f in ('sql_demo.cpp', ): shutil.copy(V / 'seedlib' / f, D / f)
        shutil.copy(V / 'seedlib' / 'sql_demo.sh', D / 'demo.sh')
        subprocess.run(['bash', '-c', f': > {D}/expected.txt; cd /repo && bash {D}/demo.sh > /tmp/seeds/{id}.diff 2>&1; sed -n "s/^> //p" /tmp/seeds/{id}.diff'])
        out = subprocess.run(['sed', '-n', 's/^> //p', f'/tmp/seeds/{id}.diff'], capture_output=True, text=True).stdout
        if out: (D / 'expected.txt').write_text(out)
    if cpp is not None:
        (D / 'demo.cpp').write_text(cpp)
        shutil.copy(V / 'seedlib' / ('cpp_demo.sh' if lib else 'hdr_demo.sh'), D / 'demo.sh')
    for f, t in (files or {}).items(): (D / f).write_text(t)
