"""Builds harnesses against the library sources of /repo's current working tree.

Objects live in /verif/.cache (git-ignored) and are keyed by the flags, the source text and a digest of every header, so
a change anywhere in /repo/src or /repo/include is always picked up.
"""
import concurrent.futures as cf, hashlib, os, subprocess, sys, time
from pathlib import Path

REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
CACHE = VERIF / '.cache'
HARNESS = VERIF / 'harness'

SLOW = ['util/RDC.cpp', 'util/WebSocketServer.cpp', 'parse/Sema.cpp', 'catalog/CardinalityEstimator.cpp', 'storage/Index.cpp',
        'IR/PlanEnumerator.cpp']
DIRS = ['.', 'backend', 'IR', 'catalog', 'io', 'lex', 'parse', 'storage', 'util']
# Parts that need V8, readline, gurobi or their own main(); and the expensive template instantiation.
EXCLUDE = {'shell.cpp', 'lex.cpp', 'parse.cpp', 'check.cpp', 'cardinality_gen.cpp', 'allocator_benchmark.cpp',
           'query_slicer.cpp', 'train-operator-model.cpp', 'gen-ast.cpp'}
EXCLUDE_PREFIX = ('backend/Wasm', 'backend/WebAssembly', 'backend/V8', 'backend/PhysicalOp')
HEURISTIC = 'IR/HeuristicSearchPlanEnumerator.cpp'

ASAN = ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
TSAN = ['-O1', '-g1', '-fsanitize=thread']
PLAIN = ['-O0', '-g0']
PLAIN1 = ['-O1', '-g1']


class BuildError(Exception):
    pass


def base_flags():
    return ['-std=c++20', '-W', '-Wno-everything', '-mavx2', '-mbmi2', '-mavx', '-msse4.2', '-mbmi',
            '-fno-omit-frame-pointer', '-stdlib=libstdc++', '-DM_ENABLE_SANITY_FIELDS', '-DMUTABLE_VERIF',
            '-I' + str(CACHE / 'overlay'), '-I' + str(CACHE / 'overlay' / 'mutable'), '-I' + str(REPO / 'include'), '-I' + str(REPO / 'src'), '-I' + str(HARNESS),
            '-isystem', '/usr/include/eigen3', '-isystem', '/opt/vp/include']


def overlay():
    """Supplies the generated headers where /repo's build has not generated them."""
    o = CACHE / 'overlay' / 'mutable'
    o.mkdir(parents=True, exist_ok=True)
    want = {'gitversion.tbl': 'X(GIT_REV, "verif")\nX(GIT_BRANCH, "verif")\nX(SEM_VERSION, "0")\n',
            'mutable-config.hpp': '#pragma once\n#define M_EXPORT\n#define M_NO_EXPORT\n#define M_DEPRECATED __attribute__ ((__deprecated__))\n'
                                  '#define M_DEPRECATED_EXPORT M_EXPORT M_DEPRECATED\n#define M_DEPRECATED_NO_EXPORT M_NO_EXPORT M_DEPRECATED\n'}
    for n, t in want.items():
        p = o / n
        if not p.exists() or p.read_text() != t:
            p.write_text(t)


_hd = None


def headers_digest():
    global _hd
    if _hd is None:
        h = hashlib.sha1()
        for root in (REPO / 'include', REPO / 'src', HARNESS):
            for p in sorted(root.rglob('*')):
                if p.suffix in ('.hpp', '.h', '.tbl', '.inc') and p.is_file() and p.name not in ('gitversion.tbl', 'mutable-config.hpp'):
                    h.update(str(p).encode()); h.update(p.read_bytes())
        _hd = h.hexdigest()
    return _hd


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(map(str, cmd)) + '\n' + r.stderr[-4000:])


def pch(flags):
    gen = [(REPO / 'include' / 'mutable' / n) for n in ('gitversion.tbl', 'mutable-config.hpp')]   # rewritten by /repo's own build
    stamp = ''.join(p.read_text() if p.exists() else '-' for p in gen)
    key = hashlib.sha1((headers_digest() + repr(flags) + stamp + (HARNESS / 'pch.hpp').read_text()).encode()).hexdigest()[:16]
    out = CACHE / f'pch-{key}.pch'
    if not out.exists():
        tmp = out.with_suffix(f'.{os.getpid()}.tmp')
        _run(['clang++-18', *base_flags(), *flags, '-fpch-instantiate-templates', '-Xclang', '-fno-pch-timestamp', '-x', 'c++-header',
              str(HARNESS / 'pch.hpp'), '-o', str(tmp)])
        os.replace(tmp, out)
    return out


def obj(src, flags, use_pch):
    src = Path(src)
    key = hashlib.sha1((headers_digest() + repr(flags) + str(use_pch) + str(src)).encode() + src.read_bytes()).hexdigest()[:20]
    out = CACHE / 'obj' / f'{src.stem}-{key}.o'
    if not out.exists():
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = out.with_suffix(f'.{os.getpid()}.tmp')
        inc = ['-include-pch', str(pch(flags))] if use_pch else []
        _run(['clang++-18', *base_flags(), *flags, *inc, '-c', str(src), '-o', str(tmp)])
        os.replace(tmp, out)
    return out


def library_sources(heuristic=False):
    out = []
    for d in DIRS:
        for p in sorted((REPO / 'src' / d).glob('*.cpp')):
            rel = p.relative_to(REPO / 'src').as_posix()
            if rel in EXCLUDE or rel.startswith(EXCLUDE_PREFIX) or rel == HEURISTIC:
                continue
            out.append(rel)
    out.sort(key=lambda r: (SLOW.index(r) if r in SLOW else len(SLOW), r))
    if heuristic:
        out.insert(0, HEURISTIC)
    return out


def build(name, harness, *a, sources=None, **k):
    """With a list of sources, only those are built; should they not suffice (a helper moved elsewhere), the whole library is."""
    try:
        return build_with(name, harness, *a, sources=sources, **k)
    except BuildError:
        if sources is None: raise
        return build_with(name + '-full', harness, *a, sources=None, **k)


def build_with(name, harness, flags=None, heuristic=False, sources=None, extra_flags=(), extra_link=(), use_pch=True):
    """Builds /verif/harness/<harness> with the whole library (or the given repo-relative sources). Returns the binary."""
    flags = list(ASAN if flags is None else flags)
    CACHE.mkdir(exist_ok=True)
    overlay()
    t0 = time.time()
    srcs = library_sources(heuristic) if sources is None else list(sources)
    if use_pch:
        pch(flags)
    jobs = []
    for s in srcs:
        if s == HEURISTIC:   # 112 s with sanitizers, 47 s without: instrumenting it is not worth the time
            jobs.append((REPO / 'src' / s, list(PLAIN), False))
        else:
            jobs.append((REPO / 'src' / s, flags, use_pch))
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    for i, h in enumerate(hs):
        jobs.insert(min(1, len(jobs)) if heuristic else i, (HARNESS / h, flags + list(extra_flags), use_pch and not extra_flags))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    key = hashlib.sha1((repr(objs) + repr(flags) + repr(extra_link)).encode()).hexdigest()[:16]
    out = CACHE / f'{name}-{key}'
    if not out.exists():
        tmp = CACHE / f'{name}-{key}.{os.getpid()}.tmp'
        L = '/usr/lib/x86_64-linux-gnu/'
        boost = [L + f'libboost_{b}.a' for b in ('container', 'system', 'thread', 'atomic') if os.path.exists(L + f'libboost_{b}.a')]
        _run(['clang++-18', '-fuse-ld=lld-18' if os.path.exists('/usr/bin/ld.lld-18') else '-fuse-ld=lld', *flags,
              *map(str, objs), '-o', str(tmp), *boost, '-ldl', '-lpthread', *extra_link])
        os.replace(tmp, out)
    print(f'[build] {name}: {len(objs)} objects, {time.time()-t0:.1f}s', file=sys.stderr, flush=True)
    return out


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2], heuristic='--hs' in sys.argv))
