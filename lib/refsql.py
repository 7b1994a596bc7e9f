"""Reference semantics of the SQL dialect and random generation of databases and queries.

A query is generated together with its answer: every expression carries its SQL text and an evaluator over Python rows.
Semantics are written from the documented rules of the dialect, not from a run of the system.
"""
import sys; sys.setrecursionlimit(20000)
import struct, math
from itertools import product

LOG2_10 = 3.321928094887362
NULL = None


class Discard(Exception):
    """The answer is not specified (overflow of the result type, division by zero, NaN): drop the case."""


# --------------------------------------------------------------------------------------------------- types
def INT(n): return ('int', n)
def DEC(p, s): return ('dec', p, s)
def FLT(b): return ('flt', b)
def CHAR(n): return ('char', n)
def VARCHAR(n): return ('varchar', n)
BOOL, DATE, DATETIME = ('bool',), ('date',), ('datetime',)


def tystr(t):
    k = t[0]
    if k == 'int': return f'INT({t[1]})'
    if k == 'dec': return f'DECIMAL({t[1]}, {t[2]})'
    if k == 'flt': return 'FLOAT' if t[1] == 32 else 'DOUBLE'
    if k == 'char': return f'CHAR({t[1]})'
    if k == 'varchar': return f'VARCHAR({t[1]})'
    return k.upper()


def is_num(t): return t[0] in ('int', 'dec', 'flt')
def is_str(t): return t[0] in ('char', 'varchar')
def tscale(t): return t[2] if t[0] == 'dec' else 0
def kind_class(t): return 'num' if is_num(t) else 'char' if is_str(t) else t[0]


def bits(t):
    return 8 * t[1] if t[0] == 'int' else t[1] if t[0] == 'flt' else math.ceil(LOG2_10 * t[1])


def join(a, b):
    rank = {'int': 0, 'flt': 1, 'dec': 2}
    k = max(a[0], b[0], key=rank.get)
    p, s = max(bits(a), bits(b)), max(tscale(a), tscale(b))
    if k == 'int': return INT(p // 8)
    if k == 'flt': return FLT(32) if p == 32 else FLT(64)
    return DEC(int(p / LOG2_10), s)


def join_ok(a, b):
    """Floating-point joins need a precision of 32 or 64 bits."""
    t = join(a, b)
    return t[0] != 'flt' or max(bits(a), bits(b)) in (32, 64)


# --------------------------------------------------------------------------------------------------- values
def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        raise Discard


def fin(x):
    if x != x or x in (math.inf, -math.inf): raise Discard
    return x


def rnd(x, t):
    return fin(f32(x) if t[1] == 32 else x)


def tdiv(a, b):
    if b == 0: raise Discard
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def chk(v, t):
    if t[0] == 'int':
        if not -(1 << (8 * t[1] - 1)) <= v < (1 << (8 * t[1] - 1)): raise Discard
    elif t[0] == 'dec':
        if abs(v) >= 10 ** min(t[1], 18): raise Discard
    return v


def conv(v, f, t):
    """Brings a value of numeric type `f` to the (more precise) numeric type `t`."""
    if t[0] == 'int':
        return v
    if t[0] == 'flt':
        return rnd(float(v), t)
    d = t[2] - tscale(f)
    if f[0] == 'flt':
        return int(rnd(v * 10 ** d, f))
    return v * 10 ** d


def arith(op, x, y, a, b, t):
    """x of type a, y of type b, result of type t."""
    if op in '+-':
        x, y = conv(x, a, t), conv(y, b, t)
        r = x + y if op == '+' else x - y
    elif t[0] != 'dec':
        x, y = conv(x, a, t), conv(y, b, t)
        if op == '*': r = x * y
        elif op == '%': r = tmod(x, y)
        elif t[0] == 'int': r = tdiv(x, y)
        else:
            if y == 0: raise Discard
            r = x / y
    elif op == '%':
        return chk(tmod(conv(x, a, t), conv(y, b, t)), t)
    else:
        sx, sy = tscale(a), tscale(b)
        if a[0] == 'flt': x, sx = conv(x, a, t), t[2]
        if b[0] == 'flt': y, sy = conv(y, b, t), t[2]
        if op == '*':
            r = x * y
            if abs(r) >= 1 << 62: raise Discard
            r = tdiv(r, 10 ** (sx + sy - t[2]))
        else:
            s = sx - sy
            if s < t[2]: x *= 10 ** (t[2] - s)
            if abs(x) >= 1 << 62: raise Discard
            r = tdiv(x, y)
            if s > t[2]: r = tdiv(r, 10 ** (s - t[2]))
    if t[0] == 'flt':
        return rnd(r, t)
    return chk(r, t)


CMP = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
       '=': lambda x, y: x == y, '!=': lambda x, y: x != y}


def like(s, p):
    """% any sequence, _ any character, backslash escapes."""
    i, toks = 0, []
    while i < len(p):
        if p[i] == '\\' and i + 1 < len(p):
            toks.append(('c', p[i + 1])); i += 2; continue
        toks.append(('%',) if p[i] == '%' else ('_',) if p[i] == '_' else ('c', p[i])); i += 1
    cur = {0}
    n = len(toks)

    def close(S):
        S = set(S)
        for j in range(n):
            if j in S and toks[j][0] == '%': S.add(j + 1)
        return S
    cur = close(cur)
    for ch in s:
        nx = set()
        for j in cur:
            if j == n: continue
            t = toks[j]
            if t[0] == '%': nx.add(j)
            elif t[0] == '_' or t[1] == ch: nx.add(j + 1)
        cur = close(nx)
        if not cur: return False
    return n in cur


def k_and(x, y):
    if x is False or y is False: return False
    return None if x is None or y is None else True


def k_or(x, y):
    if x is True or y is True: return True
    return None if x is None or y is None else False


def k_not(x): return None if x is None else not x


def mkdate(y, m, d): return y << 9 | m << 5 | d


def days(y, m, d):  # days since 1970-01-01, proleptic Gregorian
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def mkdatetime(y, mo, d, h, mi, s): return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s


# --------------------------------------------------------------------------------------------------- literals
def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def flt_lit(v):
    a = abs(v)
    s = repr(a)
    if 'e' in s: s = f'{a:f}'
    return ('-' if v < 0 else '') + s


def lit(v, t):
    """SQL literal for a stored value."""
    if v is None: return 'NULL'
    k = t[0]
    if k == 'int': return str(v)
    if k == 'dec':
        a = abs(v)
        return ('-' if v < 0 else '') + (f'{a // 10**t[2]}.{a % 10**t[2]:0{t[2]}d}' if t[2] else str(a))
    if k == 'flt': return flt_lit(v)
    if k in ('char', 'varchar'): return quote(v)
    if k == 'bool': return 'TRUE' if v else 'FALSE'
    if k == 'date': return f"d'{v >> 9:04d}-{v >> 5 & 15:02d}-{v & 31:02d}'"
    if k == 'datetime':
        d, s = divmod(v, 86400)
        z = d + 719468
        era = z // 146097
        doe = z - era * 146097
        yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
        doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
        mp = (5 * doy + 2) // 153
        dd = doy - (153 * mp + 2) // 5 + 1
        mm = mp + (3 if mp < 10 else -9)
        yy = yoe + era * 400 + (mm <= 2)
        return f"d'{yy:04d}-{mm:02d}-{dd:02d} {s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}'"
    raise AssertionError(t)


# --------------------------------------------------------------------------------------------------- databases
ALPHA = ['a', 'b', 'c', 'ab', 'abc', 'bca', 'Z', 'z%', '_x', 'a.c', 'a*', '(', '[a]', 'x+y', 'q?', '^a', 'a$', 'a|b', '', ' ',
         'a b', '{1}', '\\', '"', "'", '-', 'AbC', '0', '42']


class Table:
    def __init__(self, name, cols, rows):
        self.name, self.cols, self.rows = name, cols, rows   # cols: [(name, type, constraints)]

    def create(self):
        return f'CREATE TABLE {self.name} (' + ', '.join(f'{c} {self.ddl(t)}{x}' for c, t, x in self.cols) + ');'

    @staticmethod
    def ddl(t):
        if t[0] == 'dec' and t[2] == 0: return f'DECIMAL({t[1]})'   # the grammar wants a scale other than 0
        return tystr(t)

    def inserts(self, rng, chunk=60):
        out, i = [], 0
        while i < len(self.rows):
            n = rng.randint(1, chunk)
            part = self.rows[i:i + n]
            out.append(f'INSERT INTO {self.name} VALUES ' + ', '.join(
                '(' + ', '.join(lit(v, c[1]) for v, c in zip(r, self.cols)) + ')' for r in part) + ';')
            i += n
        return out


def rand_value(rng, t, spread, extreme=0.0):
    k = t[0]
    if k == 'int':
        if rng.random() < extreme:
            m = 1 << (8 * t[1] - 1)
            return rng.choice([m - 1, -m if t[1] < 8 else -m + 1, m // 2, -(m // 2)])
        b = min(spread, 1 << (8 * t[1] - 2))
        return rng.randint(-b, b)
    if k == 'dec':
        b = min(spread * 10 ** t[2], 10 ** t[1] - 1)
        v = rng.randint(-b, b)
        return v if rng.random() < .5 else v - v % (10 ** t[2]) if abs(v) > 10 ** t[2] else v
    if k == 'flt': return rng.randint(-4 * spread, 4 * spread) / 4
    if k in ('char', 'varchar'):
        if t[1] > 100: return (rng.choice(ALPHA) + rng.choice('abc') * rng.choice([rng.randint(0, t[1]), t[1]]) + rng.choice(ALPHA))[:t[1]]
        while True:
            s = rng.choice(ALPHA)
            if rng.random() < .3: s += rng.choice(ALPHA)
            if len(s) <= t[1]: return s
    if k == 'bool': return rng.random() < .5
    y = rng.choice([1970, 1999, 2000, 2023, 2024, 1900, 2100, 1066, 1, 9999]) if rng.random() < .3 else rng.randint(2018, 2021)
    mo, d = rng.randint(1, 12), rng.randint(1, 28)
    if k == 'date': return mkdate(y, mo, d)
    if rng.random() < .5: return mkdatetime(2020, 1, rng.randint(1, 3), rng.randint(0, 1) * 23, 0, rng.randint(0, 1) * 59)
    return mkdatetime(max(y, 2), mo, d, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def rand_type(rng, kinds=None):
    k = rng.choice(kinds or ['int', 'int', 'int', 'dec', 'flt', 'char', 'varchar', 'bool', 'date', 'datetime'])
    if k == 'int': return INT(rng.choice([1, 2, 4, 4, 8]))
    if k == 'dec': return DEC(rng.choice([6, 8, 9, 12, 18]), rng.choice([0, 1, 2, 2, 3]))
    if k == 'flt': return FLT(rng.choice([32, 64]))
    if k == 'char': return CHAR(rng.choice([1, 3, 5, 9]))
    if k == 'varchar': return VARCHAR(rng.choice([2, 4, 8]))
    return (k,)


def rand_table(rng, name, nrows, ncols, kinds=None, names=None, spread=None, null_p=None, extreme=0.0, first=None, wide=False):
    names = names or [f'{name}_{chr(97 + i) if ncols < 26 else f"c{i}"}' for i in range(ncols)]
    cols, gens = [], []
    for i in range(ncols):
        t = first[i] if first and i < len(first) and first[i] else rand_type(rng, kinds)
        if wide and t[0] in ('char', 'varchar') and rng.random() < .5: t = (t[0], rng.choice([101, 255, 256, 1000, 2500]))
        cols.append((names[i], t, ''))
        sp = spread or rng.choice([2, 5, 20, 100])
        np_ = null_p if null_p is not None else rng.choice([0, 0, .15, .4])
        gens.append((t, sp, np_))
    rows = [[None if rng.random() < np_ else rand_value(rng, t, sp, extreme) for t, sp, np_ in gens] for _ in range(nrows)]
    return Table(name, cols, rows)


# --------------------------------------------------------------------------------------------------- expressions
class E:
    """sql text, binding strength (9 atom … 1 OR), type, evaluator over rows, sources used, bound on the magnitude."""
    __slots__ = ('sql', 'lv', 'ty', 'fn', 'src', 'bnd', 'exact', 'name', 'const', 'fpdiv', 'nobs')

    def __init__(self, sql, lv, ty, fn, src=frozenset(), bnd=1, exact=True, name=None, const=False):
        self.sql, self.lv, self.ty, self.fn, self.src, self.bnd = sql, lv, ty, fn, src, bnd
        self.exact, self.name, self.const = exact, name, const
        self.nobs = False    # no backslash in any value: usable as a pattern
        self.fpdiv = False   # rounding happens in here: sums depend on the order


BIG = 1 << 61


def par(e, lv, rng):
    """Text of `e` in a position that requires binding strength `lv`; redundant parentheses at random."""
    return f'({e.sql})' if e.lv < lv or rng.random() < .1 else e.sql


def column(sql, ty, idx, src, data):
    b = 1
    if is_num(ty):
        b = max([1] + [math.ceil(abs(v)) for v in data if v is not None])
    e = E(sql, 9, ty, lambda r, i=idx: r[i], frozenset(src), b, name=sql)
    e.nobs = ty[0] in ('char', 'varchar') and all(v is None or '\\' not in v for v in data)
    e.fpdiv = ty[0] == 'flt' and any(v is not None and v * 1024 != int(v * 1024) for v in data)
    return e


def const(rng, kind, like_ty=None, small=20):
    if kind == 'num':
        k = like_ty[0] if like_ty else rng.choice(['int', 'int', 'flt'])
        if k == 'int' or (k == 'dec' and rng.random() < .5):
            v = rng.randint(0, small)
            if rng.random() < .03: v = rng.choice([2147483647, 2147483648, 3000000000, 65536])
            text = rng.choice([str(v)] * 6 + [hex(v)] + (['0%o' % v] if v else []))
            e = E(text, 9, INT(4) if v < 2**31 else INT(8), lambda r: v, bnd=max(1, v), const=True)
        else:
            v = rng.randint(0, 4 * small) / 4
            text = repr(v)
            if text.endswith('.0') and rng.random() < .3: text = text[:-1]
            elif text.startswith('0.') and v and rng.random() < .3: text = text[1:]
            elif rng.random() < .1: text = f'{v * 100:g}e-2' if rng.random() < .5 else f'{v:g}e0'
            v = float(text)
            if rng.random() < .06:   # hexadecimal, v is a multiple of a quarter
                q = int(v * 4)
                if q == v * 4: text = rng.choice([f'0x{q:x}p-2', f'0X{q:X}P-2', f'0x{q >> 2:x}.{(q & 3) * 4:x}', f'0x{q * 8:x}p-5', f'0x.{q:04x}p+14', f'0x{q >> 2:x}.{(q & 3) * 4:x}p0'])
            e = E(text, 9, FLT(64), lambda r: v, bnd=math.ceil(v) + 1, const=True)
        if rng.random() < .25:
            return neg(rng, e)
        return e
    if kind == 'char':
        s = rng.choice(ALPHA)
        e = E(quote(s), 9, CHAR(max(len(s), 0)), lambda r: s, const=True)
        e.nobs = '\\' not in s
        return e
    if kind == 'bool':
        b = rng.random() < .5
        return E('TRUE' if b else 'FALSE', 9, BOOL, lambda r: b, const=True)
    t = (kind,)
    v = rand_value(rng, t, 1)
    return E(lit(v, t), 9, t, lambda r: v, const=True)


def neg(rng, x):
    op = rng.choice('---+') if x.ty[0] != 'int' else rng.choice('---+~')
    f = x.fn
    if op == '-': fn = lambda r: None if (v := f(r)) is None else chk(-v, x.ty)
    elif op == '+': fn = f
    else: fn = lambda r: None if (v := f(r)) is None else ~v
    t = par(x, 8, rng)
    sp = ' ' if t[0] in '-+~' or rng.random() < .1 else ''
    e = E(op + sp + t, 8, x.ty, fn, x.src, x.bnd + 1, x.exact, const=x.const)
    e.fpdiv = x.fpdiv
    return e


def binop(rng, op, x, y):
    lv = 7 if op in '*/%' else 6
    a, b = x.ty, y.ty
    if not join_ok(a, b): raise Discard
    t = join(a, b)
    if op == '%' and t[0] == 'flt' or op == '%' and 'flt' in (a[0], b[0]): raise Discard
    up = 10 ** tscale(t)
    xb, yb = x.bnd * 10 ** max(0, tscale(t) - tscale(a)), y.bnd * 10 ** max(0, tscale(t) - tscale(b))
    bnd = xb + yb if op in '+-' else x.bnd * y.bnd * up * up if op == '*' else xb * up * up if op == '/' else max(xb, yb)
    if bnd >= BIG: raise Discard
    f, g = x.fn, y.fn

    def fn(r):
        u, v = f(r), g(r)
        if u is None or v is None: return None
        return arith(op, u, v, a, b, t)
    e = E(f'{par(x, lv, rng)} {op} {par(y, lv + 1, rng)}', lv, t, fn, x.src | y.src, bnd, x.exact and y.exact)
    e.fpdiv = x.fpdiv or y.fpdiv or t[0] == 'flt' and op == '/'
    return e


def concat(rng, x, y):
    f, g = x.fn, y.fn

    def fn(r):
        u, v = f(r), g(r)
        if u is None: return v
        if v is None: return u
        return u + v
    e = E(f'{par(x, 5, rng)} .. {par(y, 6, rng)}', 5, CHAR(x.ty[1] + y.ty[1]), fn, x.src | y.src)
    e.nobs = x.nobs and y.nobs
    return e


def compare(rng, op, x, y):
    f, g = x.fn, y.fn
    o = CMP[op]
    if is_num(x.ty):
        if not join_ok(x.ty, y.ty): raise Discard
        a, b, t = x.ty, y.ty, join(x.ty, y.ty)
        if max(x.bnd, y.bnd) * 10 ** tscale(t) >= BIG: raise Discard

        def fn(r):
            u, v = f(r), g(r)
            if u is None or v is None: return None
            return o(conv(u, a, t), conv(v, b, t))
    else:
        def fn(r):
            u, v = f(r), g(r)
            if u is None or v is None: return None
            return o(u, v)
    return E(f'{par(x, 5, rng)} {op} {par(y, 5, rng)}', 4, BOOL, fn, x.src | y.src)


def like_e(rng, x, y):
    f, g = x.fn, y.fn

    def fn(r):
        u, v = f(r), g(r)
        if u is None or v is None: return None
        return like(u, v)
    return E(f'{par(x, 5, rng)} LIKE {par(y, 5, rng)}', 4, BOOL, fn, x.src | y.src)


def logic(rng, op, x, y):
    f, g = x.fn, y.fn
    k, lv = (k_and, 2) if op == 'AND' else (k_or, 1)
    return E(f'{par(x, lv, rng)} {op} {par(y, lv + 1, rng)}', lv, BOOL, lambda r: k(f(r), g(r)), x.src | y.src)


def lnot(rng, x):
    f = x.fn
    return E(f'NOT {par(x, 3, rng)}', 3, BOOL, lambda r: k_not(f(r)), x.src)


def isnull(rng, x):
    f = x.fn
    return E(f'ISNULL({x.sql})', 9, BOOL, lambda r: f(r) is None, x.src)


class Gen:
    """Random expressions over a list of leaves."""

    def __init__(self, rng, leaves, div=False, consts=True):
        self.rng, self.leaves, self.div, self.consts = rng, leaves, div, consts
        self.by = {}
        for l in leaves:
            self.by.setdefault(kind_class(l.ty), []).append(l)

    def kinds(self):
        return list(self.by)

    def leaf(self, kind, need_col=False):
        ls = self.by.get(kind)
        if ls and (need_col or not self.consts or self.rng.random() < .75): return self.rng.choice(ls)
        return const(self.rng, kind)

    def expr(self, kind, depth):
        for _ in range(20):
            try:
                return self._expr(kind, depth)
            except Discard:
                depth = max(0, depth - 1)
        return self.leaf(kind)

    def _expr(self, kind, depth):
        rng = self.rng
        if kind == 'bool': return self.pred(depth)
        if depth <= 0 or rng.random() < .15: return self.leaf(kind)
        if kind == 'num':
            if rng.random() < .15: return neg(rng, self.expr('num', depth - 1))
            op = rng.choice('+++---***//%')
            x = self.expr('num', depth - 1)
            y = self.expr('num', depth - 1 if rng.random() < .5 else 0)
            if op in '/%' and not (self.div and rng.random() < .4):
                for _ in range(50):
                    y = const(rng, 'num')
                    if y.fn(()) != 0: break
                else: raise Discard
                if op == '%' and y.ty[0] == 'flt': raise Discard
                if (join(x.ty, y.ty)[0] == 'dec' and y.ty[0] == 'flt' and conv(y.fn(()), y.ty, join(x.ty, y.ty)) == 0): raise Discard
            return binop(rng, op, x, y)
        if kind == 'char':
            x, y = self.expr('char', depth - 1), self.expr('char', depth - 1)
            if x.ty[1] + y.ty[1] > 60 and (x.ty[1] + y.ty[1] > 12000 or rng.random() < .4): return x
            return concat(rng, x, y)
        return self.leaf(kind)

    def pattern(self, x):
        rng = self.rng
        vals = []
        s = rng.choice(ALPHA)
        out = ''
        for ch in s:
            q = rng.random()
            out += '_' if q < .2 else '%' if q < .3 else ('\\' + ch if ch in '%_\\' else ch)
        if rng.random() < .4: out += '%'
        if rng.random() < .3: out = '%' + out
        # In a string literal, the backslash itself is escaped.
        return E('"' + out.replace('\\', '\\\\').replace('"', '\\"') + '"', 9, CHAR(len(out)), lambda r: out, const=True)

    def pred(self, depth, atom=False):
        rng = self.rng
        if depth > 0 and not atom:
            p = rng.random()
            if p < .45:
                return logic(rng, rng.choice(['AND', 'OR']), self.pred(depth - 1), self.pred(depth - 1))
            if p < .6:
                return lnot(rng, self.pred(depth - 1))
        kinds = self.kinds()
        k = rng.choice(kinds)
        if rng.random() < .1: return isnull(rng, self.leaf(k, True))
        d = max(0, depth - 1)
        if k == 'bool' and rng.random() < .6: return self.leaf('bool', True)
        if k == 'bool':
            return compare(rng, rng.choice(['=', '!=']), self.leaf('bool', True), self.leaf('bool'))
        for _ in range(20):
            try:
                x = self.expr(k, rng.randint(0, d)) if rng.random() < .5 else self.leaf(k, True)
                if k == 'char' and rng.random() < .35:
                    if rng.random() < .3:
                        y = self.expr('char', rng.randint(0, d))
                        if y.nobs: return like_e(rng, x, y)
                    return like_e(rng, x, self.pattern(x))
                y = self.expr(k, rng.randint(0, d))
                return compare(rng, rng.choice(list(CMP)), x, y)
            except Discard:
                pass
        return isnull(rng, self.leaf(k, True))


# --------------------------------------------------------------------------------------------------- queries
class Source:
    """A relation in FROM: text, columns [(name, type)], rows."""

    def __init__(self, text, alias, cols, rows):
        self.text, self.alias, self.cols, self.rows = text, alias, cols, rows


def key_of(v):
    if isinstance(v, float) and v == 0: return 0.0
    return v


class Query:
    """sql, types, names; rows: the answer (before LIMIT); keys: one sort key per row or None; limit/offset."""

    def check(self, got_types, got_rows):
        """None if the answer is right, otherwise a description."""
        exp, lim, off = self.rows, self.limit, self.offset
        n = len(exp)
        lo = min(off or 0, n)
        hi = n if lim is None else min(n, lo + lim)
        if len(got_rows) != hi - lo:
            return f'{len(got_rows)} rows instead of {hi - lo}'
        if got_rows and [tystr(t) for t in self.types] != got_types:
            return f'types {got_types} instead of {[tystr(t) for t in self.types]}'
        if self.keys is None:
            return submultiset(got_rows, exp, self.exact, hi - lo == n, self.mag)
        # order-aware: split the answer into blocks of equal keys
        order = sorted(range(n), key=lambda i: self.keys[i])
        i = 0
        while i < n:
            j = i
            while j < n and self.keys[order[j]] == self.keys[order[i]]: j += 1
            a, b = max(i, lo), min(j, hi)
            if a < b:
                d = submultiset(got_rows[a - lo:b - lo], [exp[k] for k in order[i:j]], self.exact, b - a == j - i, self.mag)
                if d: return f'rows {a}..{b} (sort key {self.keys[order[i]]}): {d}'
            i = j
        return None


def close(x, y, mag=1):
    if x is None or y is None: return x is y
    return x == y or max(abs(x), abs(y)) < math.inf and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)) + 1e-12 * mag


def matching(A, B, ok):
    """None if every element of A can be paired with an element of B of its own, otherwise an element that cannot."""
    mate = {}

    def augment(i, seen):
        for j, b in enumerate(B):
            if j in seen or not ok(A[i], b): continue
            seen.add(j)
            if j not in mate or augment(mate[j], seen):
                mate[j] = i
                return True
        return False
    free = set(range(len(B)))
    order = sorted(free, key=lambda j: tuple((v is not None, v or 0) for v in B[j]))
    rest = []
    for i, j in zip(sorted(range(len(A)), key=lambda i: tuple((v is not None, v or 0) for v in A[i])), order):
        if ok(A[i], B[j]): mate[j] = i    # in most cases, sorting pairs them
        else: rest.append(i)
    for i in rest:
        if not augment(i, set()): return A[i]
    return None


def submultiset(got, exp, exact, equal, mag):
    ex = [i for i, e in enumerate(exact) if e]
    ix = [i for i, e in enumerate(exact) if not e]

    def split(rows):
        d = {}
        for r in rows:
            d.setdefault(tuple(typed(r[i]) for i in ex), []).append([r[i] for i in ix])
        return d
    g, e = split(got), split(exp)
    for k, rs in g.items():
        if k not in e: return f'unexpected row {list(k)}'
        if len(rs) > len(e[k]): return f'row {list(k)} occurs {len(rs)} times instead of {len(e[k])}'
        if ix:
            m = matching(rs, e[k], lambda a, b: all(close(u, v, mag[c]) for u, v, c in zip(a, b, ix)))
            if m is not None: return f'row {list(k)}: unexpected {m}, expected {e[k][:5]}'
    if equal:
        for k, rs in e.items():
            if len(g.get(k, ())) != len(rs): return f'row {list(k)} occurs {len(g.get(k, ()))} times instead of {len(rs)}'
    return None


def typed(v):
    if isinstance(v, bool): return ('b', v)
    if isinstance(v, float): return ('f', v if v != 0 else 0.0)
    if isinstance(v, int): return ('i', v)
    return v


def agg(fn, vals, ty, arg_ty, nrows):
    if fn == 'COUNT*': return nrows
    vs = [v for v in vals if v is not None]
    if fn == 'COUNT': return len(vs)
    if not vs: return None
    if fn == 'MIN': return min(vs)
    if fn == 'MAX': return max(vs)
    if fn == 'SUM':
        s = sum(vs)
        return chk(s, ty) if ty[0] != 'flt' else fin(s)
    m = math.fsum(vs) / len(vs)
    return m / 10 ** tscale(arg_ty)


def agg_type(fn, t):
    if fn.startswith('COUNT'): return INT(8)
    if fn in ('MIN', 'MAX'): return t
    if fn == 'AVG': return FLT(64)
    return {'int': INT(8), 'flt': FLT(64), 'dec': DEC(19, tscale(t))}[t[0]]


class QGen:
    def __init__(self, rng, db, **opt):
        self.rng, self.db = rng, db
        self.o = dict(join=0.0, group=0.0, order=0.0, limit=0.0, nested=0.0, where=.8, depth=3, max_src=4, div=True,
                      select_exprs=True, max_rows=4000, max_work=200000, avg=True, self_join=True)
        self.o.update(opt)
        self.n = 0
        self.features = set()
        self.patience = rng.choice([0, 10, 10, 20])

    def fresh(self, p='x'):
        self.n += 1
        return f'{p}{self.n}'

    # ---- FROM
    def source(self, used, level):
        rng = self.rng
        if level > 0 and rng.random() < self.o['nested']:
            self.features.add('nested')
            a = self.fresh('q')
            sub = QGen(rng, self.db, **dict(self.o, join=self.o['join'] * .4, max_src=2, nested=self.o['nested'] * .5))
            sub.n = self.n + 100 * level
            q = sub.query(level - 1, top=False)
            self.n = sub.n
            self.features |= {'nested-' + f for f in sub.features}
            used.add(a)
            return Source(f'({q.sql}) AS {a}', a, list(zip(q.names, q.types)), q.final())
        t = rng.choice(self.db)
        cols = [(c, ty) for c, ty, _ in t.cols]
        if t.name in used or rng.random() < .4:
            if t.name in used and not self.o['self_join']:
                raise Discard
            a = self.fresh('r')
            used.add(a)
            return Source(f'{t.name} AS {a}', a, cols, t.rows)
        used.add(t.name)
        return Source(t.name, t.name, cols, t.rows)

    def leaves(self, srcs):
        rng = self.rng
        count = {}
        for s in srcs:
            for c, _ in s.cols: count[c] = count.get(c, 0) + 1
        out, i = [], 0
        for si, s in enumerate(srcs):
            for ci, (c, t) in enumerate(s.cols):
                sql = f'{s.alias}.{c}' if count[c] > 1 or rng.random() < .3 else c
                e = column(sql, t, i, [si], [r[ci] for r in s.rows])
                e.name = c if count[c] == 1 else None
                out.append(e)
                i += 1
        return out

    def join_pred(self, leaves, new, prev):
        rng = self.rng
        L = [l for l in leaves if l.src <= prev]
        R = [l for l in leaves if l.src == frozenset([new])]
        pairs = [(x, y) for x in L for y in R if kind_class(x.ty) == kind_class(y.ty) and
                 (not is_num(x.ty) or join_ok(x.ty, y.ty))]
        if not pairs: raise Discard
        for _ in range(30):
            try:
                x, y = rng.choice(pairs)
                if rng.random() < .5: x, y = y, x
                p = rng.random()
                k = kind_class(x.ty)
                if p < .65: return compare(rng, '=', x, y)
                if p < .75 and k == 'num': return compare(rng, '=', binop(rng, rng.choice('+-'), x, const(rng, 'num')), y)
                if p < .85 and k != 'bool': return compare(rng, rng.choice(['<', '>=', '!=']), x, y)
                a = compare(rng, '=', x, y)
                both = a.src
                x2, y2 = rng.choice([(u, v) for u, v in pairs if u.src | v.src == both])
                if rng.random() < .35: return logic(rng, 'OR', a, compare(rng, '=', x2, y2))
                if rng.random() < .5: x2, y2 = y2, x2
                a = logic(rng, 'AND', a, compare(rng, '=', x2, y2))
                while rng.random() < .5:   # keys of several parts
                    x2, y2 = rng.choice([(u, v) for u, v in pairs if u.src | v.src == both])
                    if x2.ty[0] == 'int' and rng.random() < .2: x2 = binop(rng, rng.choice('+-'), x2, const(rng, 'num', INT(4)))
                    if rng.random() < .5: x2, y2 = y2, x2
                    a = logic(rng, 'AND', a, compare(rng, '=', x2, y2))
                return a
            except Discard:
                continue
        raise Discard

    # ---- query
    def query(self, level=1, top=True):
        for _ in range(200):
            n, f = self.n, set(self.features)
            try:
                return self._query(level, top)
            except Discard:
                self.n, self.features = n, f
        raise RuntimeError('cannot generate a query')

    def _query(self, level, top):
        rng, o = self.rng, self.o
        used = set()
        k = 1
        if rng.random() < o['join']: k = rng.randint(2, max(2, o['max_src']))
        srcs = [self.source(used, level) for _ in range(k)]
        rng.shuffle(srcs)
        lv = self.leaves(srcs)
        work = 1
        for s in srcs: work *= max(1, len(s.rows))
        if work > o['max_work']: raise Discard
        off = [0]
        for s in srcs: off.append(off[-1] + len(s.cols))
        preds = []
        if k > 1:
            self.features.add(f'join{k}')
            order = list(range(k)); rng.shuffle(order)
            for i in range(1, k):
                preds.append(self.join_pred(lv, order[i], frozenset(order[:i])))
            if k > 2 and rng.random() < .3:   # cycle
                preds.append(self.join_pred(lv, order[-1], frozenset(order[:-1])))
        single = k == 1 and not any('nested' in f for f in self.features)
        if rng.random() < o['where']:
            self.features.add('where')
            for _ in range(rng.choice([1, 1, 2, 3]) if k > 1 else 1):
                pool = lv
                if k > 1:
                    s = rng.randrange(k)
                    pool = [l for l in lv if l.src == frozenset([s])]
                g = Gen(rng, pool, div=single and o['div'])
                p = g.pred(o['depth'] if k == 1 else min(2, o['depth']))
                if k > 1 and not p.src: continue
                preds.append(p)
        rng.shuffle(preds)
        where = ''
        if preds:
            w = preds[0]
            for p in preds[1:]: w = logic(rng, 'AND', w, p)
            where = ' WHERE ' + w.sql
        # evaluate FROM/WHERE, applying every conjunct as soon as its sources are bound
        rows = [[]]
        bound, todo = frozenset(), list(preds)
        layout = [None] * off[-1]
        order = sorted(range(k), key=lambda i: len(srcs[i].rows))
        width = off[-1]
        cur = [[None] * width]
        pending = set(range(k))
        while pending:
            # choose a source that is connected, if possible
            best = None
            for i in sorted(pending, key=lambda i: len(srcs[i].rows)):
                if not bound or any(i in p.src and p.src <= bound | {i} for p in todo):
                    best = i; break
            if best is None: best = min(pending, key=lambda i: len(srcs[i].rows))
            pending.discard(best)
            bound |= {best}
            now = [p for p in todo if p.src <= bound]
            todo = [p for p in todo if not p.src <= bound]
            fns = [p.fn for p in now]
            nxt = []
            a, b = off[best], off[best + 1]
            if len(cur) * len(srcs[best].rows) > 60000: raise Discard
            for r in cur:
                for s in srcs[best].rows:
                    x = r[:]
                    x[a:b] = s
                    ok = True
                    for f in fns:
                        if f(x) is not True: ok = False   # no short-circuit: division must be total
                    if ok: nxt.append(x)
            cur = nxt
            if len(cur) > o['max_rows']: raise Discard
        rows = cur
        if not rows and self.patience > 0:   # prefer queries that produce rows
            self.patience -= 1
            raise Discard

        group, having = '', ''
        grouped = rng.random() < o['group']
        if grouped:
            g = Gen(rng, lv, div=False)
            keys, ktexts = [], []
            nk = rng.choice([0, 1, 1, 2, 3])
            for _ in range(nk):
                p = rng.random()
                if p < .7:
                    l = rng.choice(lv)
                    if any(l.sql.split('.')[-1] == t.split('.')[-1].split(' ')[0] for t in ktexts): continue
                    if l.name and rng.random() < .7:
                        keys.append((l, l.name)); ktexts.append(l.sql)
                    else:
                        a = self.fresh('k'); keys.append((l, a)); ktexts.append(f'{l.sql} AS {a}')
                else:
                    kd = rng.choice(g.kinds())
                    x = g.expr(kd, 2)
                    if not x.src: continue
                    a = self.fresh('k'); keys.append((x, a)); ktexts.append(f'{x.sql} AS {a}')
            self.features.add(f'group{len(keys)}')
            groups = {}
            for r in rows:
                groups.setdefault(tuple(key_of(e.fn(r)) for e, _ in keys), []).append(r)
            if not keys and not groups: groups = {(): []}
            aggs = []
            ng = Gen(rng, lv, div=False)
            numeric = 'num' in ng.by
            for _ in range(rng.choice([0, 1, 2, 3] if keys else [1, 2, 3])):
                fn = rng.choice(['COUNT*', 'COUNT', 'MIN', 'MAX', 'SUM', 'SUM'] + (['AVG'] if o['avg'] else []))
                if fn == 'COUNT*': arg = None
                elif fn == 'COUNT': arg = rng.choice(lv)
                elif not numeric: continue
                else:
                    arg = ng.expr('num', rng.choice([0, 0, 1, 2]))
                    if not arg.src: continue
                text = 'COUNT(*)' if arg is None and rng.random() < .5 else 'COUNT()' if arg is None else f'{fn}({arg.sql})'
                if any(a[2] == text for a in aggs): continue
                if fn in ('SUM', 'AVG') and arg.bnd * max(1, len(rows)) >= BIG: raise Discard
                aggs.append((fn, arg, text))
            if not keys and not aggs: aggs.append(('COUNT*', None, 'COUNT(*)'))
            grows = []
            for kv, rs in groups.items():
                row = list(kv)
                for fn, arg, _ in aggs:
                    t = agg_type(fn, arg.ty) if arg else INT(8)
                    row.append(agg(fn, [arg.fn(r) for r in rs] if arg else [], t, arg.ty if arg else None, len(rs)))
                grows.append(row)
            gl = []
            for i, (e, name) in enumerate(keys):
                x = column(name, e.ty, i, [0], [r[i] for r in grows]); x.exact = e.exact; gl.append(x)
            for i, (fn, arg, text) in enumerate(aggs):
                x = column(text, agg_type(fn, arg.ty) if arg else INT(8), len(keys) + i, [0], [r[len(keys) + i] for r in grows])
                x.exact = fn != 'AVG' and not (fn == 'SUM' and arg.fpdiv); gl.append(x)
                if not x.exact: x.bnd = arg.bnd * max(1, len(rows))
                self.features.add('agg-' + fn)
            if keys: group = ' GROUP BY ' + ', '.join(ktexts)
            ex = [l for l in gl if l.exact]
            if ex and rng.random() < .3:
                h = Gen(rng, ex).pred(min(2, o['depth']))
                if h.src:
                    having = ' HAVING ' + h.sql
                    self.features.add('having')
                    grows = [r for r in grows if h.fn(r) is True]
            rows, lv = grows, gl
        # SELECT
        names = []
        g = Gen(rng, [l for l in lv if l.exact] or lv, div=False)
        cand = lv[:]
        rng.shuffle(cand)
        items = cand[:rng.randint(1, min(5, len(cand)))]
        texts, out = [], []
        for l in items:
            if rng.random() < .3 and o['select_exprs'] and l.exact:
                x = g.expr(kind_class(l.ty), o['depth'] if not grouped else 1)
                if x.src: l = x
            simple = l in cand and not grouped and l.name and '.' not in l.sql
            if (simple or (grouped and l in cand and l.sql.isidentifier())) and top and rng.random() < .5 and l.sql not in names:
                names.append(l.sql); texts.append(l.sql)
            elif l in cand and l.name and not grouped and not top and rng.random() < .5 and l.name not in names:
                names.append(l.name); texts.append(l.sql)
            else:
                a = self.fresh('c')
                names.append(a); texts.append(f'{l.sql} AS {a}' if rng.random() < .9 or not top else f'{l.sql} {a}')
            out.append(l)
        # ORDER BY / LIMIT
        keys_, order_by = None, ''
        if rng.random() < o['order'] and not (grouped and not group):
            self.features.add('order')
            pool = [l for l in lv if l.exact]
            if pool:
                for nm, x in zip(names, out):   # aliases of the SELECT clause
                    if nm[0] == 'c' and nm[1:].isdigit() and x.exact and x.src and rng.random() < .5:
                        y = E(nm, 9, x.ty, x.fn, x.src, x.bnd, name=nm)
                        y.fpdiv = x.fpdiv
                        pool.append(y)
                        self.features.add('order-alias')
                og = Gen(rng, pool, div=False)
                ks, parts = [], []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    x = rng.choice(pool) if rng.random() < .75 else og.expr(rng.choice(og.kinds()), 1 if grouped else 2)
                    if not x.src or any(x.sql == p.split(' ')[0] or p.startswith(x.sql + ' ') for p in parts): continue
                    d = rng.choice([True, False])
                    parts.append(x.sql + (' ASC' if d and rng.random() < .5 else '' if d else ' DESC'))
                    ks.append((x.fn, d))
                if ks:
                    order_by = ' ORDER BY ' + ', '.join(parts)
                    keys_ = [tuple(sort_key(f(r), d) for f, d in ks) for r in rows]
        q = Query()
        q.limit = q.offset = None
        lim = ''
        if rng.random() < o['limit'] and (top or (keys_ is not None and len(set(keys_)) == len(keys_))):
            self.features.add('limit')
            q.limit = rng.choice([0, 1, 2, 3, 5, 10, 50, 64, 65, len(rows), len(rows) + 1, max(0, len(rows) - 1)])
            lim = f' LIMIT {q.limit}'
            if rng.random() < .5:
                q.offset = rng.choice([0, 1, 2, 7, 63, 64, len(rows), max(0, len(rows) - 2), len(rows) + 3])
                lim += f' OFFSET {q.offset}'
        frm = ' FROM ' + ', '.join(s.text for s in srcs)
        q.sql = 'SELECT ' + ', '.join(texts) + frm + where + group + having + order_by + lim
        if top: q.sql += ';'
        q.names, q.types, q.exact = names, [e.ty for e in out], [e.exact for e in out]
        q.mag = [e.bnd for e in out]
        q.rows = [[e.fn(r) for e in out] for r in rows]
        q.keys = keys_
        q.features = self.features
        q.nsrc = k
        if not top and not all(q.exact): raise Discard

        def final():
            if q.limit is None: return q.rows
            idx = sorted(range(len(q.rows)), key=lambda i: q.keys[i])
            a = min(q.offset or 0, len(idx))
            return [q.rows[i] for i in idx[a:a + q.limit]]
        q.final = final
        return q


class _Rev:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v
    def __lt__(self, o): return o.v < self.v
    def __eq__(self, o): return self.v == o.v
    def __hash__(self): return hash(self.v)
    def __repr__(self): return f'-{self.v!r}'


def sort_key(v, asc):
    """NULL sorts before every value, regardless of the direction."""
    if v is None: return (0, 0)
    return (1, v if asc else _Rev(v))
