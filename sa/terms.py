"""Hash-consed terms of the value graph and their normal form.

A term is a node (op, args).  Scalars are kept in a canonical polynomial form
over atoms; booleans over canonical comparison literals; sequences (slices,
vectors) as Gen / Slice / Concat / Update / Scatter nodes; structs, enums and
tuples as 'agg' nodes.  Nothing here knows about the analysed program.
"""
import time
from fractions import Fraction
import math

INF = float('inf')


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'fb', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        h = 0
        fb = frozenset()
        for x in a:
            if isinstance(x, T):
                if x.h > h:
                    h = x.h
                if x.fb:
                    fb = fb | x.fb
            elif isinstance(x, tuple):
                for y in _iterT(x):
                    if y.h > h:
                        h = y.h
                    if y.fb:
                        fb = fb | y.fb
        if op == 'bv' or op == 'phi':
            fb = fb | frozenset([t])
            if isinstance(a[0], int) and a[0] > h:
                h = a[0]
        if op in BINDERS:
            # args: bv, n, body, extra...
            fb = fb - frozenset([a[0]])
            idx = a[0].a[0]
            if isinstance(idx, int) and idx > h:
                h = idx
        t.h = h
        t.fb = fb
        _tab[k] = t
    return t


def _iterT(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _iterT(y)


BINDERS = {'gen', 'flatgen', 'sum', 'exists', 'first', 'scatter', 'foldmax', 'foldmin', 'mkeys', 'hkeys', 'mapat'}
# scatter: (bv, n, body) is only used for the innermost; see mk_scatter

TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('agg', 'tuple', 0)


def norm_num(c):
    t = type(c)
    if t is int:
        return c
    if t is Fraction:
        return c.numerator if c.denominator == 1 else c
    if t is bool:
        return int(c)
    return c


def num(c):
    return mk('num', norm_num(c))


ZERO = num(0)
ONE = num(1)
MONE = num(-1)


def is_num(t):
    return t.op == 'num'


def var(name, ty):
    """ty: 'u8','u16','u32','usize','i16','i32','real','bool','gen',..."""
    return mk('var', name, ty)


_fresh = [0]


def fresh_bv(n, tag='k', lo=ZERO):
    _fresh[0] += 1
    return mk('bv', '%s%d' % (tag, _fresh[0]), n)


# ---------------------------------------------------------------- polynomials

def pdict(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): 1}


def _mkey(m):
    return tuple((x.id, e) for x, e in m)


def _has_divmul(m):
    for x, e in m:
        if x.op == 'idiv' and e >= 1:
            b = x.a[1]
            if b.op == 'num':
                continue
            db = pdict(b)
            if len(db) == 1:
                (mb, cb), = db.items()
                if cb == 1 and mb:
                    dm = dict(m)
                    if all(dm.get(y, 0) >= f > 0 for y, f in mb):
                        return x, mb
    return None


def from_dict(d):
    for m in d:
        if len(m) > 1 and d[m] != 0:
            h = _has_divmul(m)
            if h is not None:
                # b*idiv(a,b) = a - mod(a,b)
                x, mb = h
                d = dict(d)
                c = d.pop(m)
                rest = mmul(m, ((x, -1),) + tuple((y, -f) for y, f in mb))
                return add(from_dict(d), mul(from_dict({rest: c}), sub(x.a[0], mk_mod(x.a[0], x.a[1]))))
        for x, e in m:
            if x.op == 'mod' and e == 1 and x.a[1].op == 'num' and d[m] != 0:
                # n*idiv(a,n) + mod(a,n) = a
                q = mk_idiv(x.a[0], x.a[1])
                if q.op == 'idiv':
                    rest = mmul(m, ((x, -1),))
                    m2 = mmul(rest, ((q, 1),))
                    if d.get(m2) == d[m] * x.a[1].a[0]:
                        d = dict(d)
                        c = d.pop(m)
                        d.pop(m2)
                        return add(from_dict(d), mul(from_dict({rest: c}), x.a[0]))
            if abs(e) >= 2 and x.op == 'fn' and x.a[0] == 'sqrt' and d[m] != 0 and rng(x.a[1])[0] >= 0:
                d = dict(d)
                c = d.pop(m)
                rest = mmul(m, ((x, -e + e % 2),))
                return add(from_dict(d), mul(from_dict({rest: c}), power(x.a[1], e // 2) if e > 0 else inv(power(x.a[1], -(e // 2)))))
            if x.op == 'fn' and x.a[0] == 'pow' and d[m] != 0:
                ra = _rootatom(x)
                if ra and abs(e) >= ra[1]:
                    d = dict(d)
                    c = d.pop(m)
                    k = ra[1] if e > 0 else -ra[1]
                    rest = mmul(m, ((x, -k),))
                    return add(from_dict(d), mul(from_dict({rest: c}), ra[0] if k > 0 else inv(ra[0])))
            if abs(e) >= 2 and x.op == 'abs' and d[m] != 0:
                d = dict(d)
                c = d.pop(m)
                k = abs(e) - abs(e) % 2
                sg = 1 if e > 0 else -1
                rest = mmul(m, ((x, -sg * k),))
                q = power(x.a[0], k)
                return add(from_dict(d), mul(from_dict({rest: c}), q if e > 0 else inv(q)))
    d = {m: norm_num(c) for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0])))
    return mk('poly', items)


_addc = {}
_scalec = {}
_mulc = {}


def add(*ts):
    r = _addc.get(ts)
    if r is not None:
        return r
    d = {}
    for t in ts:
        if t.op == 'undef':
            return t
        for m, c in (t.a[0] if t.op == 'poly' else pdict(t).items()):
            d[m] = d.get(m, 0) + c
    r = from_dict(d)
    _addc[ts] = r
    return r


def scale(t, c):
    k = (t, c)
    r = _scalec.get(k)
    if r is None:
        r = _scalec[k] = from_dict({m: q * c for m, q in pdict(t).items()})
    return r


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mmul(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


MAXTERMS = 600


def mul(*ts):
    r = _mulc.get(ts)
    if r is None:
        r = _mulc[ts] = _mul(*ts)
    return r


def _mul(*ts):
    r = {(): 1}
    for t in ts:
        p = pdict(t)
        if len(r) * len(p) > MAXTERMS:
            a = from_dict(r)
            r = {((a, 1), (t, 1)) if a is not t else ((a, 2),): 1}
            r = {tuple(sorted(k, key=lambda q: q[0].id)): v for k, v in r.items()}
            continue
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m = mmul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = {m: c for m, c in n.items() if c != 0}
    return from_dict(r)


def inv(t):
    p = pdict(t)
    if not p:
        return mk('undef', 'div0')
    if len(p) == 1:
        (m, c), = p.items()
        return from_dict({tuple((x, -e) for x, e in m): Fraction(1) / c})
    # normalise by the leading coefficient
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[0][1]
    q = from_dict({m: Fraction(c) / lead for m, c in p.items()})
    return from_dict({((q, -1),): Fraction(1) / lead})


def div(a, b):
    if is_num(b) and b.a[0] == 0:
        return mk('fn', 'divzero', a)
    r = mul(a, inv(b))
    return r


def as_const(t):
    return t.a[0] if t.op == 'num' else None


# ---------------------------------------------------------------- types/ranges
TYR = {'nnreal': (0, float('inf')), 'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 31 - 1), 'u64': (0, 2 ** 63), 'usize': (0, 2 ** 62),
       'u128': (0, 2 ** 126), 'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2 ** 31, 2 ** 31 - 1),
       'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 62, 2 ** 62), 'i128': (-2 ** 127, 2 ** 127),
       'nat1': (1, 2 ** 31 - 1), 'chan': (1, 255)}
# full machine ranges, for casts
MACH = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'usize': (0, 2 ** 64 - 1),
        'u128': (0, 2 ** 128 - 1), 'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2 ** 31, 2 ** 31 - 1),
        'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1),
        'char': (0, 0x10ffff), 'nat1': (1, 2 ** 31 - 1), 'chan': (1, 255)}


def is_int_ty(ty):
    return ty in MACH


_isint = {}


def is_int(t):
    r = _isint.get(t)
    if r is None:
        r = _is_int(t)
        _isint[t] = r
    return r


def _is_int(t):
    o = t.op
    if o == 'num':
        return isinstance(t.a[0], int)
    if o == 'poly':
        for m, c in t.a[0]:
            if not isinstance(c, int):
                return False
            for x, e in m:
                if e < 0 or not is_int(x):
                    return False
        return True
    if o in ('bv', 'len', 'idiv', 'floor', 'ceil', 'round', 'trunc', 'wrap', 'first', 'sat', 'trip', 'b2i', 'discr', 'popcnt'):
        return True
    if o == 'var':
        return is_int_ty(t.a[1])
    if o == 'phi':
        return is_int_ty(t.a[2])
    if o == 'fold':
        return is_int_ty(t.a[3][t.a[2]].a[2])
    if o == 'mod':
        return is_int(t.a[0]) and is_int(t.a[1])
    if o in ('min', 'max', 'abs'):
        return all(is_int(x) for x in t.a)
    if o == 'ite':
        return is_int(t.a[1]) and is_int(t.a[2])
    if o == 'elem':
        return is_int_ty(seq_ety(t.a[0]))
    if o in ('sum', 'foldmax', 'foldmin'):
        return is_int(t.a[2])
    if o == 'app':
        return is_int_ty(t.a[1])
    return False


def seq_ety(s):
    o = s.op
    if o == 'svar':
        return s.a[2]
    if o == 'slice' or o == 'upd' or o == 'updr' or o == 'scatter':
        if o == 'scatter':
            return seq_ety(s.a[0])
        e = seq_ety(s.a[0])
        if e == 'i64' and o == 'upd' and not is_int(s.a[2]):
            return '?'
        return e
    if o == 'concat' and s.a:
        return seq_ety(s.a[0])
    if o == 'fill':
        return '?'
    if o == 'selem':
        return s.a[2]
    if o == 'phi' and s.a[2].startswith('seq:'):
        return s.a[2][4:]
    if o == 'fold':
        return seq_ety(s.a[3][s.a[2]])
    if o == 'sapp':
        return s.a[1]
    if o in ('mkeys', 'hkeys'):
        return 'i32'
    if o == 'ite':
        return seq_ety(s.a[1])
    if o == 'gen':
        b = s.a[2]
        if b.op == 'elem':
            return seq_ety(b.a[0])
        return 'i64' if is_int(b) else '?'
    if o == 'flatgen':
        return seq_ety(s.a[2])
    if o == 'lit' and s.a and all(x.op == 'num' and isinstance(x.a[0], int) for x in s.a):
        return 'i64'
    return '?'


_rng = {}


def rng(t):
    """Constant interval containing the value of the numeric term."""
    r = _rng.get(t)
    if r is None:
        r = _range(t)
        _rng[t] = r
    return r


def _pm(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _imul(r, s):
    c = [_pm(x, y) for x in r for y in s]
    return (min(c), max(c))


def _range(t):
    o = t.op
    if o == 'num':
        return (t.a[0], t.a[0])
    if o == 'poly':
        lo = hi = 0
        for m, c in t.a[0]:
            r = (c, c)
            for x, e in m:
                rx = rng(x)
                if e > 0:
                    if e % 2 == 0:
                        l, h = rx
                        ah = max(abs(l), abs(h))
                        al = 0 if l <= 0 <= h else min(abs(l), abs(h))
                        rx = (al, ah)
                        e //= 2
                        rr = (1, 1)
                        for _ in range(e):
                            rr = _imul(rr, (rx[0] * rx[0] if rx[0] != INF else INF, rx[1] * rx[1] if rx[1] != INF else INF))
                        r = _imul(r, rr)
                    else:
                        for _ in range(e):
                            r = _imul(r, rx)
                else:
                    l, h = rx
                    if l > 0:
                        rr = (0 if h == INF else Fraction(1) / h if not isinstance(h, float) else 1 / h,
                              Fraction(1) / l if not isinstance(l, float) else 1 / l)
                        for _ in range(-e):
                            r = _imul(r, rr)
                    else:
                        r = (-INF, INF)
            lo += r[0]
            hi += r[1]
            if lo != lo or hi != hi:
                lo, hi = -INF, INF
                break
        if lo == -INF or hi == INF:
            for m, c in t.a[0]:
                # c*floor(q) + r = (c*q + r) - c*frac, 0 <= frac < 1
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floor' and len(t.a[0]) <= 8:
                    u = add(t, scale(m[0][0], -c), scale(m[0][0].a[0], c))
                    if u.op == 'num' or u.op == 'poly' and len(u.a[0]) < len(t.a[0]):
                        l, h = rng(u)
                        lo, hi = max(lo, l - max(c, 0)), min(hi, h - min(c, 0))
        return (lo, hi)
    if o == 'bv':
        r = rng(t.a[1]) if isinstance(t.a[1], T) else (0, INF)
        return (0, max(0, r[1] - 1))
    if o == 'len':
        return (0, 2 ** 62)
    if o == 'var':
        if t.a[1] in TYR:
            return TYR[t.a[1]]
        if t.a[1] == 'nat1':
            return (1, 2 ** 31 - 1)
        return (-INF, INF)
    if o == 'phi':
        return TYR.get(t.a[2], (-INF, INF))
    if o == 'fold':
        return TYR.get(t.a[3][t.a[2]].a[2], (-INF, INF))
    if o == 'elem' or o == 'app':
        ty = seq_ety(t.a[0]) if o == 'elem' else t.a[1]
        return TYR.get(ty, (-INF, INF))
    if o == 'ite':
        a = rng(t.a[1])
        b = rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o == 'min':
        rs = [rng(x) for x in t.a]
        return (min(r[0] for r in rs), min(r[1] for r in rs))
    if o == 'max':
        rs = [rng(x) for x in t.a]
        return (max(r[0] for r in rs), max(r[1] for r in rs))
    if o == 'abs':
        l, h = rng(t.a[0])
        return (0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)))
    if o in ('floor', 'ceil', 'round', 'trunc'):
        l, h = rng(t.a[0])
        f = {'floor': math.floor, 'ceil': math.ceil, 'round': rnd, 'trunc': math.trunc}[o]
        return (l if l in (INF, -INF) else f(l), h if h in (INF, -INF) else f(h))
    if o in ('sat', 'wrap'):
        l, h = TYR.get(t.a[0], (-INF, INF))
        if o == 'sat':
            a, b = rng(t.a[1])
            l2 = l if a == -INF else min(max(math.trunc(a), l), h)
            h2 = h if b == INF else min(max(math.trunc(b), l), h)
            return (l2, h2)
        return MACH.get(t.a[0], (l, h))
    if o == 'mod':
        a = rng(t.a[0])
        b = rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (0, min(a[1], max(0, b[1] - 1)) if is_int(t) else b[1])
        m = max(abs(b[0]), abs(b[1]))
        return (-m, m)
    if o == 'idiv':
        a = rng(t.a[0])
        b = rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (0, a[1])
        m = max(abs(a[0]), abs(a[1]))
        return (-m, m)
    if o == 'first':
        r = rng(t.a[1])
        return (0, max(0, r[1]))
    if o == 'fn' and t.a[0] in ('sqrt', 'exp'):
        return (0, INF)
    if o == 'fn' and t.a[0] == 'pow':
        if t.a[1].op == 'num' and t.a[2].op == 'num' and 0 < t.a[1].a[0] < 1e6 and abs(t.a[2].a[0]) < 16:
            v = Fraction(math.pow(t.a[1].a[0], t.a[2].a[0]))
            return (v * (1 - Fraction(1, 10 ** 12)), v * (1 + Fraction(1, 10 ** 12)))
        if rng(t.a[1])[0] >= 0:
            return (0, INF)
    if o == 'fn' and t.a[0] in ('sin', 'cos'):
        return (-1, 1)
    if o == 'b2i':
        return (0, 1)
    if o == 'sum':
        r = rng(t.a[2])
        n = rng(t.a[1])
        return (0 if r[0] >= 0 else -INF, 0 if r[1] <= 0 else _pm(r[1], n[1]) if r[1] > 0 else INF)
    return (-INF, INF)


def rnd(x):
    """round half away from zero, as f32::round"""
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        return math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5)
    x = Fraction(x)
    return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))


# ---------------------------------------------------------------- booleans

def mk_not(c):
    o = c.op
    if o == 'bool':
        return FALSE if c.a[0] else TRUE
    if o == 'not':
        return c.a[0]
    if o == 'le0i':
        return le0i(sub(ONE, c.a[0]))
    if o == 'le0r':
        return lt0r(neg(c.a[0]))
    if o == 'lt0r':
        return le0r(neg(c.a[0]))
    if o == 'and':
        return mk_or(*[mk_not(x) for x in c.a])
    if o == 'or':
        return mk_and(*[mk_not(x) for x in c.a])
    if o == 'ite':
        return mk_ite(c.a[0], mk_not(c.a[1]), mk_not(c.a[2]))
    return mk('not', c)


def mk_and(*cs):
    return _nary('and', cs)


def mk_or(*cs):
    return _nary('or', cs)


def _nary(op, cs):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    s = []
    seen = set()

    def put(c):
        if c is unit:
            return True
        if c is zero:
            return False
        if c.op == op:
            for x in c.a:
                if not put(x):
                    return False
            return True
        if c in seen:
            return True
        if mk_not(c) in seen:
            return False
        seen.add(c)
        s.append(c)
        return True
    for c in cs:
        if not put(c):
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    # absorption: or(a, and(a, b)) = a ; or(a, and(not a, b)) = or(a, b)
    other = 'or' if op == 'and' else 'and'
    changed = False
    out = []
    for c in s:
        if c.op == other:
            if any(x in seen for x in c.a):
                changed = True
                continue
            keep = [x for x in c.a if mk_not(x) not in seen]
            if len(keep) != len(c.a):
                changed = True
                out.append(_nary(other, keep))
                continue
        out.append(c)
    if changed:
        return _nary(op, out)
    return mk(op, *sorted(s, key=lambda x: x.id))


def _leaf_const(t):
    """nested ite over numeric constants?"""
    if t.op == 'num':
        return True
    if t.op == 'ite':
        return _leaf_const(t.a[1]) and _leaf_const(t.a[2])
    return False


def _cmp(p, test, build):
    """p compared with zero; distribute over an ite of constants."""
    if p.op == 'num':
        return TRUE if test(p.a[0]) else FALSE
    l, h = rng(p)
    if p.op == 'ite' and (p.a[1].op == 'num' or p.a[2].op == 'num'):
        return mk_ite(p.a[0], _cmp(p.a[1], test, build), _cmp(p.a[2], test, build))
    d = pdict(p)
    iteats = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and _leaf_const(m[0][0])]
    if len(iteats) == 1 and all(m == () or m == iteats[0][0] for m in d):
        m, c = iteats[0]
        it = m[0][0]
        rest = d.get((), 0)

        def go(x):
            if x.op == 'num':
                return TRUE if test(norm_num(x.a[0] * c + rest)) else FALSE
            return mk_ite(x.a[0], go(x.a[1]), go(x.a[2]))
        return go(it)
    return build(p, l, h)


def _content(p):
    d = pdict(p)
    den = 1
    for c in d.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for m, c in d.items():
        g = math.gcd(g, int(c * den))
    return Fraction(den, g) if g else Fraction(1)


def le0i(p):
    if p.op == 'undef':
        return mk('undefb', p)
    if p.op == 'poly' and len(p.a[0]) <= 3:
        q = _kcmp(p)
        if q is not None:
            p = q

    def build(p, l, h):
        if h <= 0:
            return TRUE
        if l > 0:
            return FALSE
        d = pdict(p)
        c0 = d.get((), 0)
        g = 0
        ok = True
        for m, c in d.items():
            if not isinstance(c, int):
                ok = False
                break
            if m != ():
                g = math.gcd(g, c)
        if ok and g > 1:
            # g*q + c0 <= 0  <=>  q + ceil(c0/g) <= 0
            d = {m: c // g for m, c in d.items() if m != ()}
            d[()] = -((-c0) // g)
            p = from_dict(d)
        if p.op == 'abs':
            return eq0(p.a[0])
        for m, c in pdict(p).items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ('min', 'max'):
                # decided by one argument when the others are
                x = m[0][0]
                R = add(p, scale(x, -c))
                if not is_int(x) or not is_int(R) or x in _sub(R):
                    continue
                rs = [le0i(add(R, scale(y, c))) for y in x.a]
                if sum(r.op != 'bool' for r in rs) <= 1:
                    return mk_and(*rs) if (c > 0) == (x.op == 'max') else mk_or(*rs)
        q = sub(ONE, p)
        if q.op == 'abs' and is_int(q.a[0]):
            # |q| >= 1 for an integer
            return mk_not(eq0(q.a[0]))
        d = pdict(p)
        ms = [m for m in d if any(x.op == 'app' and x.a[0] in MONOTONE for x, e in m)]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and d[ms[0]] in (1, -1):
            # S(e) >= c  <=>  e is not before the first place where S reaches c
            x = ms[0][0][0]
            c = sub(p, scale(x, d[ms[0]]))
            if not is_int(c) or c.op == 'app' and c.a[0] in MONOTONE:
                return mk('le0i', p)
            if d[ms[0]] < 0:
                return le0i(sub(mk_app('first_ge:' + x.a[0], 'u32', *x.a[2:-1], c), x.a[-1]))
            return mk_not(le0i(sub(mk_app('first_ge:' + x.a[0], 'u32', *x.a[2:-1], sub(ONE, c)), x.a[-1])))
        return mk('le0i', p)
    return _cmp(p, lambda x: x <= 0, build)


def _unroot(p):
    # c0 + c1*r*M <= 0 with r = k^(1/n), n odd  <=>  (c1*r*M)^n <= (-c0)^n
    d = pdict(p)
    if len(d) == 2 and () in d:
        (m, c), = [(m, c) for m, c in d.items() if m != ()]
        for x, e in m:
            ra = _rootatom(x) if e == 1 else None
            if ra and ra[1] % 2:
                n = ra[1]
                return _unroot(add(power(from_dict({m: c}), n), num(norm_num(-(Fraction(-d[()]) ** n)))))
        if m and d[()] and all(e % 3 == 0 for _, e in m):
            r = _rootq(abs(Fraction(d[()]) / Fraction(c)), 3)
            if r is not None:
                return from_dict({tuple((x, e // 3) for x, e in m): 1 if c > 0 else -1, (): norm_num(r if d[()] > 0 else -r)})
    return p


def le0r(p):
    def build(p, l, h):
        if h <= 0:
            return TRUE
        if l > 0:
            return FALSE
        p = _unroot(p)
        q = scale(p, _content(p))
        if is_int(q):
            return le0i(q)
        if q.op == 'abs':
            return eq0(q.a[0])
        return mk('le0r', q)
    return _cmp(p, lambda x: x <= 0, build)


def lt0r(p):
    def build(p, l, h):
        if h < 0:
            return TRUE
        if l >= 0:
            return FALSE
        p = _unroot(p)
        q = scale(p, _content(p))
        if is_int(q):
            return le0i(add(q, ONE))
        return mk('lt0r', q)
    return _cmp(p, lambda x: x < 0, build)


def lt(a, b, integer):
    if integer:
        return le0i(add(sub(a, b), ONE))
    return lt0r(sub(a, b))


def le(a, b, integer):
    if integer:
        return le0i(sub(a, b))
    return le0r(sub(a, b))


def eq0(p):
    def build(p, l, h):
        if l > 0 or h < 0:
            return FALSE
        d = pdict(p)
        items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
        p = scale(p, _content(p))
        d = pdict(p)
        if len(d) == 1:
            # a product is zero when a factor is; exponentials and quotients never are
            (m, c), = d.items()
            fs = [x for x, e in m if e > 0 and not (x.op == 'fn' and x.a[0] == 'exp')]
            if not fs:
                return FALSE
            if len(fs) == 1 and p is not fs[0]:
                return eq0(fs[0])
            if len(fs) == 1 and p.op == 'mod' and p.a[1] is ONE and p.a[0].op == 'fn' and p.a[0].a[0] == 'sqrt' and p.a[0].a[1].op == 'num':
                q = Fraction(p.a[0].a[1].a[0])
                if q.denominator == 1 and q >= 0:
                    return TRUE if math.isqrt(q.numerator) ** 2 == q else FALSE
        lead = sorted((mc for mc in d.items() if mc[0] != ()), key=lambda mc: _mkey(mc[0]))
        if lead and lead[0][1] < 0:
            p = neg(p)
        return mk('eq0', p)
    return _cmp(p, lambda x: x == 0, build)


NUMERIC_OPS = {'num', 'poly', 'bv', 'len', 'elem', 'idiv', 'mod', 'min', 'max', 'floor', 'ceil', 'round', 'trunc', 'sat', 'wrap',
               'abs', 'fn', 'sum', 'first', 'b2i', 'discr', 'app', 'pow', 'foldmax', 'foldmin', 'bits'}


def is_numeric(t):
    if t.op == 'fold':
        return is_numeric(t.a[3][t.a[2]])
    if t.op == 'mapat':
        return is_numeric(t.a[2])
    if t.op in NUMERIC_OPS:
        return True
    if t.op == 'var':
        return t.a[1] not in ('bool', 'fn', 'seq', 'opaque', 'enum')
    if t.op == 'phi':
        return is_int_ty(t.a[2]) or t.a[2] == 'real'
    if t.op == 'ite':
        return is_numeric(t.a[1]) and is_numeric(t.a[2])
    return False


def is_boolean(t):
    if t.op in ('bool', 'not', 'and', 'or', 'le0i', 'le0r', 'lt0r', 'eq0', 'eq', 'exists', 'undefb'):
        return True
    if t.op == 'var':
        return t.a[1] == 'bool'
    if t.op == 'phi':
        return t.a[2] == 'bool'
    if t.op == 'fold':
        return t.a[3][t.a[2]].a[2] == 'bool'
    if t.op == 'ite':
        return is_boolean(t.a[1]) and is_boolean(t.a[2])
    if t.op == 'app':
        return t.a[1] == 'bool'
    return False


def mk_eq(a, b):
    if a is b:
        return TRUE
    if is_boolean(a) and is_boolean(b):
        return mk_ite(a, b, mk_not(b))
    if is_numeric(a) and is_numeric(b):
        return eq0(sub(a, b))
    if a.op == 'ite' and not is_numeric(a):
        return mk_ite(a.a[0], mk_eq(a.a[1], b), mk_eq(a.a[2], b))
    if b.op == 'ite' and not is_numeric(b):
        return mk_ite(b.a[0], mk_eq(a, b.a[1]), mk_eq(a, b.a[2]))
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.a[0] == b.a[0] else FALSE
    return mk('eq', *sorted((a, b), key=lambda x: x.id))


# ---------------------------------------------------------------- ite

def mk_ite(c, a, b):
    if c.op == 'bool':
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return mk_ite(c.a[0], b, a)
    if c.op in ('le0i', 'lt0r') :
        pass
    if a.op == 'bool' and b.op == 'bool':
        return c if a.a[0] else mk_not(c)
    if a.op == 'bool' and is_boolean(b):
        return mk_or(c, b) if a.a[0] else mk_and(mk_not(c), b)
    if b.op == 'bool' and is_boolean(a):
        return mk_or(mk_not(c), a) if b.a[0] else mk_and(c, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return mk('agg', a.a[0], a.a[1], *[mk_ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]:
        return mk('iter', a.a[0], mk_ite(c, a.a[1], b.a[1]))
    if a.op == 'clo' and b.op == 'clo' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        return mk('clo', a.a[0], *[mk_ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == 'lit' and b.op == 'lit' and len(a.a) == len(b.a):
        return mk('lit', *[mk_ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'mref' and b.op == 'mref':
        return mk('ite', c, a, b)
    # canonical polarity
    nc = mk_not(c)
    if _rank(nc) < _rank(c):
        c, a, b = nc, b, a
    if is_numeric(a) and is_numeric(b):
        da, db = pdict(a), pdict(b)
        common = {m: k for m, k in da.items() if m in db and db[m] == k}
        if common and (len(common) < len(da) or len(common) < len(db)) and not (len(da) == 1 and () in common) and not (len(db) == 1 and () in common):
            ra = from_dict({m: k for m, k in da.items() if m not in common})
            rb = from_dict({m: k for m, k in db.items() if m not in common})
            return add(from_dict(common), mk_ite(c, ra, rb))
        # max / min recognition: ite(a<=b, a, b)
        r = _minmax(c, a, b)
        if r is not None:
            return r
        if a is ZERO and b.op == 'num' and b.a[0] < 0 or b is ZERO and a.op == 'num' and a.a[0] < 0:
            return neg(mk_ite(c, neg(a), neg(b)))
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return mk('ite', c, a, b)


def _minmax(c, a, b):
    if c.op not in ('le0i', 'le0r', 'lt0r'):
        return None
    p = c.a[0]
    d = sub(a, b)
    if c.op == 'le0i':
        d1 = add(d, ONE)
    else:
        d1 = d
    for q, f in ((p, 1),):
        sp = scale(q, _content(q))
        for dd in (d, d1) if c.op == 'le0i' else (d,):
            if dd.op == 'num':
                continue
            if scale(dd, _content(dd)) is sp:      # a - b <= 0 -> a
                return mk_min(a, b)
        e = neg(d)
        for dd in (e, add(e, ONE)) if c.op == 'le0i' else (e,):
            if dd.op == 'num':
                continue
            if scale(dd, _content(dd)) is sp:      # b - a <= 0 -> a
                return mk_max(a, b)
    return None


def _rank(c):
    return (1 if c.op == 'not' else 0, c.op, c.id)


_assume_cache = {}


def assume(t, c, val):
    """simplify t's top-level ite/boolean structure under c == val (bounded)"""
    if t.op not in ('ite', 'and', 'or', 'not', 'le0i', 'le0r', 'lt0r', 'eq0', 'agg', 'concat', 'exists', 'eq', 'app', 'var', 'phi', 'iter', 'poly', 'updr', 'upd'):
        return t
    if t.fb is None:
        return t
    k = (t, c, val)
    r = _assume_cache.get(k)
    if r is None:
        r = _assume(t, c, val, 12)
        _assume_cache[k] = r
    return r


def _assume(t, c, val, depth):
    if t is c:
        return TRUE if val else FALSE
    if depth == 0:
        return t
    if t.op in ('le0i', 'le0r', 'lt0r', 'eq0', 'eq', 'exists', 'app', 'var', 'phi') and is_boolean(t):
        if mk_not(t) is c:
            return FALSE if val else TRUE
        if val and c.op == 'and':
            if t in c.a:
                return TRUE
            if mk_not(t) in c.a:
                return FALSE
        if not val and c.op == 'or':
            if t in c.a:
                return FALSE
            if mk_not(t) in c.a:
                return TRUE
        cc = c if val else mk_not(c)
        if cc.op == t.op and cc.op in ('le0i', 'le0r', 'lt0r'):
            dlt = sub(t.a[0], cc.a[0])
            if dlt.op == 'num' and dlt.a[0] <= 0:
                return TRUE
        nt = mk_not(t)
        if cc.op == nt.op and cc.op in ('le0i', 'le0r', 'lt0r'):
            dlt = sub(nt.a[0], cc.a[0])
            if dlt.op == 'num' and dlt.a[0] <= 0:
                return FALSE
        return t
    if t.op == 'ite':
        cc = _assume(t.a[0], c, val, depth - 1)
        if cc is TRUE:
            return _assume(t.a[1], c, val, depth - 1)
        if cc is FALSE:
            return _assume(t.a[2], c, val, depth - 1)
        a = _assume(t.a[1], c, val, depth - 1)
        b = _assume(t.a[2], c, val, depth - 1)
        if cc is t.a[0] and a is t.a[1] and b is t.a[2]:
            return t
        return mk_ite(cc, a, b)
    if t.op in ('and', 'or'):
        xs = [_assume(x, c, val, depth - 1) for x in t.a]
        if all(x is y for x, y in zip(xs, t.a)):
            return t
        return _nary(t.op, xs)
    if t.op == 'not':
        return mk_not(_assume(t.a[0], c, val, depth - 1))
    if t.op == 'agg':
        xs = [_assume(x, c, val, depth - 1) for x in t.a[2:]]
        if all(x is y for x, y in zip(xs, t.a[2:])):
            return t
        return mk('agg', t.a[0], t.a[1], *xs)
    if t.op == 'iter':
        x = _assume(t.a[1], c, val, depth - 1)
        return t if x is t.a[1] else mk('iter', t.a[0], x)
    if t.op == 'poly':
        chg = False
        ts = []
        for m, k in t.a[0]:
            fs = []
            for x, e in m:
                y = _assume(x, c, val, depth - 1) if x.op in ('ite',) else x
                if y is not x:
                    chg = True
                fs.append((y, e))
            ts.append((k, fs))
        if not chg:
            return t
        out = []
        for k, fs in ts:
            p = num(k)
            for y, e in fs:
                p = mul(p, power(y, e))
            out.append(p)
        return add(*out)
    return t


def power(t, e):
    if e == 0:
        return ONE
    if e < 0:
        return inv(power(t, -e))
    r = ONE
    for _ in range(e):
        r = mul(r, t)
    return r


# ---------------------------------------------------------------- scalar ops

def mk_min(*xs):
    return _mm('min', xs)


def mk_max(*xs):
    return _mm('max', xs)


def _mm(op, xs):
    fl = []
    for x in xs:
        if x.op == op:
            fl += x.a
        else:
            fl.append(x)
    c = None
    out = []
    for x in fl:
        if x.op == 'num':
            v = x.a[0]
            c = v if c is None else (min(c, v) if op == 'min' else max(c, v))
        elif x not in out:
            out.append(x)
    if len(out) == 2 and c is None and add(out[0], out[1]) is ZERO:
        a = mk_abs(out[0])
        return a if op == 'max' else neg(a)
    # comparable by constant difference / ranges
    res = []
    for i, x in enumerate(out):
        dead = False
        for j, y in enumerate(out):
            if i == j:
                continue
            d = sub(x, y)
            l, h = rng(d)
            if op == 'min':
                if l > 0 or (l >= 0 and (j < i or h > 0) and not (h <= 0)):
                    dead = True
            else:
                if h < 0 or (h <= 0 and (j < i or l < 0) and not (l >= 0)):
                    dead = True
        if not dead:
            res.append(x)
    out = res or out
    if c is not None:
        drop = False
        keep = []
        for x in out:
            l, h = rng(x)
            if l == h == c:
                continue
            if op == 'min':
                if h <= c:
                    drop = True
                if l >= c:
                    continue
            else:
                if l >= c:
                    drop = True
                if h <= c:
                    continue
            keep.append(x)
        out = keep
        if not drop:
            out = out + [num(c)]
    if len(out) == 1:
        return out[0]
    if op == 'max' and len(out) <= 4:
        # max(a, min(b, c)) = min(b, max(a, c)) when a <= b
        mins = [x for x in out if x.op == 'min']
        if len(mins) == 1:
            others = [x for x in out if x.op != 'min']
            up = [b for b in mins[0].a if all(rng(sub(x, b))[1] <= 0 for x in others)]
            if up:
                cs = [b for b in mins[0].a if b not in up]
                if not cs:
                    return mins[0]
                return _mm('min', up + [_mm('max', others + [_mm('min', cs)])])
    return mk(op, *sorted(out, key=lambda x: x.id))


def mk_abs(x):
    if x.op == 'num':
        return num(abs(x.a[0]))
    l, h = rng(x)
    if l >= 0:
        return x
    if h <= 0:
        return neg(x)
    d = pdict(x)
    lead = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    lead = [q for q in lead if q[0] != ()] or lead
    if lead[0][1] < 0:
        x = neg(x)
    return mk('abs', x)


def mk_round(kind, x):
    if x.op == 'undef':
        return x
    if x.op == 'num':
        f = {'floor': math.floor, 'ceil': math.ceil, 'round': rnd, 'trunc': math.trunc}[kind]
        return num(f(x.a[0]))
    if is_int(x):
        return x
    if x.op == 'ite' and (is_int(x.a[1]) or is_int(x.a[2])):
        return mk_ite(x.a[0], mk_round(kind, x.a[1]), mk_round(kind, x.a[2]))
    if kind in ('floor', 'ceil'):
        # floor(x + integer) = floor(x) + integer
        d = pdict(x)
        ip = {}
        rp = {}
        for m, c in d.items():
            t = from_dict({m: c})
            if is_int(t):
                ip[m] = c
            else:
                rp[m] = c
        if ip and rp:
            return add(from_dict(ip), mk_round(kind, from_dict(rp)))
    if kind == 'trunc' and rng(x)[0] >= 0:
        return mk_round('floor', x)
    return mk(kind, x)


def mk_sat(ty, x):
    """float -> int `as` cast (truncation, saturating)"""
    if x.op == 'undef':
        return x
    lo, hi = MACH[ty]
    if x.op == 'num':
        return num(min(max(math.trunc(x.a[0]), lo), hi))
    if x.op == 'ite':
        return mk_ite(x.a[0], mk_sat(ty, x.a[1]), mk_sat(ty, x.a[2]))
    l, h = rng(x)
    if l > lo - 1 and h < hi + 1:
        return mk_round('trunc', x)
    if x.op in ('trunc',):
        return mk('sat', ty, x.a[0])
    # redundant clamps to the type's own range
    if x.op in ('min', 'max'):
        pass
    return mk('sat', ty, x)


def mk_wrap(ty, x):
    lo, hi = MACH[ty]
    if x.op == 'undef':
        return x
    if x.op == 'num':
        v = x.a[0]
        m = hi - lo + 1
        return num((v - lo) % m + lo)
    l, h = rng(x)
    if l >= lo and h <= hi:
        return x
    if x.op == 'ite':
        return mk_ite(x.a[0], mk_wrap(ty, x.a[1]), mk_wrap(ty, x.a[2]))
    if x.op == 'wrap':
        l2, h2 = MACH[x.a[0]]
        if (h2 - l2 + 1) % (hi - lo + 1) == 0:
            return mk_wrap(ty, x.a[1])
    return mk('wrap', ty, x)


def mk_idiv(a, b, facts=()):
    if a.op == 'undef':
        return a
    if b.op == 'num' and b.a[0] == 1:
        return a
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        q = Fraction(a.a[0]) / b.a[0]
        return num(math.trunc(q))
    if a is ZERO:
        return ZERO
    # a = b*q + r with 0 <= r < b
    if b.op == 'num' and b.a[0] == 0:
        return mk('idiv', a, b)
    if a.op == 'poly' and len(a.a[0]) == 2:
        for m, c in a.a[0]:
            if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and m[0][0].a[1] is b and add(a, m[0][0]) is m[0][0].a[0]:
                return mk('idiv', m[0][0].a[0], b)
    if b.op == 'num' and a.op == 'poly' and len(a.a[0]) == 2:
        # k + max(0, x - k) with 0 <= k < b: the number of whole steps in x
        d = pdict(a)
        k = d.get((), 0)
        for m, c in d.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'max' and 0 < k < b.a[0]:
                ys = [y for y in m[0][0].a if y is not ZERO]
                if len(ys) == 1 and len(m[0][0].a) == 2:
                    y = add(ys[0], num(k))
                    if is_int(y) and (rng(y)[0] >= 0 or prove_le0(neg(y), facts)):
                        return mk_idiv(y, b, facts)
    g = _common(a, b, facts)
    if g is not None:
        return mk_idiv(g[1], num(g[2]), facts)
    if a.op == 'poly' and all(c < 0 for _, c in a.a[0]):
        # truncating division is odd in the numerator
        return neg(mk_idiv(neg(a), b, facts))
    q, r = _split(a, b)
    if q is not ZERO:
        if r is ZERO:
            return q
        if rng(r)[0] >= 0 and prove_le0(add(sub(r, b), ONE), facts) and prove_le0(neg(q), facts):
            return q
        if prove_le0(neg(r), facts) and prove_le0(add(sub(r, b), ONE), facts) and prove_le0(neg(q), facts):
            return q
        for k in (-1, 1):
            q1, r1 = add(q, num(k)), sub(r, scale(b, k))
            if prove_le0(neg(r1), facts) and prove_le0(add(sub(r1, b), ONE), facts) and prove_le0(neg(q1), facts):
                return q1
    else:
        if prove_le0(neg(a), facts) and prove_le0(add(sub(a, b), ONE), facts):
            return ZERO
    return mk('idiv', a, b)


def _common(a, b, facts):
    """a = g*x + c and b = g*n with 0 <= c < g, g > 1, x >= 0: (g, x, n, c)"""
    if a.op != 'poly' or b.op != 'num' or not isinstance(b.a[0], int) or b.a[0] <= 1:
        return None
    g = b.a[0]
    c = 0
    for m, k in a.a[0]:
        if not isinstance(k, int):
            return None
        if m:
            g = math.gcd(g, k)
        else:
            c = k
    if g <= 1 or not is_int(a):
        return None
    c %= g
    x = scale(sub(a, num(c)), Fraction(1, g))
    if rng(x)[0] < 0 and not prove_le0(neg(x), facts, 4):
        return None
    return g, x, b.a[0] // g, c


def mk_mod(a, b, facts=()):
    if a.op == 'undef':
        return a
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = a.a[0], b.a[0]
        return num(x - y * math.trunc(Fraction(x) / y))
    if b.op == 'num' and b.a[0] == 1 and is_int(a):
        return ZERO
    if b.op == 'num' and b.a[0] == 0:
        return mk('mod', a, b)
    if a.op == 'mod' and b.op == 'num' and a.a[1].op == 'num' and b.a[0] > 0 and a.a[1].a[0] % b.a[0] == 0:
        return mk_mod(a.a[0], b, facts)
    g = _common(a, b, facts)
    if g is not None:
        g, x, n, c = g
        return add(scale(mk_mod(x, num(n), facts), g), num(c))
    q, r = _split(a, b)
    if r is ZERO and is_int(q):
        return ZERO
    if is_int(a) and is_int(b):
        for k in (0, -1, 1) if q is not ZERO else (0,):
            q1, r1 = add(q, num(k)), sub(r, scale(b, k))
            if prove_le0(neg(r1), facts) and prove_le0(add(sub(r1, b), ONE), facts) and (q1 is ZERO or prove_le0(neg(q1), facts)):
                return r1
        if b.op == 'num' and b.a[0] == 2 and a.op == 'poly' and isinstance(pdict(a).get(()), int) and pdict(a)[()] % 2:
            # the other parity
            x = sub(a, num(pdict(a)[()]))
            if is_int(x) and rng(x)[0] >= 0 and rng(a)[0] >= 0:
                return sub(ONE, mk_mod(x, b, facts))
    return mk('mod', a, b)


def _split(a, b):
    """a = b*q + r, q collecting the monomials divisible by the monomial b"""
    db = pdict(b)
    if len(db) != 1:
        # polynomial division by the monomial of highest degree
        da = pdict(a)
        m0, c0 = max(db.items(), key=lambda mc: (sum(e for _, e in mc[0]), _mkey(mc[0])))
        q = {}
        r = dict(da)
        for _ in range(20):
            hit = None
            for m, c in r.items():
                k = Fraction(c) / c0
                mm = mmul(m, tuple((x, -e) for x, e in m0))
                if k.denominator == 1 and all(e > 0 for _, e in mm) and all(x.op != '' for x, _ in mm):
                    hit = (m, mm, int(k))
                    break
            if hit is None:
                break
            m, mm, k = hit
            q[mm] = q.get(mm, 0) + k
            for m1, c1 in db.items():
                m2 = mmul(m1, mm)
                v = r.get(m2, 0) - k * c1
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
        else:
            return ZERO, a
        if q:
            return from_dict(q), from_dict(r)
        return ZERO, a
    (mb, cb), = db.items()
    q = {}
    r = {}
    for m, c in pdict(a).items():
        mm = mmul(m, tuple((x, -e) for x, e in mb))
        k = Fraction(c) / cb
        if all(e > 0 for _, e in mm) and k.denominator == 1:
            q[mm] = int(k)
        else:
            r[m] = c
    if mb == () and q:
        # constant divisor: split remaining constant part
        c = r.get((), 0)
    return from_dict(q), from_dict(r)


def mk_pow(x, y):
    if y.op == 'num':
        e = y.a[0]
        if isinstance(e, int) and 0 <= e <= 8:
            return power(x, e)
        if e == Fraction(1, 2):
            return mk_fn('sqrt', x)
    if x.op == 'num' and abs(x.a[0] - Fraction(271828182845904523536, 10 ** 20)) < Fraction(1, 10 ** 6):
        return mk_fn('exp', y)
    if x.op == 'num' and y.op == 'num' and x.a[0] > 0:
        e = y.a[0]
        if isinstance(e, int):
            return num(Fraction(x.a[0]) ** e)
        r = _rootq(Fraction(x.a[0]), Fraction(e).denominator)
        if r is not None:
            return num(norm_num(r ** Fraction(e).numerator))
    if y.op == 'num' and x.op == 'fn' and x.a[0] == 'pow' and rng(x.a[1])[0] >= 0:
        # (b^a)^y = b^(a*y) for b >= 0
        return mk_pow(x.a[1], mul(x.a[2], y))
    if y.op == 'num' and not isinstance(y.a[0], int):
        d = pdict(x)
        if len(d) == 1:
            (m, c), = d.items()
            n = Fraction(y.a[0]).denominator
            if m and c > 0 and all(rng(q)[0] >= 0 for q, _ in m):
                es = [(q, Fraction(e) * Fraction(y.a[0])) for q, e in m]
                if all(e.denominator == 1 for _, e in es):
                    r = from_dict({tuple((q, int(e)) for q, e in es): 1})
                    return r if c == 1 else mul(r, mk_pow(num(c), y))
    return mk('fn', 'pow', x, y)


def _rootq(f, n):
    # exact n-th root of a positive rational, or None
    def root(k):
        if k < 2 ** 1000:
            r = round(k ** (1.0 / n))
            for z in (r - 1, r, r + 1):
                if z >= 0 and z ** n == k:
                    return z
        return None
    if n > 64 or f <= 0:
        return None
    a, b = root(f.numerator), root(f.denominator)
    return None if a is None or b is None else Fraction(a, b)


def _rootatom(x):
    # (base, n) of a constant root k^(1/n), n odd or not, k > 0
    if x.op == 'fn' and x.a[0] == 'pow' and x.a[1].op == 'num' and x.a[2].op == 'num' and x.a[1].a[0] > 0:
        e = Fraction(x.a[2].a[0])
        if e.numerator == 1 and 2 <= e.denominator <= 9:
            return x.a[1], e.denominator
    return None


def mk_fn(name, *xs):
    if name == 'sqrt':
        x = xs[0]
        if x.op == 'num' and x.a[0] >= 0:
            f = Fraction(x.a[0])
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return num(Fraction(a, b))
        d = pdict(x)
        if len(d) == 1:
            (m, c), = d.items()
            if all(e == 2 for _, e in m) and c == 1 and all(rng(q)[0] >= 0 for q, _ in m):
                return from_dict({tuple((q, 1) for q, _ in m): 1})
        if 3 <= len(d) <= 10:
            # perfect square of a nonnegative polynomial
            roots = []
            for m, c in d.items():
                f = Fraction(c)
                if f > 0 and all(e % 2 == 0 for _, e in m):
                    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                    if a * a == f.numerator and b * b == f.denominator:
                        roots.append(from_dict({tuple((q, e // 2) for q, e in m): norm_num(Fraction(a, b))}))
            if 2 <= len(roots) <= 4:
                for bits in range(2 ** (len(roots) - 1)):
                    q = add(*[scale(r, -1 if i and (bits >> (i - 1)) & 1 else 1) for i, r in enumerate(roots)])
                    if mul(q, q) is x:
                        if rng(q)[0] >= 0:
                            return q
                        if rng(q)[1] <= 0:
                            return neg(q)
    if name == 'exp' and xs[0] is ZERO:
        return ONE
    if name in ('sin', 'cos'):
        if xs[0] is ZERO:
            return ZERO if name == 'sin' else ONE
        lead = [q for q in sorted(pdict(xs[0]).items(), key=lambda mc: _mkey(mc[0]))]
        if lead and lead[0][1] < 0:
            r = mk('fn', name, neg(xs[0]))
            return neg(r) if name == 'sin' else r
    return mk('fn', name, *xs)


# ---------------------------------------------------------------- proving p <= 0

_prove = {}


def tighten(facts):
    """integer bounds moved past an excluded end point"""
    r = _tight.get(facts)
    if r is not None:
        return r
    _tight[facts] = facts
    out = facts
    for f in facts:
        for g in (f.a if f.op == 'and' else (f,)):
            if g.op == 'not' and g.a[0].op == 'eq0' and is_int(g.a[0].a[0]):
                e = g.a[0].a[0]
                rest = tuple(x for x in facts if x is not f)
                if prove_le0(neg(e), rest, 3):
                    out = out + (le0i(sub(ONE, e)),)
                elif prove_le0(e, rest, 3):
                    out = out + (le0i(add(e, ONE)),)
    _tight[facts] = out
    _tight[out] = out
    return out


_tight = {}
# steps left for the proof search of the current obligation
FUEL = [10 ** 9]
DEAD = [None]               # the time at which the search for a proof is given up


def prove_le0(p, facts=(), depth=7):
    """sound, incomplete: p <= 0 for all values of the atoms respecting their ranges and the facts"""
    if facts:
        facts = tighten(facts)
    if p.op == 'num':
        return p.a[0] <= 0
    if p.op == 'undef':
        return False
    k = (p, facts, depth)
    r = _prove.get(k)
    if r is not None:
        return r
    FUEL[0] -= 1
    if DEAD[0] is not None and FUEL[0] % 16 == 0 and time.time() > DEAD[0]:
        FUEL[0] = -1
    if FUEL[0] < 0:
        return False
    _prove[k] = False
    r = _prove_le0(p, facts, depth)
    if FUEL[0] < 0 and not r:
        del _prove[k]
    else:
        _prove[k] = r
    return r


def strict_facts(facts):
    """polynomials known to be < 0"""
    r = _strict.get(facts)
    if r is None:
        r = []
        for f in facts:
            for g in (f.a if f.op == 'and' else (f,)):
                if g.op == 'not' and g.a[0].op == 'le0r':
                    r.append(neg(g.a[0].a[0]))
                elif g.op == 'lt0r':
                    r.append(g.a[0])
                elif g.op == 'not' and g.a[0].op == 'lt0r':
                    pass
        r = _strict[facts] = tuple(r)
    return r


_strict = {}


def prove_lt0(p, facts, depth=3):
    """sound, incomplete: p < 0 under the facts"""
    if p.op == 'num':
        return p.a[0] < 0
    if rng(p)[1] < 0:
        return True
    if is_int(p) and not _has_inv(p):
        return prove_le0(add(p, ONE), facts)
    st = strict_facts(facts)
    if depth <= 0 or not st and not _has_inv(p):
        return False
    k = ('lt', p, facts, depth)
    r = _prove.get(k)
    if r is None:
        _prove[k] = False
        r = _prove_lt0(p, facts, st, depth) or depth > 1 and not _has_inv(p) and prove_le0(add(p, num(Fraction(1, 2))), facts)
        _prove[k] = r
    return r


def _has_inv(p):
    return p.op == 'poly' and any(e < 0 for m, _ in p.a[0] for _, e in m)


def clear_inv(p, facts):
    """p multiplied by its positive denominators"""
    for _ in range(3):
        den = {}
        for m, _c in pdict(p).items():
            for x, e in m:
                if e < 0:
                    den[x] = max(den.get(x, 0), -e)
        if not den:
            return p
        for x, e in den.items():
            if not prove_lt0(neg(x), facts):
                return p
        for x, e in den.items():
            out = []
            for m, c in pdict(p).items():
                k = dict(m).get(x, 0)
                rest = from_dict({tuple((y, f) for y, f in m if y is not x): c})
                out.append(mul(rest, power(x, e + k)))
            p = add(*out)
    return p


def _prove_lt0(p, facts, st, depth):
    d = pdict(p)
    if _has_inv(p):
        q = clear_inv(p, facts)
        return q is not p and prove_lt0(q, facts, depth - 1)
    for q in st:
        dq = pdict(q)
        ks = {1}
        for m, c in dq.items():
            if m in d:
                k = Fraction(d[m]) / Fraction(c)
                if k > 0:
                    ks.add(k)
        for k in ks:
            if prove_le0(sub(p, scale(q, norm_num(Fraction(k)))), facts):
                return True
    # common factor of known sign
    ms = list(d)
    if len(ms) >= 1 and () not in d:
        common = {}
        for x, e in ms[0]:
            common[x] = e
        for m in ms[1:]:
            dm = dict(m)
            for x in list(common):
                if x not in dm:
                    del common[x]
                else:
                    common[x] = min(common[x], dm[x])
        common = {x: e for x, e in common.items() if e > 0}
        if common and not (len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1):
            x = next(iter(common))
            rest = from_dict({tuple(sorted(((y, f - (1 if y is x else 0)) for y, f in m if not (y is x and f == 1)), key=lambda q: q[0].id)): c for m, c in d.items()})
            if prove_lt0(neg(x), facts, depth - 1):
                return prove_lt0(rest, facts, depth - 1)
            if prove_lt0(x, facts, depth - 1):
                return prove_lt0(neg(rest), facts, depth - 1)
    return False


def _coef(d, atom):
    """p = A*atom + B (atom linear) or None"""
    A = {}
    B = {}
    for m, c in d.items():
        e = 0
        for x, k in m:
            if x is atom:
                e = k
            elif atom in _sub(x):
                return None
        if e == 0:
            B[m] = c
        elif e == 1:
            A[tuple((x, k) for x, k in m if x is not atom)] = c
        else:
            return None
    return from_dict(A), from_dict(B)


_subc = {}


def _sub(t):
    r = _subc.get(t)
    if r is None:
        s = set([t])
        for x in t.a:
            if isinstance(x, T):
                s |= _sub(x)
            elif isinstance(x, tuple):
                for y in _iterT(x):
                    s |= _sub(y)
        r = frozenset(s)
        _subc[t] = r
    return r


def subterms(t):
    return _sub(t)


def _prove_le0(p, facts, depth):
    l, h = rng(p)
    if h <= 0:
        return True
    for f in facts:
        if f.op in ('le0i', 'le0r') and f.a[0] is p:
            return True
    if l > 0 or depth <= 0:
        return False
    d = pdict(p)
    if all(c <= 0 for c in d.values()) and all(e > 0 or True for m in d for _, e in m):
        if all(all(rng(x)[0] >= 0 for x, e in m) for m in d):
            return True
    if len(d) <= 12 and _shifted_nonpos(d):
        return True
    if () not in d:
        # a common nonnegative factor
        ms = list(d)
        for x, e in ms[0]:
            if e > 0 and all(any(y is x and f > 0 for y, f in m) for m in ms[1:]) and (rng(x)[0] >= 0 or prove_le0(neg(x), facts, depth - 2)):
                return prove_le0(from_dict({mmul(m, ((x, -1),)): c for m, c in d.items()}), facts, depth)
    ats = []
    for m in d:
        for x, e in m:
            if x not in ats:
                ats.append(x)
    # bound variables: latest first (inner bounds may mention outer ones)
    bvs = sorted([x for x in ats if x.op == 'bv'], key=lambda x: -x.id)
    for b in bvs:
        ab = _coef(d, b)
        if ab is None:
            continue
        A, B = ab
        ok = None
        if rng(A)[0] >= 0 or prove_le0(neg(A), facts, depth - 1):
            ok = add(mul(A, sub(b.a[1], ONE)), B)
        elif rng(A)[1] <= 0 or prove_le0(A, facts, depth - 1):
            ok = B
        if ok is not None:
            if prove_le0(ok, facts, depth - 1):
                return True
            break
    for x in ats:
        if x.op in ('ite', 'min', 'max', 'mod', 'idiv', 'first', 'abs', 'floor', 'ceil', 'trunc', 'round', 'sat'):
            ab = _coef(d, x)
            if ab is None:
                continue
            A, B = ab
            sg = 1 if (rng(A)[0] >= 0 or prove_le0(neg(A), facts, depth - 2)) else -1 if (rng(A)[1] <= 0 or prove_le0(A, facts, depth - 2)) else 0
            if sg == 0:
                if x.op != 'ite':
                    continue
            if x.op == 'ite':
                f1 = facts + (x.a[0],)
                f2 = facts + (mk_not(x.a[0]),)
                if prove_le0(add(mul(A, x.a[1]), B), f1, depth - 1) and prove_le0(add(mul(A, x.a[2]), B), f2, depth - 1):
                    return True
                continue
            if x.op == 'abs':
                rs = (prove_le0(add(mul(A, y), B), facts, depth - 1) for y in (x.a[0], neg(x.a[0])))
                if (any(rs) if sg < 0 else all(rs)):
                    return True
                continue
            if x.op in ('min', 'max'):
                anyok = (x.op == 'min') == (sg > 0)
                rs = (prove_le0(add(mul(A, y), B), facts, depth - 1) for y in x.a)
                if (any(rs) if anyok else all(rs)):
                    return True
                continue
            if x.op == 'mod' and sg < 0 and not is_num(x.a[1]):
                # mod(a, b) = a - b*q with q <= m - 1 when a < b*m
                y, dd = x.a
                ups = [y.a[1]] if y.op == 'bv' else []
                for g in facts:
                    if g.op == 'le0i':
                        cf = _coef(pdict(g.a[0]), y) if y.op != 'poly' else None
                        if cf is not None and cf[0] is ONE:
                            ups.append(sub(ONE, cf[1]))
                hit = False
                for u in ups:
                    q, r = _split(u, dd)
                    if r is ZERO and prove_le0(sub(ONE, q), facts, depth - 2):
                        if prove_le0(add(mul(neg(A), dd, sub(q, ONE)), B, mul(A, y)), facts, depth - 1):
                            hit = True
                            break
                if hit:
                    return True
                continue
            if x.op == 'mod' and sg > 0 and (rng(x.a[0])[0] >= 0 or prove_le0(neg(x.a[0]), facts, depth - 2)):
                if prove_le0(add(mul(A, sub(x.a[1], ONE)), B), facts, depth - 1) or prove_le0(add(mul(A, x.a[0]), B), facts, depth - 1):
                    return True
                continue
            if x.op == 'first':
                y = x.a[1] if sg > 0 else ZERO
                if prove_le0(add(mul(A, y), B), facts, depth - 1):
                    return True
                continue
            if x.op == 'idiv' and is_num(x.a[1]) and x.a[1].a[0] > 0 and rng(x.a[0])[0] >= 0:
                c = x.a[1].a[0]
                if A in (ONE, MONE) and is_int(B):
                    # exact: floor(a / c) <= -B, or >= B
                    y = add(x.a[0], scale(B, c), num(1 - c)) if A is ONE else sub(scale(B, c), x.a[0])
                    if prove_le0(y, facts, depth - 1):
                        return True
                    continue
                if sg > 0:
                    y = scale(x.a[0], Fraction(1, c))
                else:
                    y = scale(sub(x.a[0], num(c - 1)), Fraction(1, c))
                if prove_le0(add(mul(A, y), B), facts, depth - 1):
                    return True
                continue
            if x.op == 'idiv' and not is_num(x.a[1]) and (rng(x.a[1])[0] > 0 or prove_le0(sub(ONE, x.a[1]), facts, depth - 2)) and (rng(x.a[0])[0] >= 0 or prove_le0(neg(x.a[0]), facts, depth - 2)):
                y, dd = x.a
                if A is ONE:
                    q = add(y, mul(dd, B), neg(dd), ONE)
                elif A is MONE:
                    q = sub(mul(dd, B), y)
                elif sg > 0:
                    q = add(mul(A, y), mul(dd, B))
                else:
                    continue
                if prove_le0(q, facts, depth - 1):
                    return True
                continue
            if x.op == 'sat':
                lim = MACH[x.a[0]][0 if sg > 0 else 1]
                if prove_le0(add(mul(A, num(lim)), B), facts, depth - 1) and prove_le0(add(mul(A, x.a[1]), B), facts, depth - 1):
                    return True
                continue
            if x.op in ('floor', 'trunc', 'round', 'ceil'):
                y = x.a[0]
                if A in (ONE, MONE) and is_int(B) and prove_le0(add(mul(A, y), B), facts, depth - 1):
                    return True
                if x.op == 'floor':
                    y = y if sg > 0 else sub(y, ONE)
                elif x.op == 'ceil':
                    y = add(y, ONE) if sg > 0 else y
                elif x.op == 'round':
                    y = add(y, num(Fraction(1, 2))) if sg > 0 else sub(y, num(Fraction(1, 2)))
                else:
                    y = add(y, ONE) if sg > 0 else sub(y, ONE)
                if prove_le0(add(mul(A, y), B), facts, depth - 1):
                    return True
    for f in facts:
        fl = f.a if f.op == 'and' else (f,)
        for g in fl:
            if g.op in ('le0i', 'le0r', 'lt0r'):
                q = g.a[0]
                if not (set(x for m in pdict(q) for x, _ in m) & set(ats)) :
                    continue
                rest = tuple(x for x in facts if x is not f)
                for k in _ratios(d, pdict(q)):
                    if prove_le0(sub(p, scale(q, k)), rest, depth - 2):
                        return True
                for k in _mratios(d, pdict(q)):
                    if prove_le0(sub(p, mul(q, k)), rest, depth - 2):
                        return True
            elif g.op == 'eq0':
                q = g.a[0]
                dq = pdict(q)
                if not (set(x for m in dq for x, _ in m) & set(ats)):
                    continue
                rest = tuple(x for x in facts if x is not f)
                for k in _ratios(d, dq, True):
                    if prove_le0(sub(p, scale(q, k)), rest, depth - 2):
                        return True
    return False


def _shifted_nonpos(d):
    """with every atom written as its lower bound plus a nonnegative rest, no coefficient is positive"""
    lo = {}
    for m in d:
        for x, e in m:
            if e < 0 or e > 4:
                return False
            if x not in lo:
                l = rng(x)[0]
                if l < 0 or l == -INF:
                    return False
                lo[x] = l
    if len(lo) > 6 or not any(l > 0 for l in lo.values()):
        return False
    out = {}
    for m, c in d.items():
        cur = {(): c}
        for x, e in m:
            l = lo[x]
            for _ in range(e):
                n = {}
                for k, v in cur.items():
                    k2 = mmul(k, ((x, 1),))
                    n[k2] = n.get(k2, 0) + v
                    if l:
                        n[k] = n.get(k, 0) + v * l
                cur = n
        for k, v in cur.items():
            out[k] = out.get(k, 0) + v
    return all(v <= 0 for v in out.values())


def _mratios(dp, dq):
    """nonnegative monomials k such that k*q shares a monomial of the same sign with p"""
    out = []
    for m, c in dq.items():
        if m == ():
            continue
        for m2, c2 in dp.items():
            if len(m2) < len(m) or (c2 > 0) != (c > 0):
                continue
            k = mmul(m2, tuple((x, -e) for x, e in m))
            if k and all(e > 0 and rng(x)[0] >= 0 for x, e in k):
                t = from_dict({k: Fraction(c2) / c})
                if t not in out:
                    out.append(t)
    return out[:3]


def _ratios(dp, dq, eq=False):
    out = []
    for m, c in dq.items():
        if m != () and m in dp:
            k = Fraction(dp[m]) / c
            if (eq or k > 0) and k not in out:
                out.append(norm_num(k))
    return out[:3] if out else []


def decide(c, facts=()):
    """True / False / None for a boolean term under the facts"""
    if c.op == 'bool':
        return c.a[0]
    for f in facts:
        if f is c:
            return True
        if f.op == 'and' and c in f.a:
            return True
    nc = mk_not(c)
    for f in facts:
        if f is nc:
            return False
        if f.op == 'and' and nc in f.a:
            return False
        if f.op == 'or':
            # unit reasoning
            pass
    if c.op == 'le0i' or c.op == 'le0r':
        if prove_le0(c.a[0], facts):
            return True
        if c.op == 'le0r':
            if prove_lt0(neg(c.a[0]), facts):
                return False
            if _has_inv(c.a[0]):
                q = clear_inv(c.a[0], facts)
                if q is not c.a[0] and prove_le0(q, facts):
                    return True
        if c.op == 'le0i' and prove_le0(sub(ONE, c.a[0]), facts):
            return False
        return _floor_cmp(c.a[0], facts) if c.op == 'le0i' else None
    if c.op == 'lt0r':
        if prove_le0(neg(c.a[0]), facts):
            return False
        if prove_lt0(c.a[0], facts):
            return True
        return None
    if c.op == 'eq0':
        if is_int(c.a[0]):
            if prove_le0(add(c.a[0], ONE), facts) or prove_le0(sub(ONE, c.a[0]), facts):
                return False
        elif prove_lt0(c.a[0], facts) or prove_lt0(neg(c.a[0]), facts):
            return False
        if prove_le0(c.a[0], facts) and prove_le0(neg(c.a[0]), facts):
            return True
        return None
    if c.op == 'not':
        r = decide(c.a[0], facts)
        return None if r is None else not r
    if c.op == 'and':
        rs = [decide(x, facts) for x in c.a]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if c.op == 'or':
        rs = [decide(x, facts) for x in c.a]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if c.op == 'ite':
        r = decide(c.a[0], facts)
        if r is True:
            return decide(c.a[1], facts)
        if r is False:
            return decide(c.a[2], facts)
    if c.op == 'exists':
        return True if _witness(c, facts) else None
    return None


def _floor_cmp(p, facts):
    """p = R - floor(q) (saturated or not) with 1 <= R: p <= 0 exactly when R <= q"""
    for mo, c in p.a[0] if p.op == 'poly' else ():
        if c != -1 or len(mo) != 1 or mo[0][1] != 1:
            continue
        x = mo[0][0]
        q = x.a[1] if x.op == 'sat' else x
        if q.op != 'floor':
            continue
        R = add(p, x)
        if x in _sub(R) or not is_int(R):
            continue
        if x.op == 'sat' and not (rng(R)[1] <= MACH[x.a[0]][1] and (rng(R)[0] >= 1 or prove_le0(sub(ONE, R), facts))):
            continue
        return decide(le0r(sub(R, q.a[0])), facts)
    return None


def _witness(c, facts):
    """an index for which an existential holds, found by equating the positions of two reads of one sequence"""
    bs = []
    while c.op == 'exists':
        b = fresh_bv(c.a[1])
        if any(x in c.a[1].fb for x, _ in bs):
            return False
        bs.append((b, c.a[1]))
        c = subst(c.a[2], {c.a[0]: b})
    vs = {b for b, _ in bs}
    if len(bs) > 2 or c.op not in ('eq0', 'eq'):
        return False
    el = [x for x in _sub(c) if x.op == 'elem']
    tried = set()
    for x in el:
        if not (x.fb & vs):
            continue
        for y in el:
            if y.a[0] is not x.a[0] or y.fb & vs:
                continue
            d = sub(x.a[1], y.a[1])
            if d in tried:
                continue
            tried.add(d)
            m = {}
            if len(bs) == 1:
                ab = _coef(pdict(d), bs[0][0])
                if ab is None or ab[0] is ZERO:
                    continue
                m[bs[0][0]] = neg(mul(ab[1], inv(ab[0])))
            else:
                (b1, n1), (b2, n2) = bs
                ab = _coef(pdict(d), b2)
                if ab is None or ab[0] is ZERO or b1 in ab[0].fb:
                    continue
                e = neg(sub(mul(ab[1], inv(ab[0])), mul(b1, n2)))
                if b1 in e.fb:
                    continue
                m[b1], m[b2] = mk_idiv(e, n2, facts), mk_mod(e, n2, facts)
            if not all(is_int(v) for v in m.values()):
                continue
            if all(prove_le0(neg(m[b]), facts) and prove_le0(sub(add(m[b], ONE), n), facts) for b, n in bs):
                if decide(subst(c, m), facts) is True:
                    return True
    return False


# ---------------------------------------------------------------- sequences

def svar(name, n, ety):
    return mk('svar', name, n, ety)


def length(s):
    o = s.op
    if o == 'svar':
        return s.a[1]
    if o == 'lit':
        return num(len(s.a))
    if o == 'gen':
        return s.a[1]
    if o == 'fill':
        return s.a[1]
    if o == 'slice':
        return s.a[2]
    if o == 'concat':
        return add(*[length(x) for x in s.a])
    if o == 'flatgen':
        return mul(s.a[1], s.a[3])
    if o in ('upd', 'updr', 'scatter'):
        return length(s.a[0])
    if o == 'ite':
        return mk_ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if o == 'str':
        return num(len(s.a[0]))
    if o == 'selem':
        return s.a[3]
    if o == 'undef':
        return s
    if o == 'phi' and len(s.a) > 3:
        return s.a[3]
    if o == 'fold':
        p = s.a[3][s.a[2]]
        if len(p.a) > 3:
            return length(s.a[4][s.a[2]])
    if o == 'sapp':
        return s.a[2]
    if o == 'filt' and (s.a[1].op in ('gen', 'lit')):
        n = length(s.a[1])
        b = fresh_bv(n)
        return mk_sum(b, n, mk_ite(elem(s.a[1], b), ONE, ZERO))
    return mk('len', s)


def mk_gen(b, n, body):
    """sequence of n values body[b := 0..n-1]"""
    if n is ZERO:
        return mk('lit')
    if n.op == 'num' and n.a[0] <= 16:
        return mk('lit', *[subst(body, {b: num(i)}) for i in range(n.a[0])])
    if b not in body.fb:
        return mk('fill', body, n)
    # eta: gen(b, n, elem(s, b + c)) = slice(s, c, n)
    if body.op == 'elem' and b not in body.a[0].fb:
        off = sub(body.a[1], b)
        if b not in off.fb:
            return mk_slice(body.a[0], off, n)
    b2 = _canon(b, n, body)
    return mk('gen', b2, n, subst(body, {b: b2}) if b2 is not b else body)


def _canon(b, n, *bodies):
    h = max(x.h for x in bodies)
    return mk('bv', h + 1, n)


def mk_fill(v, n):
    if n.op == 'num' and 0 <= n.a[0] <= 16:
        return mk('lit', *([v] * n.a[0]))
    return mk('fill', v, n)


def mk_slice(s, st, n):
    if n is ZERO:
        return mk('lit')
    if st is ZERO and n is length(s):
        return s
    if s.op == 'slice':
        return mk_slice(s.a[0], add(s.a[1], st), n)
    if s.op == 'fill':
        return mk_fill(s.a[0], n)
    if n.op == 'num' and n.a[0] <= 16 and s.op == 'lit' and st.op == 'num':
        i = st.a[0]
        if 0 <= i and i + n.a[0] <= len(s.a):
            return mk('lit', *s.a[i:i + n.a[0]])
    if s.op == 'ite' :
        return mk_ite(s.a[0], mk_slice(s.a[1], st, n), mk_slice(s.a[2], st, n))
    if s.op == 'concat':
        # slice lies inside one part?
        off = ZERO
        for p in s.a:
            lp = length(p)
            rel = sub(st, off)
            if prove_le0(neg(rel)) and prove_le0(sub(add(rel, n), lp)):
                return mk_slice(p, rel, n)
            off = add(off, lp)
    if s.op == 'gen':
        b = fresh_bv(n)
        return mk_gen(b, n, open_binder(s, add(b, st)))
    return mk('slice', s, st, n)


def open_binder(t, x):
    """body of a binder with its variable replaced by x"""
    return subst(t.a[2], {t.a[0]: x})


def mk_concat(*ss):
    out = []
    for s in ss:
        if s.op == 'concat':
            xs = s.a
        else:
            xs = (s,)
        for x in xs:
            if x.op == 'lit' and not x.a:
                continue
            if length(x) is ZERO:
                continue
            if out and out[-1].op == 'lit' and x.op == 'lit' and len(out[-1].a) + len(x.a) <= 256:
                out[-1] = mk('lit', *(out[-1].a + x.a))
                continue
            if out and x.op == 'slice' and out[-1].op == 'slice' and out[-1].a[0] is x.a[0] and add(out[-1].a[1], out[-1].a[2]) is x.a[1]:
                p = out.pop()
                out.append(mk_slice(x.a[0], p.a[1], add(p.a[2], x.a[2])))
                continue
            out.append(x)
    if not out:
        return mk('lit')
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def mk_flatgen(b, n, body):
    """concatenation over b in 0..n of the sequences body; None if their length varies"""
    L = length(body)
    if L is ONE:
        return mk_gen(b, n, elem(body, ZERO))
    if n is ZERO or L is ZERO:
        return mk('lit')
    if n.op == 'num' and n.a[0] <= 16:
        return mk_concat(*[subst(body, {b: num(i)}) for i in range(n.a[0])])
    if b in L.fb:
        return mk('fn', 'concat_all', mk_gen(b, n, body))
    b2 = _canon(b, n, body, L)
    return mk('flatgen', b2, n, subst(body, {b: b2}) if b2 is not b else body, L)


def mk_sum(b, n, body):
    if n is ZERO or body is ZERO:
        return ZERO
    if n.op == 'num' and n.a[0] <= 0:
        return ZERO
    if b not in body.fb:
        return mul(mk_max(n, ZERO), body)
    if n.op == 'num' and n.a[0] <= 64:
        return add(*[subst(body, {b: num(i)}) for i in range(n.a[0])])
    # linearity: pull out factors and summands free of b
    d = pdict(body)
    out = []
    groups = {}
    for m, c in d.items():
        ins = tuple((x, e) for x, e in m if b in x.fb)
        outs = tuple((x, e) for x, e in m if b not in x.fb)
        groups.setdefault(outs, {})
        groups[outs][ins] = groups[outs].get(ins, 0) + c
    if len(groups) > 1 or () not in groups:
        for outs, ins in groups.items():
            out.append(mul(from_dict({outs: 1}), mk_sum(b, n, from_dict(ins))))
        return add(*out)
    # E(b+1) - E(b)
    if len(d) > 1:
        aps = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app']
        for x, c in aps:
            for y, c2 in aps:
                if c2 == -c and x.a[0] == y.a[0] and subst(y, {b: add(b, ONE)}) is x:
                    z = mk_max(n, ZERO)
                    r = scale(sub(subst(y, {b: z}), subst(y, {b: ZERO})), c)
                    return add(r, mk_sum(b, n, sub(body, scale(sub(x, y), c))))
    # split additive terms
    if len(d) > 1:
        return add(*[mk_sum(b, n, from_dict({m: c})) for m, c in d.items()])
    (m, c), = d.items()
    if c != 1:
        return scale(mk_sum(b, n, from_dict({m: 1})), c)
    if body is b:
        return scale(mul(n, sub(n, ONE)), Fraction(1, 2))
    r = keyed_sum(b, n, body)
    if r is not None:
        return r
    b2 = _canon(b, n, body)
    return mk('sum', b2, n, subst(body, {b: b2}))


def mk_foldm(op, b, n, body, init):
    """init combined with the max/min of body over b in 0..n"""
    if n is ZERO:
        return init
    if b not in body.fb:
        r = mk_max(init, body) if op == 'max' else mk_min(init, body)
        return mk_ite(le0i(n), init, r)
    if n.op == 'num' and n.a[0] <= 16:
        xs = [subst(body, {b: num(i)}) for i in range(n.a[0])]
        return mk_max(init, *xs) if op == 'max' else mk_min(init, *xs)
    return mk_binder('fold' + op, b, n, body, init)


def _lit_read(b, cond):
    """the condition reads a literal sequence at a place that depends on b"""
    return any(s.op == 'elem' and s.a[0].op == 'lit' and b in s.a[1].fb for s in subterms(cond) if b in s.fb)


def mk_exists(b, n, cond):
    if cond is FALSE or n is ZERO:
        return FALSE
    if b not in cond.fb:
        return mk_and(le0i(sub(ONE, n)), cond)
    if cond.op == 'or':
        return mk_or(*[mk_exists(b, n, x) for x in cond.a])
    if cond.op == 'and':
        outs = [x for x in cond.a if b not in x.fb]
        if outs:
            return mk_and(*(outs + [mk_exists(b, n, mk_and(*[x for x in cond.a if b in x.fb]))]))
    if n.op == 'num' and (n.a[0] <= 16 or n.a[0] <= 64 and _lit_read(b, cond)):
        return mk_or(*[subst(cond, {b: num(i)}) for i in range(n.a[0])])
    # A*b + B <= 0 with A constant: the extreme index decides
    if cond.op == 'le0i':
        ab = _coef(pdict(cond.a[0]), b)
        if ab is not None and is_num(ab[0]):
            A, B = ab
            ext = ZERO if A.a[0] > 0 else sub(n, ONE)
            return mk_and(le0i(sub(ONE, n)), le0i(add(mul(A, ext), B)))
    if cond.op == 'eq0':
        es = _key_elems(cond, b)
        if len(es) == 1:
            E, = es
            ab = _coef(pdict(cond.a[0]), E)
            if n is length(E.a[0]) and ab is not None and ab[0] in (ONE, MONE) and b not in ab[1].fb:
                # one of the keys
                e = neg(ab[1]) if ab[0] is ONE else ab[1]
                return subst(E.a[0].a[2], {E.a[0].a[0]: key_index(e)})
    b2 = _canon(b, n, cond)
    return mk('exists', b2, n, subst(cond, {b: b2}))


def mk_first(b, n, cond):
    if cond is FALSE:
        return mk_max(n, ZERO)
    if cond is TRUE:
        return ZERO
    if b not in cond.fb:
        return mk_ite(cond, ZERO, mk_max(n, ZERO))
    if cond.op == 'le0i':
        ab = _coef(pdict(cond.a[0]), b)
        if ab is not None and ab[0].op == 'num' and b not in ab[1].fb:
            if ab[0].a[0] == -1:
                return mk_min(mk_max(n, ZERO), mk_max(ab[1], ZERO))
            if ab[0].a[0] > 0:
                return mk_ite(le0i(ab[1]), ZERO, mk_max(n, ZERO))
    if n.op == 'num' and (n.a[0] <= 6 or n.a[0] <= 64 and _lit_read(b, cond)):
        # one condition per element of a literal sequence
        r = n
        for i in reversed(range(n.a[0])):
            r = mk_ite(subst(cond, {b: num(i)}), num(i), r)
        return r
    b2 = _canon(b, n, cond)
    return mk('first', b2, n, subst(cond, {b: b2}))


def _cong(t):
    """(m, r) with t = r modulo m for every value of t (m == 0: t is r)"""
    if t.op == 'num' and isinstance(t.a[0], int):
        return 0, t.a[0]
    if t.op == 'mod' and t.a[1].op == 'num':
        m, r = _cong(t.a[0])
        m = math.gcd(m, int(t.a[1].a[0]))
        return m, (r % m if m else r)
    if t.op != 'poly' or not is_int(t):
        return 1, 0
    m, r = 0, 0
    for mo, c in t.a[0]:
        if not isinstance(c, int):
            return 1, 0
        if not mo:
            r += c
            continue
        m2, r2 = _cong(mo[0][0]) if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'mod' else (1, 0)
        m = math.gcd(m, c * m2)
        r += c * r2
    m = abs(m)
    return m, (r % m if m else r)


PJ = None
_pats = {}


def _pattern(s, m, r):
    """F with s[r + m*j] = F(j) for every j, or None"""
    global PJ
    k = (s, m, r)
    if k in _pats:
        return _pats[k]
    if PJ is None:
        PJ = mk('var', '#j', 'usize')
    xs = s.a[r::m]
    F = None
    if len(xs) > 2 and xs[0].op != 'num':
        F = _anti(xs[0], xs[1])
        if F is not None and any(subst_vars(F, {PJ: num(j)}) is not x for j, x in enumerate(xs)):
            F = None
    _pats[k] = F
    return F


def _consts(t):
    out = []
    for x in t.a if t.op != 'poly' else ():
        if isinstance(x, T):
            out += _consts(x)
    if t.op == 'poly':
        out.append(pdict(t).get((), 0))
        out += sorted(y for mo, c in t.a[0] for x, _ in mo for y in _consts(x))
    if t.op == 'num':
        out.append(t.a[0])
    return out


def _anti(x, y):
    """a term over #j that is x at 0 and, in the simplest case, y at 1"""
    if x is y:
        return x
    if x.op in ('num', 'poly') and y.op in ('num', 'poly'):
        d = sub(y, x)
        if d.op == 'num':
            return add(x, mul(d, PJ))
        if x.op != y.op or len(x.a[0]) != len(y.a[0]):
            return None
        key = lambda mc: (mc[1], [(a.op, e) for a, e in mc[0]], [_consts(a) for a, _ in mc[0]])
        try:
            ps = list(zip(sorted(x.a[0], key=key), sorted(y.a[0], key=key)))
        except TypeError:
            return None
        out = []
        for (m1, c1), (m2, c2) in ps:
            if len(m1) != len(m2) or any(e != f for (_, e), (_, f) in zip(m1, m2)):
                return None
            fs = [_anti(a, b) for (a, _), (b, _) in zip(m1, m2)]
            if any(f is None for f in fs) or not isinstance(c1, int) or not isinstance(c2, int):
                return None
            co = num(c1) if c1 == c2 else None
            if co is None:
                if m1:
                    return None
                co = add(num(c1), mul(num(c2 - c1), PJ))
            for f, (_, e) in zip(fs, m1):
                if e < 0:
                    return None
                for _ in range(e):
                    co = mul(co, f)
            out.append(co)
        return add(*out)
    if x.op != y.op or len(x.a) != len(y.a) or x.op not in ('elem', 'idiv', 'mod', 'ite', 'min', 'max', 'le0i', 'sat', 'wrap', 'abs'):
        return None
    args = []
    for a, b in zip(x.a, y.a):
        if isinstance(a, T) and isinstance(b, T):
            f = _anti(a, b)
            if f is None:
                return None
            args.append(f)
        elif a == b:
            args.append(a)
        else:
            return None
    return rebuild(x.op, args)


def elem(s, i, facts=()):
    o = s.op
    if o == 'lit':
        if i.op == 'num':
            k = i.a[0]
            if 0 <= k < len(s.a):
                return s.a[k]
            return mk('undef', 'oob')
        if s.a and all(x is s.a[0] for x in s.a):
            return s.a[0]
        if i.op == 'ite' and _leaf_const(i):
            return mk_ite(i.a[0], elem(s, i.a[1], facts), elem(s, i.a[2], facts))
        if len(s.a) > 1 and all(x.op == 'num' for x in s.a) and all(s.a[k].a[0] - s.a[k - 1].a[0] == s.a[1].a[0] - s.a[0].a[0] for k in range(2, len(s.a))):
            # an arithmetic progression
            return add(s.a[0], mul(sub(s.a[1], s.a[0]), i))
        if s.a and len(s.a) <= 4 and not all(x.op == 'num' for x in s.a):
            r = s.a[-1]
            for k in range(len(s.a) - 2, -1, -1):
                r = mk_ite(eq0(sub(i, num(k))), s.a[k], r)
            return r
        if len(s.a) > 1:
            m, r = _cong(i)
            if len(s.a) > 4 and m:
                F = _pattern(s, m, r)
                if F is not None:
                    return subst_vars(F, {PJ: sub(i, num(r)) if m == 1 else mk_idiv(i, num(m), facts)})
            if m > 1:
                lo, hi = rng(i)
                x = {y for k, y in enumerate(s.a) if k % m == r and lo <= k <= hi}
                if len(x) == 1:
                    return x.pop()
        return mk('elem', s, i)
    if o == 'fill':
        return s.a[0]
    if o == 'gen':
        return open_binder(s, i)
    if o == 'slice':
        return elem(s.a[0], add(s.a[1], i), facts)
    if o == 'ite':
        return mk_ite(s.a[0], elem(s.a[1], i, facts + (s.a[0],)), elem(s.a[2], i, facts + (mk_not(s.a[0]),)))
    if o == 'concat':
        off = ZERO
        cases = []
        for p in s.a[:-1]:
            lp = length(p)
            end = add(off, lp)
            c = le0i(add(sub(i, end), ONE))
            d = decide(c, facts)
            if d is True:
                cases.append((TRUE, elem(p, sub(i, off), facts)))
                break
            if d is None:
                cases.append((c, elem(p, sub(i, off), facts + (c,))))
                facts = facts + (mk_not(c),)
            off = end
        else:
            cases.append((TRUE, elem(s.a[-1], sub(i, off), facts)))
        r = cases[-1][1]
        for c, v in reversed(cases[:-1]):
            r = mk_ite(c, v, r)
        return r
    if o == 'flatgen':
        L = s.a[3]
        q = mk_idiv(i, L, facts)
        r = mk_mod(i, L, facts)
        return elem(open_binder(s, q), r, facts)
    if o == 'upd':
        c = eq0(sub(i, s.a[1]))
        d = decide(c, facts)
        if d is True:
            return s.a[2]
        r = elem(s.a[0], i, facts) if facts else _elem0(s.a[0], i)
        if d is None and s.a[2].op != 'num' and is_numeric(s.a[2]):
            # a counter
            inc = _counter(s)
            if inc.op == 'num':
                return add(r, mul(inc, mk_ite(c, ONE, ZERO)))
        return r if d is False else mk_ite(c, s.a[2], r)
    if o == 'updr':
        q = s.a[2]
        st = s.a[1]
        c = mk_and(le0i(sub(st, i)), le0i(add(sub(i, add(st, length(q))), ONE)))
        d = decide(c, facts)
        if d is True:
            return elem(q, sub(i, st), facts)
        r = elem(s.a[0], i, facts)
        return r if d is False else mk_ite(c, elem(q, sub(i, st), facts + (c,)), r)
    if o == 'scatter':
        r = scatter_elem(s, i, facts)
        if r is not None:
            return r
        return mk('elem', s, i)
    if o == 'undef':
        return s
    if o == 'svar' and isinstance(s.a[2], str) and s.a[2].startswith('seq:'):
        # sequence of sequences
        return mk('selem', s, i, s.a[2][4:], mk('len', mk('elem', s, i)))
    return mk('elem', s, i)


_cnts = {}


def _counter(s):
    """what the write adds to the value already there"""
    r = _cnts.get(s)
    if r is None:
        r = _cnts[s] = sub(s.a[2], _elem0(s.a[0], s.a[1]))
    return r


def _elem0(s, i):
    k = (s, i)
    r = _cnts.get(k)
    if r is None:
        r = _cnts[k] = elem(s, i)
    return r


def upd(s, i, v, facts=()):
    if s.op == 'lit' and i.op == 'num' and 0 <= i.a[0] < len(s.a):
        l = list(s.a)
        l[i.a[0]] = v
        return mk('lit', *l)
    if s.op == 'upd' and s.a[1] is i:
        return mk('upd', s.a[0], i, v)
    if v.op == 'elem' and v.a[0] is s and v.a[1] is i:
        return s
    if s.op == 'concat':
        off = ZERO
        for k, p in enumerate(s.a):
            rel = sub(i, off)
            if prove_le0(neg(rel), facts) and prove_le0(add(sub(rel, length(p)), ONE), facts):
                l = list(s.a)
                l[k] = upd(p, rel, v, facts)
                return mk_concat(*l)
            off = add(off, length(p))
    return mk('upd', s, i, v)


def updr(s, st, q):
    n = length(q)
    if n is ZERO:
        return s
    if st is ZERO and n is length(s):
        return q
    if n is ONE:
        return upd(s, st, elem(q, ZERO))
    if s.op == 'lit' and st.op == 'num' and q.op == 'lit':
        l = list(s.a)
        for k, v in enumerate(q.a):
            if 0 <= st.a[0] + k < len(l):
                l[st.a[0] + k] = v
        return mk('lit', *l)
    if q.op == 'slice' and q.a[0] is s and q.a[1] is st:
        return s
    return mk('updr', s, st, q)


# scatter(s0, binders, guard, start, q):
#   for all binder values in lexicographic order with guard true, s[start .. start+len q] := q
# represented with canonical bound variables inside a tuple
class Sc:
    pass


def mk_scatter(s0, bs, guard, start, q):
    """bs: list of (bv, n) outermost first. Later iterations overwrite earlier ones."""
    for b, n in bs:
        if n is ZERO:
            return s0
    if guard is FALSE:
        return s0
    if any(n is ONE for _, n in bs):
        m = {b: ZERO for b, n in bs if n is ONE}
        rest = [(b, subst(n, m)) for b, n in bs if n is not ONE]
        guard, start, q = subst(guard, m), subst(start, m), subst(q, m)
        if not rest:
            w = updr(s0, start, q)
            if guard is TRUE:
                return w
            if length(q) is ONE:
                return upd(s0, start, mk_ite(guard, elem(q, ZERO), elem(s0, start)))
            return mk_ite(guard, w, s0)
        return mk_scatter(s0, rest, guard, start, q)
    b, n = bs[0]
    if n.op == 'num' and n.a[0] <= 3 and len(bs) > 1:
        # a few passes
        for j in range(n.a[0]):
            m = {b: num(j)}
            s0 = mk_scatter(s0, [(c, subst(k, m)) for c, k in bs[1:]], subst(guard, m), subst(start, m), subst(q, m))
        return s0
    # full overwrite from 0 by unit writes: scatter(s0,[(b,n)],true,b,[v]) with n == len
    if len(bs) == 1 and guard is TRUE and length(q) is ONE:
        b, n = bs[0]
        off = sub(start, b)
        if b not in off.fb and b not in length(s0).fb:
            v = elem(q, ZERO)
            if off is ZERO and n is length(s0):
                return mk_gen(b, n, v)
            return updr(s0, off, mk_gen(b, n, v))
    if len(bs) == 1 and guard is TRUE:
        b, n = bs[0]
        L = length(q)
        if b not in L.fb:
            off = sub(start, mul(b, L))
            if b not in off.fb:
                fg = mk_flatgen(b, n, q)
                return updr(s0, off, fg)
    if len(bs) == 1 and guard is TRUE and L.op == 'num':
        # overlapping blocks: every later block overwrites the end of the one before it, so only the last one keeps its end
        ab = _coef(pdict(start), b)
        if ab is not None and ab[0].op == 'num' and 0 < ab[0].a[0] < L.a[0] and b not in ab[1].fb:
            A = ab[0]
            w = mk_scatter(s0, bs, guard, start, mk_slice(q, ZERO, A))
            m = {b: sub(n, ONE)}
            ext = sub(L, A)
            return updr(w, add(mul(A, n), ab[1]), mk_slice(subst(q, m), A, add(A, mk_min(ext, mul(ext, n)))))
    if len(bs) == 2 and guard is TRUE:
        # inner rows that tile an outer row
        (b1, n1), (b2, n2) = bs
        L = length(q)
        if b2 not in L.fb and b1 not in L.fb and b1 not in n2.fb:
            off2 = sub(start, mul(b2, L))
            if b2 not in off2.fb:
                inner = mk_flatgen(b2, n2, q) if L is not ONE else mk_gen(b2, n2, elem(q, ZERO))
                return mk_scatter(s0, [(b1, n1)], TRUE, off2, inner)
    h = max([s0.h, guard.h, start.h, q.h] + [n.h for _, n in bs])
    m = {}
    nb = []
    for b, n in bs:
        h += 1
        n2 = subst(n, m)
        c = mk('bv', h, n2)
        m[b] = c
        nb.append((c, n2))
    return _scat(s0, tuple(nb), subst(guard, m), subst(start, m), subst(q, m))


def _scat(s0, nb, guard, start, q):
    k = ('scatter', (s0, nb, guard, start, q))
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = 'scatter'
        t.a = (s0, nb, guard, start, q)
        _cnt[0] += 1
        t.id = _cnt[0]
        fb = guard.fb | start.fb | q.fb
        h = max([s0.h, guard.h, start.h, q.h] + [c.a[0] for c, _ in nb])
        for c, n in nb:
            fb = fb | n.fb
        for c, n in nb:
            fb = fb - frozenset([c])
        t.fb = fb | s0.fb
        t.h = h
        _tab[k] = t
    return t


def open_scatter(t):
    s0, nb, guard, start, q = t.a
    m = {}
    out = []
    for c, n in nb:
        n2 = subst(n, m)
        f = fresh_bv(n2)
        m[c] = f
        out.append((f, n2))
    return s0, out, subst(guard, m), subst(start, m), subst(q, m)


# fold(k, n, i, phis, inits, nexts, cont): value of the i-th loop-carried variable after the
# iterations k = 0 .. n-1 (n None: while cont); canonical names for k and the phis
def mk_phi(name, i, ty):
    return mk('phi', name, i, ty)


def fold_vars(k, n, phis, inits, nexts, cont):
    """canonical fold terms for every carried variable"""
    if n is not None and n.op == 'num' and n.a[0] <= 32 and cont is TRUE:
        cur = list(inits)
        for j in range(max(0, n.a[0])):
            mm = dict(zip(phis, cur))
            mm[k] = num(j)
            cur = [subst(x, mm) for x in nexts]
        return cur
    h = max([x.h for x in nexts] + [cont.h, 0]) + 1
    n2 = n if n is not None else mk('num', 2 ** 62)
    ck = mk('bv', h, n2)
    m = {k: ck}
    cp = []
    for i, p in enumerate(phis):
        c = mk('phi', h, i, p.a[2], *p.a[3:])
        m[p] = c
        cp.append(c)
    cn = tuple(subst(x, m) for x in nexts)
    cc = subst(cont, m)
    out = []
    for i in range(len(phis)):
        out.append(_fold(ck, n, i, tuple(cp), tuple(inits), cn, cc))
    return out


def _fold(ck, n, i, phis, inits, nexts, cont):
    a = (ck, n, i, phis, inits, nexts, cont)
    k = ('fold', a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = 'fold'
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        fb = cont.fb
        for x in nexts:
            fb = fb | x.fb
        fb = fb - frozenset((ck,) + phis)
        h = ck.a[0]
        for x in inits:
            fb = fb | x.fb
            h = max(h, x.h)
        if n is not None:
            fb = fb | n.fb
            h = max(h, n.h)
        t.fb = fb
        t.h = h
        _tab[k] = t
    return t


_fc = [0]


def rebound(b, f):
    """a bound index after a substitution of its bound"""
    c = f(b)
    return c if c.op == 'bv' and c.a[0] == b.a[0] else b


def open_fold(t):
    ck, n, i, phis, inits, nexts, cont = t.a
    _fc[0] += 1
    k = fresh_bv(n if n is not None else mk('num', 2 ** 62))
    m = {ck: k}
    ps = []
    for j, p in enumerate(phis):
        q = mk('phi', 'o%d' % _fc[0], j, p.a[2], *p.a[3:])
        m[p] = q
        ps.append(q)
    return k, n, i, ps, inits, [subst(x, m) for x in nexts], subst(cont, m)


_sce = {}


def scatter_elem(t, i, facts):
    k = (t, i, facts)
    if k in _sce:
        return _sce[k]
    r = _scatter_elem(t, i, facts)
    _sce[k] = r
    return r


def _strip_max0(n):
    """a term that exceeds exactly the same naturals: k*max(0, e) becomes k*e"""
    d = pdict(n)
    if len(d) != 1:
        return n
    (m, c), = d.items()
    if not all(rng(x)[0] >= 0 and e > 0 for x, e in m):
        return n
    for x, e in m:
        if x.op == 'max' and e == 1 and len(x.a) == 2 and ZERO in x.a:
            y = x.a[1] if x.a[0] is ZERO else x.a[0]
            k = num(c)
            for z, e2 in m:
                if z is not x:
                    k = mul(k, power(z, e2))
            return mul(k, y)
    return n


def _scatter_elem(t, i, facts):
    s0, bs, guard, start, q = open_scatter(t)
    L = _strip_max0(length(q))
    # solve start + r = i, 0 <= r < L, for the bound variables, by digits
    rem_s = start
    rem_i = i
    sol = {}
    conds = []
    strides = []
    for b, n in bs:
        ab = _coef(pdict(start), b)
        if ab is None:
            return None
        A, _ = ab
        if A.op == 'num' and A.a[0] <= 0 or len(pdict(A)) != 1:
            return None
        strides.append((b, n, A))
    inside = tuple(f for b, n in bs for f in (le0i(sub(add(b, ONE), n)),) if f.op != 'bool')
    # order: outermost stride must be largest; check divisibility chain
    for pos, (b, n, A) in enumerate(strides):
        Qs, rem_s2 = _split(rem_s, A)
        Qi, rem_i2 = _split(rem_i, A)
        # low parts must be within [0, A): start's low part plus r, and i's low part
        lowhi = add(rem_s2, sub(L, ONE))
        f2 = facts + tuple(conds)
        if not (prove_le0(neg(rem_s2), f2) and (prove_le0(add(sub(lowhi, A), ONE), f2) or prove_le0(add(sub(lowhi, A), ONE), f2 + inside))):
            return None
        if not (prove_le0(neg(rem_i2), f2) and prove_le0(add(sub(rem_i2, A), ONE), f2)):
            # unknown low part: use idiv/mod explicitly
            if rng(rem_i)[0] < 0 and not prove_le0(neg(rem_i), f2):
                return None
            Qi = mk_idiv(rem_i, A, f2)
            rem_i2 = mk_mod(rem_i, A, f2)
        # Qs = coefficient*b + rest ; coefficient must be 1
        ab = _coef(pdict(Qs), b)
        if ab is None or ab[0] is not ONE:
            return None
        val = sub(Qi, ab[1])
        val = subst(val, sol)
        sol[b] = val
        nn = subst(n, sol)
        for c in (le0i(neg(val)), le0i(add(sub(val, nn), ONE))):
            d = decide(c, facts + tuple(conds))
            if d is False:
                return elem(s0, i, facts)
            if d is None:
                conds.append(c)
        rem_s, rem_i = subst(rem_s2, sol), rem_i2
    r = sub(rem_i, rem_s)
    r = subst(r, sol)
    L2 = subst(L, sol)
    for c in (le0i(neg(r)), le0i(add(sub(r, L2), ONE))):
        d = decide(c, facts + tuple(conds))
        if d is False:
            return elem(s0, i, facts)
        if d is None:
            conds.append(c)
    g = subst(guard, sol)
    if g is not TRUE:
        d = decide(g, facts + tuple(conds))
        if d is False:
            return elem(s0, i, facts)
        if d is None:
            conds.append(g)
    v = elem(subst(q, sol), r, facts + tuple(conds))
    if not conds:
        return v
    return mk_ite(mk_and(*conds), v, elem(s0, i, facts))


# ---------------------------------------------------------------- maps
# A map is agg('map', ordered, has, val): has and val are functions of the bound key variable KB, whose value is the
# key plus KOFF; val is 0 where has is false.
KOFF = 2 ** 31
KN = None
KB = None
KEY = None


def key_index(k):
    return add(k, num(KOFF))


def mk_mapat(b, val, key):
    if b not in val.fb and not any(x.op == 'phi' for x in _sub(val)):
        return val
    if any(x.op == 'phi' for x in _sub(val)):
        return mk_binder('mapat', b, KN, val, key)
    return subst(val, {b: key_index(key)})


def map_at(val, key):
    if key is KEY:
        return val
    return mk_mapat(KB, val, key)


def mk_keys(has, ordered=1):
    """the keys of a map in increasing order (mkeys) or in an unspecified one (hkeys)"""
    return mk_binder('mkeys' if ordered else 'hkeys', KB, KN, has)


def _key_elems(t, b):
    """the key sequences read at exactly b in t"""
    return {x for x in _sub(t) if x.op == 'elem' and x.a[0].op in ('mkeys', 'hkeys') and x.a[1] is b}


def keyed_sum(b, n, body):
    """sum over the first n keys of a count taken over all elements: a count of the elements with one of those keys"""
    es = _key_elems(body, b)
    if len(es) != 1:
        return None
    E, = es
    M = E.a[0]
    has = subst(M.a[2], {M.a[0]: KB})
    if b in M.fb:
        return None

    def push(t, bs):
        if t.op == 'poly':
            out = []
            for mo, c in t.a[0]:
                xs = [i for i, (x, e) in enumerate(mo) if E in _sub(x)]
                if len(xs) != 1 or mo[xs[0]][1] != 1:
                    return None
                r = push(mo[xs[0]][0], bs)
                if r is None:
                    return None
                rest = from_dict({tuple(y for i, y in enumerate(mo) if i != xs[0]): c})
                if b in rest.fb:
                    return None
                out.append(mul(rest, r))
            return add(*out)
        if t.op == 'sum':
            f = fresh_bv(t.a[1])
            if b in t.a[1].fb:
                return None
            r = push(subst(t.a[2], {t.a[0]: f}), bs + [(f, t.a[1])])
            return None if r is None else mk_sum(f, t.a[1], r)
        if t.op == 'ite' and t.a[0].op == 'eq0' and t.a[2] is ZERO:
            ab = _coef(pdict(t.a[0].a[0]), E)
            if ab is None or ab[0] not in (ONE, MONE):
                return None
            e = neg(ab[1]) if ab[0] is ONE else ab[1]
            w = t.a[1]
            if b in e.fb or b in w.fb or not bs:
                return None
            h = eq0(sub(KEY, e))
            for f, m in reversed(bs):
                h = mk_exists(f, m, h)
            if h is not has and not (has.op == 'or' and h in has.a):
                return None
            if n is length(M):
                return w
            if M.op == 'hkeys':
                return None
            return mk_ite(le0i(add(sub(mk('kidx', M, e), n), ONE)), w, ZERO)
        return None
    return push(body, [])


def at_key(v, E):
    """v with the key read at an index replaced by KEY itself"""
    M, k = E.a
    return subst(subst_vars(v, {E: KEY}), {k: mk('kidx', M, KEY)})


def _kcmp(p):
    """the comparison of the positions of two keys (KEY is one of them) is the comparison of the keys"""
    ks = [x for mo, c in p.a[0] for x, e in mo if x.op == 'kidx']
    if len(ks) == 2 and ks[0].a[0] is ks[1].a[0]:
        x, y = ks if ks[1].a[1] is KEY else ks[::-1]
        if y.a[1] is KEY:
            d = sub(p, sub(x, y))
            if d is ONE or d is ZERO:
                return add(sub(x.a[1], KEY), d)
    return None


# ---------------------------------------------------------------- substitution

def subst(t, m):
    if not m:
        return t
    return _subst(t, m, {})


def _touch(t, m):
    for b in t.fb:
        if b in m:
            return True
    return False


def _subst(t, m, memo):
    # m may also map non-bv atoms (vars); those are tracked by '_any'
    r = m.get(t)
    if r is not None:
        return r
    if m.get('__vars__') is None:
        if not t.fb or not _touch(t, m):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _subst1(t, m, memo)
    memo[t] = r
    return r


def rebuild(op, a):
    """smart constructor dispatch"""
    f = REB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def _subst1(t, m, memo):
    o = t.op
    if o in ('num', 'bool', 'str', 'undef'):
        return t
    if o == 'bv':
        n2 = _subst(t.a[1], m, memo)
        return mk('bv', t.a[0], n2)
    if o == 'var':
        return t
    if o == 'poly':
        out = []
        for mono, c in t.a[0]:
            p = num(c)
            for x, e in mono:
                y = _subst(x, m, memo)
                p = mul(p, power(y, e) if e > 0 else inv(power(y, -e)))
            out.append(p)
        return add(*out)
    if o == 'phi':
        if len(t.a) > 3:
            l2 = _subst(t.a[3], m, memo)
            if l2 is not t.a[3]:
                return mk('phi', t.a[0], t.a[1], t.a[2], l2)
        return t
    if o == 'fold':
        k, n, i, ps, inits, nexts, cont = open_fold(t)
        ps = [_subst(x, m, memo) for x in ps]
        n2 = _subst(n, m, memo) if n is not None else None
        if n2 is not n:
            k2 = fresh_bv(n2)
            mm = dict(m)
            mm[k] = k2
            k = k2
        else:
            mm = m
        return fold_vars(k, n2, ps, [_subst(x, m, memo) for x in inits], [subst(x, mm) for x in nexts], subst(cont, mm))[i]
    if o == 'scatter':
        s0, bs, guard, start, q = open_scatter(t)
        bs2 = [(b, n) for b, n in bs]
        mm = dict(m)
        nb = []
        for b, n in bs2:
            n2 = _subst(n, mm, {})
            if n2 is not n:
                b2 = fresh_bv(n2)
                mm[b] = b2
                nb.append((b2, n2))
            else:
                nb.append((b, n))
        return mk_scatter(_subst(s0, m, memo), nb, subst(guard, mm), subst(start, mm), subst(q, mm))
    if o in BINDERS:
        b, n, body = t.a[0], t.a[1], t.a[2]
        n2 = _subst(n, m, memo)
        f = fresh_bv(n2)
        mm = dict(m)
        mm[b] = f
        body2 = subst(body, mm)
        if o == 'gen':
            return mk_gen(f, n2, body2)
        if o == 'flatgen':
            return mk_flatgen(f, n2, body2)
        if o == 'sum':
            return mk_sum(f, n2, body2)
        if o == 'exists':
            return mk_exists(f, n2, body2)
        if o == 'first':
            return mk_first(f, n2, body2)
        if o in ('foldmax', 'foldmin'):
            return mk_foldm(o[4:], f, n2, body2, _subst(t.a[3], m, memo))
        if o == 'mapat':
            return mk_mapat(f, body2, _subst(t.a[3], m, memo))
        rest = tuple(_subst(x, mm, {}) if isinstance(x, T) else x for x in t.a[3:])
        return mk_binder(o, f, n2, body2, *rest)
    a = tuple(_substarg(x, m, memo) for x in t.a)
    return rebuild(o, a)


def _substarg(x, m, memo):
    if isinstance(x, T):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_substarg(y, m, memo) for y in x)
    return x


def mk_binder(op, b, n, body, *rest):
    h = max([body.h] + [x.h for x in rest if isinstance(x, T)])
    b2 = mk('bv', h + 1, n)
    return mk(op, b2, n, subst(body, {b: b2}), *[subst(x, {b: b2}) if isinstance(x, T) else x for x in rest])


def subst_vars(t, m):
    mm = dict(m)
    mm['__vars__'] = True
    return _subst(t, mm, {})


REB = {
    'le0i': le0i, 'le0r': le0r, 'lt0r': lt0r, 'eq0': eq0, 'eq': mk_eq, 'not': mk_not, 'and': mk_and, 'or': mk_or,
    'ite': mk_ite, 'min': mk_min, 'max': mk_max, 'abs': mk_abs,
    'floor': lambda x: mk_round('floor', x), 'ceil': lambda x: mk_round('ceil', x),
    'round': lambda x: mk_round('round', x), 'trunc': lambda x: mk_round('trunc', x),
    'sat': mk_sat, 'wrap': mk_wrap, 'idiv': mk_idiv, 'mod': mk_mod,
    'elem': elem, 'len': length, 'slice': mk_slice, 'concat': mk_concat, 'fill': mk_fill,
    'upd': upd, 'updr': updr,
}


def _refn(name, *xs):
    if name == 'pow':
        return mk_pow(*xs)
    return mk_fn(name, *xs)


REB['fn'] = _refn
# functions that never decrease in their last argument and are 0 at 0
MONOTONE = {'hist_below'}
EVEN = {'cubic_weighting_fn': 2, 'lanczos_kernel': INF}


def mk_app(name, ty, *xs):
    # even functions (where they are: |x| <= EVEN[name]) are named by the absolute value of their argument
    h = EVEN.get(name)
    if h is not None:
        l, u = rng(xs[0])
        if -h <= l and u <= h:
            xs = (mk_abs(xs[0]),) + xs[1:]
    if name in MONOTONE and xs[-1] is ZERO:
        return ZERO
    return mk('app', name, ty, *xs)


REB['app'] = mk_app
REB['field'] = lambda t, i, v: field(t, i, None if v == -1 else v)
REB['discr'] = lambda t: discr(t)
REB['selem'] = lambda s, i, ety, n: mk('selem', s, i, ety, n) if s.op == 'svar' else elem(s, i)


# ---------------------------------------------------------------- aggregates

def agg(name, variant, *fields):
    return mk('agg', name, variant, *fields)


def tup(*fields):
    return mk('agg', 'tuple', 0, *fields)


def some(x):
    return agg('core::option::Option', 1, x)


NONE = agg('core::option::Option', 0)


def field(t, i, variant=None):
    o = t.op
    if o == 'agg':
        if variant is not None and t.a[1] != variant:
            return mk('undef', 'variant')
        if i + 2 < len(t.a):
            return t.a[2 + i]
        return mk('undef', 'field')
    if o == 'clo':
        return t.a[1 + i]
    if o == 'ite':
        a = field(t.a[1], i, variant)
        b = field(t.a[2], i, variant)
        if a.op == 'undef':
            return b
        if b.op == 'undef':
            return a
        return mk_ite(t.a[0], a, b)
    if o == 'undef':
        return t
    return mk('field', t, i, -1 if variant is None else variant)


def discr(t):
    o = t.op
    if o == 'agg':
        return num(t.a[1])
    if o == 'ite':
        return mk_ite(t.a[0], discr(t.a[1]), discr(t.a[2]))
    return mk('discr', t)


def set_field(t, i, v, nf=None):
    if t.op == 'agg':
        l = list(t.a)
        while len(l) <= 2 + i:
            l.append(mk('undef', 'field'))
        l[2 + i] = v
        return mk('agg', *l)
    if t.op == 'clo':
        l = list(t.a)
        l[1 + i] = v
        return mk('clo', *l)
    if t.op == 'ite':
        return mk_ite(t.a[0], set_field(t.a[1], i, v), set_field(t.a[2], i, v))
    if t.op == 'undef':
        l = [mk('undef', 'field')] * (i + 1)
        l[i] = v
        return mk('agg', 'partial', 0, *l)
    return mk('setfield', t, i, v)


# ---------------------------------------------------------------- printing

def show(t, d=7):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return '..'
    o = t.op
    s = lambda x: show(x, d - 1)
    if o == 'num' or o == 'bool':
        return str(t.a[0])
    if o == 'str':
        return repr(t.a[0])
    if o == 'var':
        return t.a[0]
    if o == 'bv':
        return ('b%s' % t.a[0]) if isinstance(t.a[0], int) else t.a[0]
    if o == 'svar':
        return t.a[0]
    if o == 'poly':
        ps = []
        for m, c in t.a[0]:
            fs = '*'.join(s(x) if e == 1 else '%s^%s' % (s(x), e) for x, e in m)
            if not m:
                ps.append(str(c))
            elif c == 1:
                ps.append(fs)
            elif c == -1:
                ps.append('-' + fs)
            else:
                ps.append('%s*%s' % (c, fs))
        return '(' + ' + '.join(ps).replace('+ -', '- ') + ')'
    if o == 'le0i' or o == 'le0r':
        return s(t.a[0]) + '<=0'
    if o == 'lt0r':
        return s(t.a[0]) + '<0'
    if o == 'eq0':
        return s(t.a[0]) + '==0'
    if o == 'elem':
        return '%s[%s]' % (s(t.a[0]), s(t.a[1]))
    if o == 'agg':
        return '%s#%s(%s)' % (t.a[0].split('::')[-1], t.a[1], ', '.join(s(x) for x in t.a[2:]))
    if o in ('gen', 'sum', 'exists', 'first', 'flatgen'):
        return '%s(%s<%s: %s)' % (o, s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == 'scatter':
        s0, nb, g, st, q = t.a
        return 'scatter(%s; %s; if %s; @%s := %s)' % (s(s0), ', '.join('%s<%s' % (s(b), s(n)) for b, n in nb), s(g), s(st), s(q))
    if o == 'fn':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else repr(x) for x in t.a))


KN = num(2 ** 32)
KB = mk('bv', 'KB', KN)
KEY = sub(KB, num(KOFF))
