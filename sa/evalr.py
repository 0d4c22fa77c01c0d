"""Random interpretation of value-graph terms: two terms are separated by a
valuation of their variables under which they denote different values.

Exact rational arithmetic throughout; only transcendental functions use
floats, and a comparison that a float cannot decide discards the valuation."""
import bisect
import functools
import time
import math
import random
from fractions import Fraction
from terms import TYR, T
import terms as t_


class Skip(Exception):
    """the valuation cannot decide"""


class Undef(Exception):
    """the term has no value (out-of-range read, division by zero)"""


TOL = 1e-9


def isq(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def qdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def near(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b


def cmp(a, b):
    """sign of a-b; Skip when floats cannot decide"""
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            raise Skip()
        d = float(a) - float(b)
        if abs(d) <= 1e-7 * max(1.0, abs(a), abs(b)):
            if d == 0 and False:
                return 0
            raise Skip()
        return 1 if d > 0 else -1
    return (a > b) - (a < b)


class Agg:
    __slots__ = ('n', 'v', 'f')

    def __init__(self, n, v, f):
        self.n, self.v, self.f = n, v, f


class Lazy:
    """a sequence"""
    __slots__ = ('n', 'f', 'c')

    def __init__(self, n, f):
        self.n, self.f, self.c = n, f, {}

    def at(self, i):
        if not isq(i) or i != int(i):
            raise Skip()
        i = int(i)
        if i < 0 or i >= self.n:
            raise Undef('index %d of %d' % (i, self.n))
        if i not in self.c:
            self.c[i] = self.f(i)
        return self.c[i]


def seq(xs):
    return Lazy(len(xs), lambda i: xs[i])


MAXSEQ = 20000


def cubic_weight(x):
    p = lambda y: (y if cmp(y, 0) > 0 else 0) ** 3
    return qdiv(p(x + 2) - 4 * p(x + 1) + 6 * p(x) - 4 * p(x - 1), 6)


def sinc(x):
    if isq(x) and x == 0:
        return 1
    y = float(x) * 3.1415927
    return math.sin(y) / y if abs(y) > 1e-9 else 1.0


def lanczos(x, a):
    if cmp(x, -a) > 0 and cmp(x, a) < 0:
        return sinc(x) * sinc(qdiv(x, a))
    return 0


# what the functions named by an uninterpreted term compute (decided by obligations of their own)
@functools.lru_cache(None)
def hist_sums(*key):
    # the running totals of some histogram of 256 values
    q = random.Random(repr(key))
    r = [0]
    if key[0] >= 10 ** 6:
        # a given total
        vs = q.choice(([0, 255], range(256), [q.randrange(256)], range(100, 110), [0, 7, 250]))
        vs = sorted(q.choice(vs) for _ in range(key[0] % 1000))
        for v in range(256):
            r.append(r[-1] + vs.count(v))
        return r
    z = q.choice((0, 2, 8))
    for _ in range(256):
        r.append(r[-1] + (q.randint(0, 3) if not q.randint(0, z) else 0))
    return r


def hist_below(*a):
    r = hist_sums(*a[:-1])
    return r[min(max(a[-1], 0), 256)]


def hist_first(*a):
    r = hist_sums(*a[:-1])
    i = bisect.bisect_left(r, a[-1])
    return i if i <= 256 else 10 ** 6


APPDEF = {'hist_below': hist_below, 'first_ge:hist_below': hist_first, 'cubic_weighting_fn': cubic_weight, 'lanczos_kernel': lanczos}


class Val:
    """a valuation: values chosen on demand, reproducibly from the seed"""

    def __init__(self, seed, dom=None):
        self.seed = seed
        self.dom = dom or {}
        self.vals = {}
        self.memo = {}
        self.sat32 = [0, 0]         # the least and greatest 32-bit conversions so far
        self.fuel = 400000
        self.maxseq = MAXSEQ
        self.consts = ()
        self.wide = False       # now and then a long side

    def rng(self, *key):
        return random.Random('%s|%r' % (self.seed, key))

    def key(self, v):
        if isinstance(v, Lazy):
            return ('seq',) + tuple(self.key(v.at(i)) for i in range(v.n))
        if isinstance(v, Agg):
            return (v.n, v.v) + tuple(self.key(x) for x in v.f)
        if isinstance(v, float):
            return ('f', round(v, 6))
        if isinstance(v, Fraction) and v.denominator == 1:
            return v.numerator
        return v

    def pick(self, name, ty, *key):
        r = self.rng(name, *key)
        d = self.dom.get(name)
        if d is None:
            for p in self.dom:
                if isinstance(p, str) and p.endswith('*') and name.startswith(p[:-1]):
                    d = self.dom[p]
                    break
        if d is None:
            d = self.dom.get(('ty', ty))
        if self.consts and (d is None or getattr(d, 'open', False)) and r.random() < 0.35:
            c = self.near_const(r, ty)
            if c is not None:
                return c
        if d is not None:
            return d(r) if d.__code__.co_argcount - len(d.__defaults__ or ()) == 1 else d(r, self)
        if ty == 'bool':
            return r.random() < 0.5
        if ty == 'nat1' and self.wide:
            return r.choice((1, 1, 2, 2, 3, 9, 13, 18, 25))
        if ty in ('nat1', 'chan'):
            return r.choice([1, 2, 3, 3, 4, 4, 5]) if ty == 'chan' else r.randint(1, 5)
        if ty == 'usize':
            return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])
        if ty in ('u32', 'u64'):
            return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 11])
        if ty == 'nnreal':
            return abs(self.pick(name, 'real', *key, 'nn'))
        if ty in TYR:
            lo, hi = TYR[ty]
            k = r.random()
            if k < 0.15:
                return r.choice([lo, hi, lo + 1, hi - 1])
            if k < 0.5:
                return max(lo, min(hi, r.randint(-6, 6)))
            return r.randint(max(lo, -1000), min(hi, 1000))
        k = r.random()
        if k < 0.1:
            return 0
        if k < 0.35:
            return r.randint(-4, 9)
        if k < 0.6:
            return Fraction(r.randint(-64, 64), 16)
        if k < 0.8:
            return Fraction(r.randint(0, 997), 997)
        return Fraction(r.randint(-4000, 4000), 13)

    def near_const(self, r, ty):
        """a value next to a constant of the terms, when one fits the type"""
        if ty in ('nat1', 'usize', 'u32', 'u64'):
            cs = [c for c in self.consts if c.denominator == 1 and 2 <= c <= 48]
        elif ty == 'chan':
            return None
        elif ty in TYR:
            lo, hi = TYR[ty]
            cs = [c for c in self.consts if c.denominator == 1 and lo <= c <= hi]
        elif ty in ('real', 'nnreal'):
            cs = self.consts
        else:
            return None
        if not cs:
            return None
        c = r.choice(cs) + r.choice((-1, 0, 0, 0, 1))
        if ty in TYR:
            c = max(TYR[ty][0], min(TYR[ty][1], c))
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        return abs(c) if ty == 'nnreal' else c

    # ------------------------------------------------------------
    def ev(self, t, env):
        if t.fb:
            try:
                k = (t.id,) + tuple((b.id, self.key(env[b])) if b in env else (b.id,) for b in sorted(t.fb, key=lambda b: b.id))
            except TypeError:
                k = None
        else:
            k = t.id
        if k is not None:
            r = self.memo.get(k, self)
            if r is not self:
                if isinstance(r, Undef):
                    raise r
                return r
        self.fuel -= 1
        if self.fuel < 0:
            raise Skip()
        try:
            r = self._ev(t, env)
        except Undef as e:
            if k is not None:
                self.memo[k] = e
            raise
        if k is not None:
            self.memo[k] = r
        return r

    def nat(self, t, env):
        n = self.ev(t, env)
        if isinstance(n, float):
            raise Skip()
        if n != int(n):
            raise Skip()
        n = int(n)
        if n > self.maxseq:
            raise Skip()
        return max(n, 0)

    def _ev(self, t, env):
        o, a = t.op, t.a
        ev = self.ev
        if o == 'num' or o == 'bool' or o == 'str':
            return a[0]
        if o == 'bv' or o == 'phi':
            if t in env:
                return env[t]
            raise Skip()
        if o == 'poly':
            s = 0
            for mono, c in a[0]:
                p = c
                for x, e in mono:
                    v = ev(x, env)
                    if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)):
                        raise Skip()
                    if e < 0:
                        if isinstance(v, float) and abs(v) < 1e-12:
                            raise Skip()
                        if v == 0:
                            raise Undef('division by zero')
                        p = qdiv(p, v ** (-e))
                    else:
                        p = p * v ** e
                s = s + p
            if isinstance(s, Fraction) and s.denominator == 1:
                s = s.numerator
            return s
        if o == 'var':
            if t not in self.vals:
                self.vals[t] = self.pick(a[0], a[1])
            return self.vals[t]
        if o == 'svar':
            n = self.nat(a[1], env)
            return Lazy(n, lambda i: self.pick(a[0], a[2], i))
        if o == 'selem':
            n = self.nat(a[3], env)
            k = self.key(ev(a[1], env))
            nm = a[0].a[0] if a[0].op == 'svar' else 'selem%d' % a[0].id
            return Lazy(n, lambda i: self.pick(nm, a[2], k, i))
        if o == 'sapp':
            n = self.nat(a[2], env)
            ks = tuple(self.key(ev(x, env)) for x in a[3:])
            return Lazy(n, lambda i: self.pick(a[0], a[1], ks, i))
        if o == 'app':
            if a[0] in APPDEF:
                try:
                    return APPDEF[a[0]](*[ev(x, env) for x in a[2:]])
                except TypeError:
                    raise Skip()
            if a[0].startswith(('core::', 'alloc::', 'std::', 'rayon')):
                # a function without a model: nothing is known of its values
                raise Skip()
            ks = tuple(self.key(ev(x, env)) for x in a[2:])
            return self.pick(a[0], a[1], 'app', ks)
        if o in ('opaque',):
            ks = tuple(self.key(ev(x, env)) if isinstance(x, T) else x for x in a[1:])
            return ('opaque', a[0], ks)
        if o == 'undef':
            raise Undef('undefined')
        if o == 'le0i' or o == 'le0r':
            return cmp(ev(a[0], env), 0) <= 0
        if o == 'lt0r':
            return cmp(ev(a[0], env), 0) < 0
        if o == 'eq0':
            v = ev(a[0], env)
            if isinstance(v, float):
                return cmp(v, 0) == 0
            return v == 0
        if o == 'eq':
            return self.same(ev(a[0], env), ev(a[1], env))
        if o == 'not':
            return not ev(a[0], env)
        if o == 'and':
            u = None
            for x in a:
                try:
                    if not ev(x, env):
                        return False
                except (Undef, Skip) as e:
                    u = e
            if u is not None:
                raise u
            return True
        if o == 'or':
            u = None
            for x in a:
                try:
                    if ev(x, env):
                        return True
                except (Undef, Skip) as e:
                    u = e
            if u is not None:
                raise u
            return False
        if o == 'ite':
            return ev(a[1] if ev(a[0], env) else a[2], env)
        if o in ('min', 'max'):
            xs = [ev(x, env) for x in a]
            return (min if o == 'min' else max)(xs)
        if o == 'abs':
            return abs(ev(a[0], env))
        if o in ('floor', 'ceil', 'round', 'trunc'):
            return self.rounding(o, ev(a[0], env))
        if o == 'sat':
            lo, hi = t_.MACH[a[0]]
            v = max(lo, min(hi, self.rounding('trunc', ev(a[1], env))))
            if a[0] == 'i32':
                self.sat32[0] = min(self.sat32[0], v)
                self.sat32[1] = max(self.sat32[1], v)
            return v
        if o == 'wrap':
            lo, hi = t_.MACH[a[0]]
            v = ev(a[1], env)
            return (v - lo) % (hi - lo + 1) + lo
        if o == 'idiv':
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0:
                raise Undef('division by zero')
            if isinstance(x, float) or isinstance(y, float):
                raise Skip()
            return math.trunc(Fraction(x) / y)
        if o == 'mod':
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, float) or isinstance(y, float):
                raise Skip()
            if y == 0:
                raise Undef('modulo zero')
            r = x - y * math.trunc(Fraction(x) / y)
            return r
        if o == 'fn':
            return self.fn(a[0], a[1:], env)
        if o == 'elem':
            s = ev(a[0], env)
            i = ev(a[1], env)
            if not isinstance(s, Lazy):
                raise Skip()
            return s.at(i)
        if o == 'len':
            s = ev(a[0], env)
            if not isinstance(s, Lazy):
                raise Skip()
            return s.n
        if o == 'lit':
            env2 = env
            return Lazy(len(a), lambda i: ev(a[i], env2))
        if o == 'fill':
            n = self.nat(a[1], env)
            return Lazy(n, lambda i: ev(a[0], env))
        if o == 'slice':
            s = ev(a[0], env)
            lo, n = ev(a[1], env), self.nat(a[2], env)
            if not isinstance(s, Lazy):
                raise Skip()
            if lo < 0 or lo + n > s.n:
                raise Undef('slice %s..%s of %d' % (lo, lo + n, s.n))
            return Lazy(n, lambda i: s.at(lo + i))
        if o == 'concat':
            xs = [ev(x, env) for x in a]
            if not all(isinstance(x, Lazy) for x in xs):
                raise Skip()
            return self.cat(xs)
        if o == 'gen':
            n = self.nat(a[1], env)
            e = dict(env)
            return Lazy(n, lambda i: ev(a[2], self.bind(e, a[0], i)))
        if o == 'flatgen':
            n = self.nat(a[1], env)
            return self.cat([ev(a[2], self.bind(env, a[0], i)) for i in range(n)])
        if o == 'upd':
            s, i, v = ev(a[0], env), ev(a[1], env), a[2]
            if i < 0 or i >= s.n:
                raise Undef('write %s of %d' % (i, s.n))
            return Lazy(s.n, lambda j: ev(v, env) if j == i else s.at(j))
        if o == 'updr':
            s, i, q = ev(a[0], env), ev(a[1], env), ev(a[2], env)
            if i < 0 or i + q.n > s.n:
                raise Undef('write %s..%s of %d' % (i, i + q.n, s.n))
            return Lazy(s.n, lambda j: q.at(j - i) if i <= j < i + q.n else s.at(j))
        if o == 'sum':
            n = self.nat(a[1], env)
            s = 0
            for i in range(n):
                s = s + ev(a[2], self.bind(env, a[0], i))
            return s
        if o == 'exists':
            n = self.nat(a[1], env)
            for i in range(n):
                if ev(a[2], self.bind(env, a[0], i)):
                    return True
            return False
        if o == 'first':
            n = self.nat(a[1], env)
            for i in range(n):
                if ev(a[2], self.bind(env, a[0], i)):
                    return i
            return n
        if o in ('foldmax', 'foldmin'):
            n = self.nat(a[1], env)
            r = ev(a[3], env)
            f = max if o == 'foldmax' else min
            for i in range(n):
                r = f(r, ev(a[2], self.bind(env, a[0], i)))
            return r
        if o in ('mkeys', 'hkeys'):
            ks = [i for i in range(t_.KOFF - 60, t_.KOFF + 400) if ev(a[2], self.bind(env, a[0], i))]
            if self.sat32[0] < -60 or self.sat32[1] >= 400:
                raise Skip()        # there may be keys outside the enumerated ones
            if o == 'hkeys':        # any order will do
                ks.sort(key=lambda k: k * 2654435761 % 2 ** 32)
            return Lazy(len(ks), lambda i: ks[i] - t_.KOFF)
        if o == 'mapat':
            return ev(a[2], self.bind(env, a[0], ev(a[3], env) + t_.KOFF))
        if o == 'kidx':
            ks, e = ev(a[0], env), ev(a[1], env)
            return sum(1 for i in range(ks.n) if ks.at(i) < e) if a[0].op == 'mkeys' else [ks.at(i) for i in range(ks.n)].index(e)
        if o == 'filt':
            return self.filt(a, env)
        if o == 'scatter':
            return self.scatter(a, env)
        if o == 'fold':
            return self.fold(t, env)
        if o == 'agg':
            return Agg(a[0], a[1], [self.lazyev(x, env) for x in a[2:]])
        if o == 'field':
            v = ev(a[0], env)
            if not isinstance(v, Agg):
                raise Skip()
            return self.force(v.f[a[1]])
        if o == 'discr':
            v = ev(a[0], env)
            if not isinstance(v, Agg):
                raise Skip()
            return v.v
        if o == 'iter':
            return Agg('iter', 0, [ev(a[0], env), ev(a[1], env)])
        if o == 'bits':
            x, y = ev(a[1], env), ev(a[2], env)
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Skip()
            if a[0] == 'BitAnd':
                return x & y
            if a[0] == 'BitOr':
                return x | y
            if a[0] == 'BitXor':
                return x ^ y
        raise Skip()

    def lazyev(self, x, env):
        if not isinstance(x, T):
            return x
        return self.ev(x, env)

    def force(self, x):
        return x

    def bind(self, env, b, i):
        e = dict(env)
        e[b] = i
        return e

    def cat(self, xs):
        tot = sum(x.n for x in xs)
        if tot > self.maxseq:
            raise Skip()
        offs = []
        p = 0
        for x in xs:
            offs.append(p)
            p += x.n
        import bisect

        def at(i):
            j = bisect.bisect_right(offs, i) - 1
            while xs[j].n == 0 or i >= offs[j] + xs[j].n:
                j += 1
            return xs[j].at(i - offs[j])
        # skip empty pieces
        nz = [(o, x) for o, x in zip(offs, xs) if x.n]
        offs[:] = [o for o, _ in nz]
        xs = [x for _, x in nz]
        return Lazy(tot, at)

    def rounding(self, o, v):
        if isinstance(v, float):
            f = v - math.floor(v)
            if o in ('floor', 'ceil', 'trunc') and (f < 1e-6 or f > 1 - 1e-6):
                if f != 0 or True:
                    raise Skip()
            if o == 'round' and abs(f - 0.5) < 1e-6:
                raise Skip()
        if o == 'floor':
            return math.floor(v)
        if o == 'ceil':
            return math.ceil(v)
        if o == 'trunc':
            return math.trunc(v)
        return t_.rnd(v)

    def fn(self, name, xs, env):
        vs = [self.ev(x, env) if isinstance(x, T) else x for x in xs]
        if name == 'concat_all':
            return self.cat([vs[0].at(i) for i in range(vs[0].n)])
        if name in ('divzero',):
            raise Undef('division by zero')
        if name == 'sort':
            s = vs[0]
            return seq(sorted(s.at(i) for i in range(s.n)))
        try:
            fs = [float(v) for v in vs]
        except (TypeError, ValueError):
            return self.pick('fn:' + name, 'real', tuple(self.key(v) for v in vs))
        try:
            if name == 'sqrt':
                if isq(vs[0]) and vs[0] >= 0:
                    q = Fraction(vs[0])
                    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if n * n == q.numerator and d * d == q.denominator:
                        return n // d if n % d == 0 else Fraction(n, d)
                return math.sqrt(fs[0])
            if name == 'exp':
                return math.exp(fs[0])
            if name == 'ln':
                return math.log(fs[0])
            if name == 'sin':
                return math.sin(fs[0])
            if name == 'cos':
                return math.cos(fs[0])
            if name == 'atan2':
                return math.atan2(*fs)
            if name == 'pow':
                if fs[0] < 0:
                    raise Undef('power of a negative number')
                return math.pow(*fs)
            if name == 'cbrt':
                return math.copysign(abs(fs[0]) ** (1 / 3), fs[0])
        except (ValueError, ZeroDivisionError):
            raise Undef(name)
        except OverflowError:
            raise Skip()
        return self.pick('fn:' + name, 'real', tuple(self.key(v) for v in vs))

    def filt(self, a, env):
        s = self.ev(a[0], env)
        c = a[1]
        out = []
        for i in range(s.n):
            cc = self.ev(c, env)
            v = cc.at(i) if isinstance(cc, Lazy) else cc
            if v:
                out.append(s.at(i))
        return seq(out)

    def scatter(self, a, env):
        s0, nb, guard, start, q = a
        base = self.ev(s0, env)
        w = {}

        def go(j, e):
            if j == len(nb):
                if not self.ev(guard, e):
                    return
                st = self.ev(start, e)
                qq = self.ev(q, e)
                for r in range(qq.n):
                    p = st + r
                    if p < 0 or p >= base.n:
                        raise Undef('write %s of %d' % (p, base.n))
                    w[p] = (qq, r)
                return
            b, n = nb[j]
            for i in range(self.nat(n, e)):
                go(j + 1, self.bind(e, b, i))
        go(0, env)
        return Lazy(base.n, lambda i: w[i][0].at(w[i][1]) if i in w else base.at(i))

    def fold(self, t, env):
        ck, n, i, phis, inits, nexts, cont = t.a
        key = ('fold', id(inits), n.id if n is not None else 0, ck.id, tuple(x.id for x in nexts), tuple(x.id for x in inits), cont.id,
               tuple((b.id, self.key(env[b])) for b in sorted(t.fb, key=lambda b: b.id) if b in env))
        r = self.memo.get(key)
        if r is None:
            cur = [self.ev(x, env) for x in inits]
            cnt = self.nat(n, env) if n is not None else 2000
            j = 0
            while j < cnt:
                e = dict(env)
                e[ck] = j
                for p, v in zip(phis, cur):
                    e[p] = self.freeze(v)
                if cont is not t_.TRUE and not self.ev(cont, e):
                    break
                cur = [self.freeze(self.ev(x, e)) for x in nexts]
                j += 1
            else:
                if n is None:
                    raise Skip()
            r = cur
            self.memo[key] = r
        return r[i]

    def freeze(self, v):
        if isinstance(v, Lazy):
            return seq([self.freeze(v.at(i)) for i in range(v.n)])
        return v

    # ------------------------------------------------------------
    def same(self, x, y):
        if isinstance(x, bool) or isinstance(y, bool):
            return x is y or x == y
        if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
            return near(x, y)
        if isinstance(x, Lazy) and isinstance(y, Lazy):
            return x.n == y.n and all(self.same(x.at(i), y.at(i)) for i in range(x.n))
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.n != y.n or x.v != y.v:
                return False
            if x.n.endswith('ImgProcError') or x.n.endswith('ImgIoError'):
                return True
            return len(x.f) == len(y.f) and all(self.same(p, q) for p, q in zip(x.f, y.f))
        return x == y


def describe(v, depth=0):
    if isinstance(v, Lazy):
        return '[%s%s]' % (', '.join(describe(v.at(i), depth + 1) for i in range(min(v.n, 8))), ', ..' if v.n > 8 else '')
    if isinstance(v, Agg):
        return '%s#%d(%s)' % (v.n.split('::')[-1], v.v, ', '.join(describe(x, depth + 1) for x in v.f))
    if isinstance(v, Fraction):
        return '%s' % float(v)
    return str(v)


CAP = [30.0]                # seconds for the valuations of one obligation
BIG = [60.0]                # seconds left for valuations with large shapes
NARROW = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16}


def big_shapes(ts, dom):
    """domains under which the arguments of the narrowing casts in ts exceed the narrow type"""
    bits, vs, every = set(), [], []
    for t in ts:
        if not isinstance(t, T):
            continue
        for s in t_.subterms(t):
            if s.op == 'var' and s.a[1] in ('nat1', 'usize', 'u32') and s not in every:
                every.append(s)
            if s.op == 'wrap' and s.a[0] in NARROW:
                bits.add(NARROW[s.a[0]])
                for u in t_.subterms(s):
                    if u.op == 'var' and u.a[1] in ('nat1', 'usize', 'u32') and u not in vs:
                        vs.append(u)
    vs = vs or every
    vs = sorted(vs, key=lambda v: v.a[0])[:4]
    out = []
    for b in sorted(bits):
        n = 1 << b
        q = 1 << (b // 2)
        ch = [{v: n + 2} for v in vs]
        ch += [{v: q + 1, u: q} for i, v in enumerate(vs) for u in vs[:i]]
        for c in ch:
            d = dict(dom or {})
            for v in vs:
                d[v.a[0]] = (lambda k: lambda r: k)(c.get(v, 1))
            out.append(d)
    return out


def thresholds(ts, dom):
    """domains under which a size passes a number that the terms compare it with"""
    pairs = []
    seen = set()
    for t in ts:
        if not isinstance(t, T):
            continue
        for s in t_.subterms(t):
            if s.id in seen or s.op not in ('le0i', 'le0r', 'lt0r', 'eq0', 'min', 'max'):
                continue
            seen.add(s.id)
            c, ms = 0, []
            for q in s.a:
                if not isinstance(q, T):
                    continue
                if q.op == 'num':
                    c = max(c, abs(q.a[0]))
                elif q.op == 'poly':
                    for m, k in q.a[0]:
                        if m == ():
                            c = max(c, abs(k))
                        else:
                            ms.append((m, k))
                else:
                    ms.append((((q, 1),), 1))
            if not 12 <= c <= 70000:
                continue
            for m, k in ms:
                for x, e in m:
                    us = [x] if x.op == 'var' else [u for u in t_.subterms(x) if u.op == 'var'][:8] if x.op in ('length', 'min', 'max', 'idiv', 'mod', 'ite') else []
                    for u in us:
                        if u.a[1] in ('nat1', 'usize', 'u32', 'u64', 'u8', 'u16'):
                            z = (u, int(c / abs(k)))
                            if z not in pairs and 6 <= z[1] <= t_.TYR[u.a[1]][1] - 3:
                                pairs.append(z)
    pairs.sort(key=lambda z: (z[1], z[0].a[0]))
    vs = sorted({u for u, _ in pairs}, key=lambda u: u.a[0])
    out = []
    sets = [({u}, n) for u, n in pairs[:8]]
    for n in sorted({n for _, n in pairs})[:4]:
        us = {u for u, k in pairs if k == n}
        if len(us) > 1:
            sets.append((us, n))
    for us, n in sets:
        d = dict(dom or {})
        for v in vs:
            d[v.a[0]] = (lambda n: lambda r: n + r.choice([1, 1, 2, 3]))(n) if v in us else lambda r: r.choice([1, 1, 2])
        out.append(d)
    return out


def separate_big(x, y, pre, dom, seed, frees):
    ds = big_shapes((x, y), dom) + thresholds((x, y), dom)
    good = []
    for k in range(40 if ds else 0):
        # a seed whose other choices make the specification non-trivial already on small shapes
        v = Val('%s.big.%d' % (seed, k), dom)
        try:
            r = v.rng('frees')
            env = {}
            for b, n in frees:
                env[b] = r.randrange(max(1, v.nat(n, env)))
            if all(v.ev(p, env) for p in pre) and v.ev(y, env) not in (0, False):
                good.append(k)
        except (Skip, Undef, RecursionError):
            continue
        if len(good) >= 6:
            break
    for j, d in enumerate(ds):
        for k in (good[2 * j % max(1, len(good)):][:2] or good[:2]):
            t0 = time.time()
            if BIG[0] <= 0:
                return None
            v = Val('%s.big.%d' % (seed, k), d)
            v.fuel, v.maxseq = 6000000, 200000
            try:
                if not all(v.ev(p, {}) for p in pre):
                    continue
                r = v.rng('frees')
                for rep in range(6):
                    env = {}
                    for b, n in frees:
                        m = v.nat(n, env)
                        if m <= 0:
                            break
                        env[b] = (m - 1 if r.random() < 0.6 else r.randrange(m))
                    if len(env) < len(frees) or not all(v.ev(p, env) for p in pre):
                        continue
                    try:
                        b_ = deep1(v, v.ev(y, env))
                    except Undef:
                        continue
                    try:
                        a_ = deep1(v, v.ev(x, env))
                    except Undef as e:
                        return 'undefined (%s) instead of %s' % (e, describe(b_)), v, env
                    if not v.same(a_, b_):
                        return '%s instead of %s' % (describe(a_), describe(b_)), v, env
            except (Skip, Undef, RecursionError):
                continue
            finally:
                BIG[0] -= time.time() - t0
    return None


def deep1(v, x):
    return deep(v, x) if isinstance(x, (Lazy, Agg)) else x


def separate(x, y, pre=(), dom=None, tries=60, seed=1, frees=(), spare=4.0):
    r = separate1(x, y, pre, dom, tries, seed, frees, spare)
    if r is None or r == 'NONE':
        return separate_big(x, y, pre, dom, seed, frees) or r
    return r


def open_dom(f):
    """a domain that constants of the terms may be added to"""
    f.open = True
    return f


def constants(*ts):
    """the numbers that occur in terms"""
    out = set()
    for t in ts:
        if not isinstance(t, T):
            continue
        for s in t_.subterms(t):
            if s.op == 'num':
                out.add(Fraction(s.a[0]))
            elif s.op == 'sat' and s.a[0] in ('i8', 'i16', 'u16'):
                out.add(Fraction(t_.MACH[s.a[0]][1] + 1))
            elif s.op == 'poly':
                for m, c in s.a[0]:
                    if m == ():
                        out.add(abs(Fraction(c)))
    return tuple(sorted(c for c in out if abs(c) >= 2))


def separate1(x, y, pre=(), dom=None, tries=60, seed=1, frees=(), spare=4.0):
    """a description of a valuation under which x and y differ, or None.
    frees: [(bv, bound term)] enumerated free index variables; several index choices are tried per valuation, and
    more valuations than asked for while that takes less than the spare time"""
    done = 0
    cs = None
    t0 = time.time()
    for k in range(tries * 24):
        if done >= tries and (done >= 8 * tries or time.time() - t0 > spare) or time.time() - t0 > CAP[0]:
            break
        if done == 0 and k >= tries * 8:
            break
        v = Val('%s.%d' % (seed, k), dom)
        v.wide = k % 5 == 4
        if k % 3 == 2:
            if cs is None:
                cs = constants(x, y)
            v.consts = cs
        r = v.rng('frees')
        for rep in range(5 if frees else 1):
            try:
                if rep == 0 and not all(v.ev(p, {}) for p in pre):
                    break
                env = {}
                for b, n in frees:
                    m = v.nat(n, env)
                    if m <= 0:
                        break
                    env[b] = r.randrange(m)
                if len(env) < len(frees):
                    break
                if not all(v.ev(p, env) for p in pre):
                    continue
            except (Skip, Undef):
                continue
            try:
                try:
                    b_ = v.ev(y, env)
                    if isinstance(b_, (Lazy, Agg)):
                        b_ = deep(v, b_)
                except Undef as e:
                    continue          # the specification says nothing here
                try:
                    a_ = v.ev(x, env)
                    if isinstance(a_, (Lazy, Agg)):
                        a_ = deep(v, a_)
                except Undef as e:
                    return 'undefined (%s) instead of %s' % (e, describe(b_)), v, env
                if not v.same(a_, b_):
                    return '%s instead of %s' % (describe(a_), describe(b_)), v, env
                if rep == 0:
                    done += 1
            except Skip:
                continue
            except RecursionError:
                continue
    return None if done else 'NONE'


def deep(v, x):
    if isinstance(x, Lazy):
        return seq([deep(v, x.at(i)) for i in range(x.n)])
    if isinstance(x, Agg):
        return Agg(x.n, x.v, [deep(v, y) for y in x.f])
    return x


def holds(c, pre=(), dom=None, tries=60, seed=1):
    """a valuation under which the condition c is true, or None"""
    done = 0
    cs = None
    t0 = time.time()
    for k in range(tries * 20):
        if done >= tries and (done >= 8 * tries or time.time() - t0 > 4) or done == 0 and k >= tries * 6 or time.time() - t0 > CAP[0]:
            break
        v = Val('%s.%d' % (seed, k), dom)
        v.wide = k % 5 == 4
        if k % 3 == 2:
            if cs is None:
                cs = constants(c)
            v.consts = cs
        try:
            if not all(v.ev(p, {}) for p in pre):
                continue
            done += 1
            if v.ev(c, {}):
                return v
        except (Skip, Undef, RecursionError):
            continue
    for d in big_shapes((c,), dom) + thresholds((c,), dom):
        if BIG[0] <= 0:
            break
        t0 = time.time()
        v = Val('%s.big' % seed, d)
        v.fuel, v.maxseq = 6000000, 200000
        try:
            if all(v.ev(p, {}) for p in pre) and v.ev(c, {}):
                return v
        except (Skip, Undef, RecursionError):
            continue
        finally:
            BIG[0] -= time.time() - t0
    return None


def valuation(v):
    out = []
    for t, x in sorted(v.vals.items(), key=lambda kv: kv[0].id):
        out.append('%s=%s' % (t.a[0], describe(x)))
    return ', '.join(out[:14])
