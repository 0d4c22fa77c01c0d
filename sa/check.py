"""Obligations of the properties, their decision, evidence and reports."""
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import world
from harn import *
from harn import Harness, find, Missing, var
import terms as t_
from terms import *
from terms import mk, T
import evalr
from interp import Stuck

sys.setrecursionlimit(300000)


# ------------------------------------------------------------------ simplification under facts
def index_facts(b, n):
    """what holds of an index below n"""
    out = [le0i(neg(b)), le0i(sub(add(b, ONE), n))]
    if n.op == 'poly' and len(n.a[0]) == 1:
        # every factor of a positive product of natural numbers is positive
        (mo, c), = n.a[0]
        if c > 0 and all(is_int(x) and rng(x)[0] >= 0 for x, e in mo):
            out += [le0i(sub(ONE, x)) for x, e in mo]
    return tuple(f for f in out if f is not TRUE)


def whole(v, facts):
    """a fact says that v has no fractional part"""
    return any(f.op == 'eq0' and f.a[0].op == 'mod' and f.a[0].a[0] is v and f.a[0].a[1] is ONE for f in facts)


def dsimp(t, facts, memo=None):
    """rewrite every decided condition anywhere inside t"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ('num', 'bool', 'str', 'undef', 'var', 'bv', 'phi', 'svar', 'fold', 'scatter'):
        r = t
    elif o in ('le0i', 'le0r', 'lt0r', 'eq0', 'eq', 'app', 'exists') and is_boolean(t) and decide(t, facts) is not None:
        r = TRUE if decide(t, facts) else FALSE
    elif o == 'ite':
        c = dsimp(t.a[0], facts, memo)
        d = decide(c, facts) if c.op != 'bool' else c.a[0]
        if d is True:
            r = dsimp(t.a[1], facts, memo)
        elif d is False:
            r = dsimp(t.a[2], facts, memo)
        else:
            r = mk_ite(c, dsimp(t.a[1], facts + (c,)), dsimp(t.a[2], facts + (mk_not(c),)))
    elif o == 'poly':
        out = []
        for mono, c in t.a[0]:
            q = num(c)
            for x, e in mono:
                y = dsimp(x, facts, memo)
                q = mul(q, power(y, e) if e > 0 else inv(power(y, -e)))
            out.append(q)
        r = add(*out)
    elif o in t_.BINDERS:
        r = t
        if o == 'exists':
            n = dsimp(t.a[1], facts, memo)
            b = fresh_bv(n)
            body = dsimp(subst(t.a[2], {t.a[0]: b}), facts + index_facts(b, n))
            r = mk_exists(b, n, body)
        elif o in ('gen', 'sum', 'flatgen', 'exists', 'first'):
            n = dsimp(t.a[1], facts, memo)
            b = fresh_bv(n)
            body = subst(t.a[2], {t.a[0]: b})
            body2 = dsimp(body, facts)
            if body2 is not body or n is not t.a[1]:
                r = {'gen': mk_gen, 'sum': mk_sum, 'flatgen': mk_flatgen, 'exists': mk_exists, 'first': mk_first}[o](b, n, body2)
    else:
        def go(x):
            if isinstance(x, T):
                return dsimp(x, facts, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        a = tuple(go(x) for x in t.a)
        r = t if all(p is q for p, q in zip(a, t.a)) else rebuild(o, a)
        if r.op == 'idiv':
            r = mk_idiv(r.a[0], r.a[1], facts)
        elif r.op in ('floor', 'ceil', 'round', 'trunc') and not is_int(r.a[0]) and whole(r.a[0], facts):
            r = r.a[0]
        elif r.op in ('wrap', 'sat'):
            lo, hi = t_.MACH[r.a[0]]
            v = r.a[1]
            # the root of a length or size fits in 32 bits
            root = v.op == 'fn' and v.a[0] == 'sqrt' and is_int(v.a[1]) and hi >= 2 ** 32 - 1
            if prove_le0(sub(num(lo), v), facts) and (root or prove_le0(sub(v, num(hi)), facts)):
                r = v if r.op == 'wrap' or is_int(v) or whole(v, facts) else t_.mk_round('trunc', v)
        elif r.op in ('floor', 'ceil') and not is_int(r.a[0]) and t_.strict_facts(facts) and len(pdict(r.a[0])) <= 4:
            v = r.a[0]
            for n in range(-7, 8):
                lo, hi = (n, n + 1) if r.op == 'floor' else (n - 1, n)
                if r.op == 'floor':
                    ok = prove_le0(sub(num(lo), v), facts) and t_.prove_lt0(sub(v, num(hi)), facts)
                else:
                    ok = t_.prove_lt0(sub(num(lo), v), facts) and prove_le0(sub(v, num(hi)), facts)
                if ok:
                    r = num(n)
                    break
        elif r.op == 'abs':
            if prove_le0(neg(r.a[0]), facts):
                r = r.a[0]
            elif prove_le0(r.a[0], facts):
                r = neg(r.a[0])
        elif r.op in ('min', 'max'):
            s = 1 if r.op == 'max' else -1
            xs = list(r.a)
            i = 0
            while i < len(xs) and len(xs) > 1:
                # drop an argument dominated by another one
                if any(prove_le0(scale(sub(xs[i], y), s), facts) for y in xs[:i] + xs[i + 1:]):
                    xs.pop(i)
                else:
                    i += 1
            r = rebuild(r.op, tuple(xs))
        elif r is not t and is_boolean(r) and r.op != 'bool':
            d = decide(r, facts)
            if d is not None:
                r = TRUE if d else FALSE
        elif r.op == 'mod':
            r = mk_mod(r.a[0], r.a[1], facts)
    memo[t] = r
    return r


def conds(t, out, seen, limit=40):
    """conditions of the ites reachable without entering a binder"""
    if len(out) >= limit or t in seen:
        return
    seen.add(t)
    if t.op == 'ite':
        c = t.a[0]
        ls = []
        lits(c, ls)
        for q in ls:
            if q not in out:
                out.append(q)
            if q.a and isinstance(q.a[0], T):
                conds(q.a[0], out, seen, limit)
    if t.op in t_.BINDERS or t.op in ('fold', 'scatter', 'num', 'var', 'svar'):
        if t.op in ('sum', 'gen', 'flatgen', 'exists', 'first', 'foldmax', 'foldmin') and isinstance(t.a[1], T):
            conds(t.a[1], out, seen, limit)
            if t.op == 'sum':
                # conditions of the body that do not depend on the index
                inner = []
                conds(t.a[2], inner, set(), limit)
                out.extend(c for c in inner if t.a[0] not in c.fb and c not in out)
        return
    if t.op == 'poly':
        for mono, _ in t.a[0]:
            for x, _e in mono:
                conds(x, out, seen, limit)
        return
    for x in t.a:
        if isinstance(x, T):
            conds(x, out, seen, limit)


def lits(c, out):
    if c.op in ('and', 'or'):
        for x in c.a:
            lits(x, out)
    elif c.op == 'not':
        lits(c.a[0], out)
    elif c.op == 'ite':
        lits(c.a[0], out)
    elif c.op != 'bool' and c not in out:
        out.append(c)


class Budget(Exception):
    pass


def prove_eq(x, y, facts=(), depth=9, budget=None):
    if budget is None:
        budget = [600]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if x is y:
        return True
    if x.op == 'agg' and y.op == 'agg':
        if x.a[:2] != y.a[:2]:
            return contradictory(facts)
        if str(x.a[0]).endswith('ImgProcError') or str(x.a[0]).endswith('ImgIoError'):
            return True
        if len(x.a) != len(y.a):
            return False
        return all(prove_eq(p, q, facts, depth, budget) if isinstance(p, T) else p == q for p, q in zip(x.a[2:], y.a[2:]))
    x2, y2 = dsimp(x, facts), dsimp(y, facts)
    if x2 is y2:
        return True
    if x2 is not x or y2 is not y:
        return prove_eq(x2, y2, facts, depth, budget)
    if is_numeric(x) and is_numeric(y) and x.op != 'ite' and y.op != 'ite':
        d = sub(x, y)
        if prove_le0(d, facts) and prove_le0(neg(d), facts):
            return True
        den = denominators(d)
        if den and all(nonzero(q, facts) for q in den):
            m = d
            for q, e in den.items():
                m = times_power(m, q, e)
            if m is ZERO or (m is not d and not denominators(m) and prove_le0(m, facts) and prove_le0(neg(m), facts)):
                return True
    if isseq(x) and isseq(y) and x.op not in ('ite',) and y.op not in ('ite',):
        if not prove_eq(length(x), length(y), facts, depth, budget):
            return False
        n = length(x)
        b = fresh_bv(n)
        ex, ey = elem(x, b, facts), elem(y, b, facts)
        if not (ex.op == 'elem' and ex.a[0] is x and ey.op == 'elem' and ey.a[0] is y):
            return prove_eq(ex, ey, facts + (le0i(neg(b)), le0i(sub(add(b, ONE), n))), depth, budget)
        return False
    if x.op == y.op and x.op in ('sum', 'gen', 'foldmax', 'foldmin', 'exists', 'flatgen') and x.a[1] is y.a[1]:
        b = fresh_bv(x.a[1])
        if len(x.a) > 3 and x.a[3:] != y.a[3:]:
            return False
        if prove_eq(subst(x.a[2], {x.a[0]: b}), subst(y.a[2], {y.a[0]: b}), facts + (le0i(neg(b)), le0i(sub(add(b, ONE), x.a[1]))), depth, budget):
            return True
    if depth <= 0:
        return contradictory(facts)
    cs = []
    seen = set()
    conds(x, cs, seen)
    conds(y, cs, seen)
    if is_boolean(x) and is_boolean(y):
        lits(x, cs)
        lits(y, cs)
    cs = [c for c in cs if decide(c, facts) is None]
    if not cs:
        if x.op == y.op and x.op not in t_.BINDERS and x.op not in ('poly', 'fold', 'scatter') and len(x.a) == len(y.a):
            if all(prove_eq(p, q, facts, depth - 1, budget) if isinstance(p, T) and isinstance(q, T) else p == q for p, q in zip(x.a, y.a)):
                return True
        if x.op == 'poly' and y.op == 'poly':
            # match atoms pairwise
            ax = sorted({q for m, _ in x.a[0] for q, _ in m} - {q for m, _ in y.a[0] for q, _ in m}, key=lambda q: q.id)
            ay = sorted({q for m, _ in y.a[0] for q, _ in m} - {q for m, _ in x.a[0] for q, _ in m}, key=lambda q: q.id)
            if ax and len(ax) == len(ay) <= 3:
                import itertools
                for perm in itertools.permutations(ay):
                    m = {}
                    for p, q in zip(ax, perm):
                        m[q] = p
                    z = replace(y, m)
                    if z is x and all(p.op == q.op and prove_eq(p, q, facts, depth - 1, budget) for p, q in zip(ax, perm)):
                        return True
        return contradictory(facts)
    cs.sort(key=lambda c: (c.op != 'var', len(show(c)) if c.h < 3 else 999))
    c = cs[0]
    nc = mk_not(c)
    return (prove_eq(x, y, facts + (c,), depth - 1, budget) and prove_eq(x, y, facts + (nc,), depth - 1, budget))


def denominators(t):
    """sums that occur with a negative exponent, with the largest such exponent"""
    out = {}
    if t.op == 'poly':
        for mono, _ in t.a[0]:
            for x, e in mono:
                if e < 0 and x.op == 'poly':
                    out[x] = max(out.get(x, 0), -e)
    return out


def times_power(t, q, e):
    out = []
    for mono, c in t.a[0]:
        k = e
        r = num(c)
        for x, f in mono:
            if x is q:
                k += f
            else:
                r = mul(r, power(x, f) if f > 0 else inv(power(x, -f)))
        out.append(mul(r, power(q, k) if k >= 0 else inv(power(q, -k))))
    return add(*out)


def nonzero(q, facts):
    e = mk_eq(q, ZERO)
    return decide(e, facts) is False or decide(mk_not(le0r(q)), facts) is True or decide(mk_not(le0r(neg(q))), facts) is True or prove_pos(q, facts)


def prove_pos(q, facts):
    """q > 0 for every valuation of the facts"""
    if q.op != 'poly':
        return False
    d = pdict(q)
    lcm = 1
    for c in d.values():
        c = Fraction(c)
        lcm = lcm * c.denominator // __import__('math').gcd(lcm, c.denominator)
    z = scale(q, lcm)
    return is_int(z) and prove_le0(sub(ONE, z), facts)


def replace(t, m, memo=None):
    """replace atoms of a polynomial"""
    if t.op != 'poly':
        return m.get(t, t)
    out = []
    for mono, c in t.a[0]:
        q = num(c)
        for x, e in mono:
            y = m.get(x, x)
            q = mul(q, power(y, e) if e > 0 else inv(power(y, -e)))
        out.append(q)
    return add(*out)


def contradictory(facts):
    for f in facts:
        # an atom that is zero
        if (f.op == 'eq0' or f.op == 'le0i' and t_.rng(f.a[0])[0] == 0) and f.a[0].op not in ('poly', 'num'):
            if any(g is not f and f.a[0] in t_._sub(g) and t_.subst_vars(g, {f.a[0]: ZERO}) is FALSE for g in facts):
                return True
    for i, f in enumerate(facts):
        d = decide(f, facts[:i] + facts[i + 1:])
        if d is False:
            return True
    return False


SEQ = {'svar', 'lit', 'gen', 'fill', 'slice', 'concat', 'flatgen', 'upd', 'updr', 'scatter', 'selem', 'sapp', 'fold'}


def isseq(t):
    if t.op == 'fold':
        return t.a[3][t.a[2]].a[2].startswith('seq:')
    if t.op == 'ite':
        return isseq(t.a[1]) and isseq(t.a[2])
    return t.op in SEQ


# ------------------------------------------------------------------ context
FUEL = 200000


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []            # dicts
        self.viol = []
        self.fuel = FUEL
        self.known_hits = []
        self.findings = load_findings(pid)
        self.analysed = set()
        self.sites = 0
        self.t0 = time.time()
        self.tries = 60 if tier == 'quick' else 400
        self.depth = 9 if tier == 'quick' else 12
        self.done_hash = {}
        self.stats = {}

    # -- time
    def pace(self):
        """the effort one more obligation may take: all of it on a tree without violations, less when one is already shown
        or when time runs out; obligations that get no decision for that are undecided"""
        el = (time.time() - self.t0) / (1 if self.tier == 'quick' else 20)
        fuel, cap = FUEL, 30.0
        if self.viol:
            fuel, cap = 4000, 4.0
        elif el > 350:
            fuel, cap = 2000, 2.0
        elif el > 180:
            fuel, cap = 20000, 8.0
        if el > 600 or self.viol and el > 240:
            fuel, cap = 0, 0.0
        t_.FUEL[0] = fuel
        t_.DEAD[0] = time.time() + cap * (1 if self.tier == 'quick' else 20)
        evalr.CAP[0] = cap * (1 if self.tier == 'quick' else 20)
        return cap > 0

    # -- worlds
    def world(self, cfg):
        return world.load(cfg)

    def har(self, cfg='none', **env):
        e = {'F': 'fn', 'G': 'fn'}
        e.update(env)
        return Harness(self.world(cfg), e)

    def note_run(self, H):
        self.analysed |= set(H.I.inlined)

    # -- reporting
    def add(self, name, status, site='', detail='', key=None):
        self.fuel = min(self.fuel, t_.FUEL[0])
        t_.FUEL[0], t_.DEAD[0] = 10 ** 9, None
        self.obl.append({'obligation': name, 'status': status, 'site': site})
        if detail and status not in ('proved', 'holds'):
            self.obl[-1]['detail'] = detail[:600]
        if status == 'violated':
            k = key or name
            f = self.findings.get(k)
            if f is not None:
                self.known_hits.append((k, f))
                self.obl[-1]['status'] = 'known-finding'
            else:
                self.viol.append({'obligation': name, 'key': k, 'site': site, 'detail': detail})

    def rule(self, name, ok, site='', detail='', key=None):
        self.add(name, 'holds' if ok else 'violated', site, detail, key)
        return ok

    def eq(self, name, x, y, pre=(), dom=None, site='', frees=(), key=None):
        """the two terms denote the same value under pre"""
        pre = tuple(pre)
        facts = pre + tuple(c for b, n in frees for c in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
        if x is None:
            self.add(name, 'undecided', site, 'never returns')
            return None
        r = None
        if not self.pace():
            self.add(name, 'undecided', site, 'no time left')
            return None
        try:
            if x is y or dsimp(x, facts) is dsimp(y, facts):
                self.add(name, 'proved', site)
                return True
            # a few valuations before the search for a proof by cases
            r = evalr.separate1(x, y, pre, dom, 6, '%s.first' % self.seed, frees, 0)
            if r in (None, 'NONE') and prove_eq(x, y, facts, self.depth):
                self.add(name, 'proved', site)
                return True
        except RecursionError:
            pass
        if r in (None, 'NONE'):
            r = evalr.separate(x, y, pre, dom, self.tries, self.seed, frees)
        if r is None or r == 'NONE':
            self.add(name, 'undecided', site, 'normal forms differ; no separating valuation: %s  vs  %s' % (show(x)[:240], show(y)[:240]))
            return None
        what, v, env = r
        evalr.BIG[0] = min(evalr.BIG[0], 10.0)
        detail = 'value graph of %s differs from the specification: %s\n  at %s%s\n  code: %s\n  spec: %s' % (
            site, what, evalr.valuation(v), ''.join(', index=%s' % x for x in env.values()), show(x)[:900], show(y)[:900])
        self.add(name, 'violated', site, detail, key)
        return False

    def refute(self, name, x, y, pre=(), dom=None, site=''):
        """a search for values that separate the terms, for cases whose proof another obligation gives"""
        if x is None or not self.pace():
            return
        r = evalr.separate(x, y, tuple(pre), dom, self.tries, self.seed)
        if r is not None and r != 'NONE':
            self.add(name, 'violated', site, 'value graph of %s differs from the specification: %s\n  at %s\n  code: %s\n  spec: %s' % (
                site, r[0], evalr.valuation(r[1]), show(x)[:900], show(y)[:900]))

    def never(self, name, cond, pre=(), dom=None, site='', key=None, tries=None):
        """the condition is unreachable under pre"""
        pre = tuple(pre)
        if not self.pace():
            self.add(name, 'undecided', site, 'no time left')
            return None
        c = dsimp(cond, pre)
        if c is FALSE or decide(c, pre) is False or c.op == 'and' and contradictory(pre + c.a):
            self.add(name, 'proved', site)
            return True
        try:
            if prove_eq(c, FALSE, pre, self.depth):
                self.add(name, 'proved', site)
                return True
        except RecursionError:
            pass
        v = evalr.holds(c, pre, dom, tries or self.tries, self.seed)
        if v is None:
            self.add(name, 'undecided', site, 'not refuted: %s' % show(c)[:300])
            return None
        self.add(name, 'violated', site, 'reachable in %s: %s\n  at %s' % (site, show(c)[:900], evalr.valuation(v)), key)
        return False

    def image_eq(self, name, img, W, H, C, A, f, pre=(), dom=None, site='', key=None):
        """img is a W x H x C image (alpha A) with channel f(x, y, c) at (x, y, c)"""
        ok = True
        info = field(img, 0)
        for i, (n, want) in enumerate((('width', W), ('height', H), ('channels', C), ('alpha', A))):
            ok = self.eq('%s.%s' % (name, n), field(info, i), want, pre, dom, site, key=key and key + '.' + n) and ok
        d = field(img, 1)
        ok = self.eq(name + '.len', length(d), mul(W, H, C), pre, dom, site) and ok
        if C.op == 'num' and 1 < C.a[0] <= 4:
            for c in range(C.a[0]):
                by, bx = (ZERO if n is ONE else fresh_bv(n) for n in (H, W))
                fr = tuple((b, n) for b, n in ((by, H), (bx, W)) if b is not ZERO)
                facts = tuple(pre) + tuple(q for b, n in fr for q in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
                i = add(mul(add(mul(by, W), bx), C), num(c))
                ok = self.eq('%s.pixels[channel %d]' % (name, c), elem(d, i, facts), f(bx, by, num(c)), pre, dom, site, fr, key) and ok
            return ok
        by, bx, bc = (ZERO if n is ONE else fresh_bv(n) for n in (H, W, C))
        i = add(mul(add(mul(by, W), bx), C), bc)
        fr = tuple((b, n) for b, n in ((by, H), (bx, W), (bc, C)) if b is not ZERO)
        facts = tuple(pre) + tuple(c for b, n in fr for c in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
        code = elem(d, i, facts)
        ok = self.eq(name + '.pixels', code, f(bx, by, bc), pre, dom, site, fr, key) and ok
        return ok

    def events(self, name, H, kinds=None, pre=(), dom=None, skip=(), key=None):
        """no failure event of the run is reachable"""
        for e in H.I.events:
            if kinds is not None and not any(e.kind.startswith(k) for k in kinds):
                continue
            if e.kind.rstrip('?') in skip:
                continue
            self.sites += 1
            self.never('%s: %s in %s' % (name, e.kind, short(e.site[0])), e.formula(), pre, dom, short(e.site[0]),
                       key=key or '%s:%s:%s' % (name, e.kind, short(e.site[0])))

    def guard(self, name, fn):
        """runs one group of obligations; engine failures leave it undecided"""
        try:
            fn()
        except Missing as e:
            self.add(name, 'undecided', '', 'anchor missing: %s' % e)
        except (Stuck, RecursionError, AssertionError, AttributeError, KeyError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.add(name, 'undecided', '', 'analysis gave up: %s: %s @ %s' % (type(e).__name__, str(e)[:200], '; '.join('%s:%d' % (f.name, f.lineno) for f in tb[-3:])))

    def finish(self, level, rule, extra=None):
        n = {}
        for o in self.obl:
            n[o['status']] = n.get(o['status'], 0) + 1
        dec = n.get('proved', 0) + n.get('holds', 0)
        cov = {
            'explanation': rule,
            'obligations': len(self.obl),
            'discharged': dec,
            'by_status': n,
            'functions_analysed': sorted(short(x) for x in self.analysed),
            'rule': rule,
            'samples': self.obl[:6],
            'open': [o for o in self.obl if o['status'] not in ('proved', 'holds')][:40],
            'checker_cmd': 'python3 sa/run.py %s' % self.pid,
            'trusted_base': ['rustc type checking and MIR construction', 'sa/terms.py (term algebra)', 'sa/interp.py and sa/models.py (MIR and std semantics)'],
        }
        cov.update(self.stats)
        if extra:
            cov.update(extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, f in sorted(set((k, f) for k, f in self.known_hits)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f))
        for o in self.obl:
            if o['status'] == 'undecided':
                print('undecided: %s (%s) %s' % (o['obligation'], o['site'], o.get('detail', '')[:160].replace('\n', ' ')))
        if os.environ.get('SA_DEBUG'):
            print('fuel left', self.fuel)
        print('%s: %d obligations, %d discharged, %s, %.1fs' % (self.pid, len(self.obl), dec, n, time.time() - self.t0))
        if self.viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                for v in self.viol:
                    f.write('%s\n%s\n%s\n\n' % (v['obligation'], v['site'], v['detail']))
            for v in self.viol[:12]:
                print('  violated: %s [%s]\n    %s' % (v['obligation'], v['site'], v['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def short(k):
    return str(k).replace('crate::', '')


def load_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p)).get('findings', []):
        if e['property'] == pid:
            out[e['key']] = e['what']
    return out


# ------------------------------------------------------------------ shared helpers of the property modules
PANIC = ('bounds', 'panic', 'assert', 'unwrap', 'copylen', 'chunk0', 'step0', 'clamp', 'hang', 'underflow', 'overflow')


def panics(H, extra=()):
    return [e for e in H.I.events if e.kind.rstrip('?').split(':')[0] in PANIC + tuple(extra)]


def returns(H):
    """condition under which the analysed call returns normally"""
    return mk_and(*(list(H.st.path) + [mk_not(e.formula()) for e in panics(H)]))


def inr(x, n):
    return le0i(sub(add(x, ONE), n))


def clampi(v, n):
    return t_.mk_max(ZERO, t_.mk_min(v, sub(n, ONE)))


def img_parts(v):
    i = field(v, 0)
    return field(i, 0), field(i, 1), field(i, 2), field(i, 3), field(v, 1)


def px(W, C, x, y, c):
    return add(mul(add(mul(y, W), x), C), c)


def is_err(r):
    return mk_not(mk_eq(t_.discr(r), ZERO))


def unwrap(r):
    """value of an Ok/Some result"""
    return field(r, 0, 0)


def cfgs(ctx):
    return ['none', 'simdpar'] if ctx.tier == 'quick' else ['none', 'simd', 'par', 'simdpar']


def each(ctx, f, names, cfglist=None):
    """once per configuration, skipping configurations where every named function is the same code"""
    seen = set()
    for cfg in cfglist or cfgs(ctx):
        w = ctx.world(cfg)
        hs = []
        for n in names:
            try:
                hs.append(reach_hash(w, find(w, n)))
            except Missing:
                hs.append(n)
        k = tuple(hs)
        if k in seen:
            ctx.stats['configurations_identical'] = ctx.stats.get('configurations_identical', 0) + 1
            continue
        seen.add(k)
        f(cfg)


def reach_hash(w, key):
    c = getattr(w, '_rh', None)
    if c is None:
        c = w._rh = {}
    if key in c:
        return c[key]
    seen = set()
    st = [key]
    hs = []
    while st:
        k = st.pop()
        if k in seen or k not in w.bodies:
            continue
        seen.add(k)
        b = w.bodies[k]
        s = json.dumps(b['blocks'], sort_keys=True)
        hs.append(k + hashlib.md5(s.encode()).hexdigest())
        for m in t_callees(b):
            st.append(m)
    hs.sort()
    c[key] = hashlib.md5('|'.join(hs).encode()).hexdigest()
    return c[key]


_callees = {}


def t_callees(b):
    r = _callees.get(id(b))
    if r is not None:
        return r
    r = set()

    def go(x):
        if isinstance(x, dict):
            if 'fn' in x and isinstance(x['fn'], dict):
                f = x['fn']
                r.add(f['path'])
                if f.get('res'):
                    r.add(f['res']['path'])
                if f.get('from'):
                    r.add(f['from']['path'])
            if x.get('k') == 'closure' and 'n' in x:
                r.add(x['n'])
            if x.get('uneval'):
                u = x['uneval']
                r.add(u['path'])
                if u.get('promoted') is not None:
                    r.add('%s#promoted%d' % (u['path'], u['promoted']))
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(b['blocks'])
    go(b['locals'])
    _callees[id(b)] = r
    return r


def spec_image(W, H, C, A, f):
    """image value with channel f(x, y, c)"""
    by, bx, bc = fresh_bv(H), fresh_bv(W), fresh_bv(C)
    d = mk_flatgen(by, H, mk_flatgen(bx, W, mk_gen(bc, C, f(bx, by, bc))))
    return agg(IMAGE, 0, agg(INFO, 0, W, H, C, A), d)


def enum(w, name, variant):
    """value of a fieldless enum of the crate by variant name"""
    for n, a in w.adts.items():
        if n.split('::')[-1] == name:
            for i, v in enumerate(a['variants']):
                if v['name'] == variant:
                    return agg(n, i)
    raise Missing('enum %s::%s' % (name, variant))
