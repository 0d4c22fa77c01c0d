"""Value-graph construction: every MIR body becomes gated, loop-closed terms.

No path enumeration and no execution: states are merged at every join with
gated (if-then-else) values, loops are closed once by recurrence solving, and
callees are inlined as graphs.
"""
import re
import sys
from fractions import Fraction
import terms as t_
from terms import *
from terms import T, mk

sys.setrecursionlimit(200000)

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
RANGE = 'core::ops::range::Range'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'

LESS = agg(ORDERING, 0)
EQUAL = agg(ORDERING, 1)
GREATER = agg(ORDERING, 2)


class Stuck(Exception):
    pass


class Event:
    __slots__ = ('kind', 'guard', 'binders', 'site', 'info')

    def __init__(self, kind, guard, binders, site, info=None):
        self.kind, self.guard, self.binders, self.site, self.info = kind, guard, binders, site, info

    def formula(self):
        g = self.guard
        for b, n in reversed(self.binders):
            g = mk_exists(b, n, g)
        return g


class State:
    __slots__ = ('m', 'path')

    def __init__(self, m, path):
        self.m = m
        self.path = path

    def copy(self):
        return State(dict(self.m), self.path)


class Cfg:
    """loops, order and liveness-free structure of one body"""

    def __init__(self, body):
        self.body = body
        B = body['blocks']
        n = len(B)
        self.succ = [self.succs(b) for b in B]
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st += pred[x]
        # innermost loop header containing each block as direct child
        self.hdr = {}
        for b in order:
            best = None
            for h, bl in self.loops.items():
                if b in bl and (best is None or len(bl) < len(self.loops[best])):
                    best = h
            self.hdr[b] = best
        # a loop is only re-entered through the entry of a region: the "parent" of loop h
        self.parent = {}
        for h in self.loops:
            best = None
            for g, bl in self.loops.items():
                if g != h and h in bl and (best is None or len(bl) < len(self.loops[best])):
                    best = g
            self.parent[h] = best
        # locals mutated in each loop
        self.muts = {}
        for h, bl in self.loops.items():
            ms = set()
            for b in bl:
                for s in B[b]['st']:
                    if s['s'] in ('=', 'setd'):
                        ms.add(s['p'][0])
                    if s['s'] == '=' and s['rv']['r'] in ('ref', 'rawptr', 'reborrow') and s['rv'].get('mut'):
                        ms.add(s['rv']['p'][0])
                tm = B[b]['term']
                if tm['t'] == 'call':
                    ms.add(tm['d'][0])
            self.muts[h] = ms

    @staticmethod
    def succs(b):
        t = b['term']
        k = t['t']
        if k == 'goto':
            return [t['to']]
        if k == 'switch':
            return [x for _, x in t['v']] + ([t['else']] if t['else'] is not None else [])
        if k in ('call', 'assert', 'drop'):
            return [t['to']] if t.get('to') is not None else []
        return []

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.idom[b]:
                return False
            b = self.idom[b]


def is_never(ty):
    return ty.get('k') == 'never'


def mapite(v, f):
    if v.op == 'ite':
        return mk_ite(v.a[0], mapite(v.a[1], f), mapite(v.a[2], f))
    return f(v)


CALLS = tuple('core::ops::function::' + x for x in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'))


class Interp:
    unroll = 0
    MAXDEPTH = 40

    def __init__(self, world):
        self.w = world
        self.events = []
        self.nframe = 0
        self.unknown = {}
        self.notes = []
        self.inlined = set()
        self.cfgs = world.cfgs
        self.depth = 0
        self.loopinfo = {}
        self.nloops = 0
        self.nphi = 0
        self.opaque_loops = []
        self.mem = []
        self.curloops = []
        self.callcount = {}
        self.const_cache = {}
        self.symfn = {}
        self.overrides = {}
        self.override_hits = set()
        self.hooks = {}
        self.genv = [{}]
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ places
    def new_frame(self):
        self.nframe += 1
        return self.nframe

    def get(self, v, path):
        variant = None
        for e in path:
            if e[0] == 'f':
                if v.op != 'mref' or e[1] != 0:      # the pointer inside a box is the box
                    v = field(v, e[1], variant)
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                v = elem(v, e[1], self.facts)
            elif e[0] == 's':
                v = mk_slice(v, e[1], e[2])
            elif e[0] == 'k':
                if v.op != 'agg' or v.a[0] != 'map':
                    raise Stuck('get key')
                v = t_.map_at(v.a[3], e[1])
        return v

    def put(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == 'f':
            old = field(v, e[1])
            return set_field(v, e[1], self.put(old, path[1:], x))
        if e[0] == 'd':
            # field write under a known variant
            if len(path) > 1 and path[1][0] == 'f':
                i = path[1][1]
                old = field(v, i, e[1])
                nv = self.put(old, path[2:], x)

                def upd1(a):
                    if a.op == 'agg' and a.a[1] == e[1]:
                        return set_field(a, i, nv)
                    return a
                return mapite(v, upd1)
            return self.put(v, path[1:], x)
        if e[0] == 'i':
            if len(path) > 1:
                old = elem(v, e[1], self.facts)
                return upd(v, e[1], self.put(old, path[1:], x), self.facts)
            return upd(v, e[1], x, self.facts)
        if e[0] == 'k':
            if v.op == 'ite':
                return mk_ite(v.a[0], self.put(v.a[1], path, x), self.put(v.a[2], path, x))
            if len(path) > 1 or v.op != 'agg' or v.a[0] != 'map':
                raise Stuck('put key')
            val = v.a[3]
            old = t_.map_at(val, e[1])
            if old.op == 'mapat':
                x = t_.subst_vars(x, {old: val})
            return mk('agg', 'map', v.a[1], v.a[2], mk_ite(mk_eq(t_.KEY, e[1]), x, val))
        if e[0] == 's':
            if len(path) == 1:
                return updr(v, e[1], x)
            old = mk_slice(v, e[1], e[2])
            return updr(v, e[1], self.put(old, path[1:], x))
        raise Stuck('put')

    def ext(self, path, e):
        if path and path[-1][0] == 's':
            st = path[-1][1]
            if e[0] == 'i':
                return path[:-1] + (('i', add(st, e[1])),)
            if e[0] == 's':
                return path[:-1] + (('s', add(st, e[1]), e[2]),)
        return path + (e,)

    def rd(self, st, loc):
        v = st.m.get((loc[0], loc[1]))
        if v is None:
            return mk('undef', 'uninit')
        return self.get(v, loc[2])

    def wr(self, st, loc, x):
        k = (loc[0], loc[1])
        if not loc[2]:
            st.m[k] = x
            return
        v = st.m.get(k)
        if v is None:
            v = mk('undef', 'uninit')
        st.m[k] = self.put(v, loc[2], x)

    def locs_of(self, v):
        """locations denoted by a pointer value: list of (cond, loc)"""
        if v.op == 'mref':
            return [(TRUE, (v.a[0], v.a[1], v.a[2]))]
        if v.op == 'ite':
            a = self.locs_of(v.a[1])
            b = self.locs_of(v.a[2])
            if a is None or b is None:
                return None
            nc = mk_not(v.a[0])
            return [(mk_and(v.a[0], c), l) for c, l in a] + [(mk_and(nc, c), l) for c, l in b]
        return None

    def resolve(self, st, fid, place):
        cur = [(TRUE, (fid, place[0], ()))]
        for p in place[1]:
            if p == '*':
                nxt = []
                for c, l in cur:
                    v = self.rd(st, l)
                    ls = self.locs_of(v)
                    if ls is None:
                        nxt.append((c, l))
                    else:
                        for c2, l2 in ls:
                            nxt.append((mk_and(c, c2), l2))
                cur = nxt
                continue
            if 'f' in p:
                e = ('f', p['f'])
            elif 'd' in p:
                e = ('d', p['d'])
            elif 'i' in p:
                e = ('i', self.rd(st, (fid, p['i'], ())))
            elif 'ci' in p:
                if p.get('end'):
                    e = ('iend', p['ci'])
                else:
                    e = ('i', num(p['ci']))
            elif 'sub' in p:
                e = ('sub', p['sub'][0], p['sub'][1], p.get('end'))
            else:
                raise Stuck('proj %r' % (p,))
            nxt = []
            for c, l in cur:
                ee = e
                if e[0] == 'iend':
                    ee = ('i', sub(length(self.rd(st, l)), num(e[1])))
                elif e[0] == 'sub':
                    n = length(self.rd(st, l))
                    lo = num(e[1])
                    hi = sub(n, num(e[2])) if e[3] else num(e[2])
                    ee = ('s', lo, sub(hi, lo))
                nxt.append((c, (l[0], l[1], self.ext(l[2], ee))))
            cur = nxt
        return cur

    def read_place(self, st, fid, place):
        ls = self.resolve(st, fid, place)
        v = self.rd(st, ls[-1][1])
        for c, l in reversed(ls[:-1]):
            v = mk_ite(c, self.rd(st, l), v)
        return v

    def write_locs(self, st, ls, x):
        if len(ls) == 1:
            self.wr(st, ls[0][1], x)
            return
        for c, l in ls:
            old = self.rd(st, l)
            self.wr(st, l, mk_ite(c, x, old))

    def snapshot(self, st, v, depth=0):
        """value behind (nested) pointers"""
        while True:
            ls = self.locs_of(v)
            if ls is None:
                return v
            w = self.rd(st, ls[-1][1])
            for c, l in reversed(ls[:-1]):
                w = mk_ite(c, self.rd(st, l), w)
            v = w

    # ------------------------------------------------------------ types
    def place_ty(self, body, place):
        ty = body['locals'][place[0]]
        for p in place[1]:
            if p == '*':
                ty = ty.get('t') or (ty.get('a') or [{'k': '?'}])[0]
            elif 'f' in p:
                ty = p['t']
            elif 'd' in p:
                pass
            elif 'i' in p or 'ci' in p:
                ty = ty.get('t') or {'k': '?'}
            elif 'sub' in p:
                if ty.get('k') == 'array':
                    ty = {'k': 'slice', 't': ty['t']}
        return ty

    def op_ty(self, body, o):
        if 'p' in o:
            return self.place_ty(body, o['p'])
        return o['c']['ty']

    # ------------------------------------------------------------ constants
    def const(self, c, st=None):
        if 'fn' in c:
            return mk('fnptr', FnRec.get(c['fn']))
        u = c.get('uneval')
        if u and u.get('promoted') is not None:
            key = '%s#promoted%d' % (u['path'], u['promoted'])
            if key in self.w.bodies:
                v = self.const_cache.get(key)
                if v is None:
                    v = self.eval_closed(key)
                    self.const_cache[key] = v
                return v
        if c.get('val') is None:
            if u and u['path'] in self.w.globals:
                g = self.w.globals[u['path']]
                if g.get('v') and g['v'].get('val') is not None:
                    return self.cval(g['v']['val'], g['v']['ty'])
            if u and u['path'] in self.w.bodies:
                return self.eval_closed(u['path'])
            if c['ty'].get('k') in ('tuple',) and not c['ty'].get('a'):
                return UNIT
            return mk('opaque', 'const:%s' % (u['path'] if u else c.get('ty')))
        return self.cval(c['val'], c['ty'])

    def eval_closed(self, key):
        st = State({}, ())
        r = self.inline(key, [], st)
        return r

    def cval(self, v, ty):
        if 'bool' in v:
            return TRUE if v['bool'] else FALSE
        if 'int' in v:
            return num(int(v['int']))
        for k in ('f32', 'f64'):
            if k in v:
                s = v[k]
                if s in ('inf', '-inf', 'NaN', 'nan'):
                    return mk('fn', 'const_' + s)
                return num(Fraction(s))
        if 'char' in v:
            x = v['char']
            return num(ord(x)) if isinstance(x, str) and len(x) == 1 else mk('str', str(x))
        if 'str' in v:
            return mk('str', v['str'])
        if 'arr' in v:
            return mk('lit', *[self.cval(x, None) for x in v['arr']])
        if 'tup' in v:
            return tup(*[self.cval(x, None) for x in v['tup']])
        if 'adt' in v:
            return agg(v['adt'], v.get('variant', 0), *[self.cval(x, None) for x in v.get('fields', [])])
        if 'ref' in v:
            return self.cval(v['ref'], None)
        if 'zst' in v:
            if ty and ty.get('k') == 'adt':
                return agg(ty['n'], 0)
            if ty and ty.get('k') == 'closure':
                return mk('clo', ty['n'])
            return UNIT
        if 'static' in v:
            g = self.w.globals.get(v['static'])
            if g and g.get('v') and g['v'].get('val') is not None and g['v'].get('freeze', True):
                return self.cval(g['v']['val'], g['v']['ty'])
            return mk('opaque', 'static:%s' % v['static'])
        return mk('opaque', 'constval')

    def operand(self, st, fid, o):
        if 'p' in o:
            return self.read_place(st, fid, o['p'])
        return self.const(o['c'])

    # ------------------------------------------------------------ events
    @property
    def facts(self):
        return self._facts

    _facts = ()

    def event(self, st, kind, cond, site, info=None):
        """cond: the violated condition"""
        if cond is FALSE:
            return
        d = decide(cond, st.path)
        if d is False:
            return
        g = mk_and(*(list(st.path) + [cond]))
        if g is FALSE:
            return
        self.events.append(Event(kind, g, [], site, info))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, body, rv, site, dty=None):
        r = rv['r']
        if r == 'use':
            return self.operand(st, fid, rv['o'])
        if r in ('ref', 'reborrow', 'rawptr'):
            if rv.get('mut'):
                ls = self.resolve(st, fid, rv['p'])
                # a pointer value reborrowed whole
                v = None
                for c, l in reversed(ls):
                    cur = self.rd(st, l)
                    m = mk('mref', l[0], l[1], l[2])
                    if cur.op == 'ptr':
                        m = m
                    v = m if v is None else mk('ite', c, m, v) if not (c.op == 'bool') else m
                return v
            return self.read_place(st, fid, rv['p'])
        if r == 'repeat':
            v = self.operand(st, fid, rv['o'])
            n = rv['n'] if 'n' in rv else rv.get('c')
            try:
                n = num(int(n))
            except Exception:
                n = self.const(n) if isinstance(n, dict) else mk('opaque', 'len')
            if n.op == 'num' and n.a[0] <= 64:
                return mk('lit', *([v] * n.a[0]))
            return mk_fill(v, n)
        if r == 'cast':
            return self.cast(rv['k'], self.operand(st, fid, rv['o']), self.op_ty(body, rv['o']), rv['t'], st, site)
        if r == 'bin':
            a = self.operand(st, fid, rv['a'])
            b = self.operand(st, fid, rv['b'])
            return self.binop(rv['op'], a, b, self.op_ty(body, rv['a']), st, site)
        if r == 'un':
            v = self.operand(st, fid, rv['o'])
            if rv['op'] == 'Neg':
                return neg(v)
            if rv['op'] == 'Not':
                if is_boolean(v):
                    return mk_not(v)
                ty = self.op_ty(body, rv['o'])
                if ty.get('k') == 'int':
                    lo, hi = MACH[ty['n']]
                    return sub(num(hi + lo), v)
                return mk('opaque', 'not', v)
            if rv['op'] == 'PtrMetadata':
                return length(self.snapshot(st, v))
            return mk('opaque', 'un:' + rv['op'], v)
        if r == 'len':
            return length(self.snapshot(st, self.read_place(st, fid, rv['p'])))
        if r == 'discr':
            v = self.read_place(st, fid, rv['p'])
            return self.discr_of(v, self.place_ty(body, rv['p']))
        if r == 'agg':
            k = rv['kind']
            fs = [self.operand(st, fid, o) for o in rv['f']]
            if k['k'] == 'array':
                return mk('lit', *fs)
            if k['k'] == 'tuple':
                return tup(*fs)
            if k['k'] == 'adt':
                return agg(k['n'], k.get('v', 0), *fs)
            if k['k'] == 'closure':
                return mk('clo', k['n'], *fs)
            return mk('opaque', 'agg', *fs)
        if r == 'other':
            m = re.search(r'SizeOf|AlignOf|NullOp', str(rv))
            return mk('opaque', 'rv:other')
        raise Stuck('rvalue ' + r)

    def discr_of(self, v, ty):
        n = ty.get('n') if ty.get('k') == 'adt' else None
        v2 = v
        d = discr(v2)
        if n == ORDERING:
            return sub(d, ONE)
        a = self.w.adts.get(n) if n else None
        if a and a['kind'] == 'enum':
            ds = [x['discr'] for x in a['variants']]
            if ds != list(range(len(ds))):
                r = num(int(ds[-1]))
                for i, x in reversed(list(enumerate(ds[:-1]))):
                    r = mk_ite(eq0(sub(d, num(i))), num(int(x)), r)
                return r
        return d

    def cast(self, kind, v, fty, tty, st, site):
        if kind in ('IntToInt',):
            if tty.get('k') != 'int':
                return v
            to = tty['n']
            if fty.get('k') == 'bool' or is_boolean(v):
                return mk_ite(v, ONE, ZERO)
            if fty.get('k') == 'adt':
                v = self.discr_of(v, fty)
            if v.op == 'undef':
                return v
            if to in ('u8', 'i8', 'u16', 'i16'):
                return mk_wrap(to, v)
            if fty.get('k') == 'int' and fty['n'].startswith('i') and to.startswith('u'):
                self.event(st, 'signcast', lt(v, ZERO, True), site)
            return v
        if kind == 'IntToFloat':
            return v
        if kind == 'FloatToInt':
            return mk_sat(tty['n'], v) if tty.get('k') == 'int' else v
        if kind == 'FloatToFloat':
            return v
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute'):
            return v
        return mk('opaque', 'cast:' + kind, v)

    def binop(self, op, a, b, ty, st, site):
        isf = ty.get('k') == 'float'
        if ty.get('k') == 'param' or ty.get('k') not in ('int', 'float', 'bool', 'char', 'rawptr', 'ptr'):
            isf = not (is_int(a) and is_int(b)) if ty.get('k') != 'bool' else False
        isint = not isf
        a = self.snapshot(st, a)
        b = self.snapshot(st, b)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if is_boolean(a) and is_boolean(b):
                if op == 'Eq':
                    return mk_eq(a, b)
                if op == 'Ne':
                    return mk_not(mk_eq(a, b))
                a, b = mk_ite(a, ONE, ZERO), mk_ite(b, ONE, ZERO)
            if op == 'Lt':
                return lt(a, b, isint)
            if op == 'Le':
                return le(a, b, isint)
            if op == 'Gt':
                return lt(b, a, isint)
            if op == 'Ge':
                return le(b, a, isint)
            if op == 'Eq':
                return mk_eq(a, b)
            return mk_not(mk_eq(a, b))
        n = ty.get('n') if ty.get('k') == 'int' else None
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if is_boolean(a) and is_boolean(b):
                return {'BitAnd': mk_and(a, b), 'BitOr': mk_or(a, b), 'BitXor': mk_not(mk_eq(a, b))}[op]
            if a.op == 'num' and b.op != 'num':
                a, b = b, a
            if op == 'BitOr' and b.op == 'num' and isinstance(b.a[0], int) and b.a[0] > 0 and (b.a[0] & (b.a[0] + 1)) == 0 and rng(a)[0] >= 0:
                m = num(b.a[0] + 1)
                return add(mul(mk_idiv(a, m, self.facts), m), b)
            if op == 'BitAnd' and b.op == 'num' and isinstance(b.a[0], int) and (b.a[0] & (b.a[0] + 1)) == 0 and rng(a)[0] >= 0:
                return mk_mod(a, num(b.a[0] + 1), self.facts)
            if a.op == 'num' and b.op == 'num':
                x, y = a.a[0], b.a[0]
                return num({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
            return mk('bits', op, a, b)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if b.op == 'num' and 0 <= b.a[0] < 64:
                if op.startswith('Shl'):
                    r = scale(a, 2 ** b.a[0])
                    return mk_wrap(n, r) if n in ('u8', 'u16', 'i16', 'i8') else r
                if rng(a)[0] >= 0:
                    return mk_idiv(a, num(2 ** b.a[0]), self.facts)
                return mk_round('floor', scale(a, Fraction(1, 2 ** b.a[0])))
            return mk('bits', op, a, b)
        if op.startswith('Add') or op.startswith('Sub') or op.startswith('Mul'):
            f = {'Add': add, 'Sub': sub, 'Mul': mul}[op[:3]]
            r = f(a, b)
            if op.endswith('WithOverflow'):
                return tup(r, FALSE)
            if n:
                r = self.int_result(r, n, st, site, op[:3])
            return r
        if op == 'Div':
            if isf:
                return div(a, b)
            return mk_idiv(a, b, self.facts)
        if op == 'Rem':
            return mk_mod(a, b, self.facts) if isint else mk_fmod(a, b)
        if op == 'Offset':
            return self.ptr_offset(a, b)
        return mk('opaque', 'bin:' + op, a, b)

    def int_result(self, r, n, st, site, op):
        if r.op == 'num' and MACH[n][0] <= r.a[0] <= MACH[n][1]:
            return r
        lo, hi = rng(r)
        if n in ('u8', 'u16', 'i8', 'i16'):
            L, H = MACH[n]
            if lo < L or hi > H:
                self.event(st, 'overflow', mk_or(lt(r, num(L), True), lt(num(H), r, True)), site)
                if prove_le0(sub(num(L), r), st.path) and prove_le0(sub(r, num(H)), st.path):
                    return r
                return mk_wrap(n, r)
        elif n.startswith('u') and op == 'Sub' and lo < 0:
            self.event(st, 'underflow', lt(r, ZERO, True), site)
        elif n == 'i32' and op == 'Mul' and False:
            pass
        return r

    def ptr_offset(self, p, off):
        if p.op == 'ptr':
            return mk('ptr', p.a[0], add(p.a[1], off))
        return mk('opaque', 'ptroff', p, off)

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if len(states) == 1:
            return states[0]
        # decision tree on the paths
        return self._merge(states)

    def _merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        if len(sts) > 2:
            # split on the first literal after the common prefix
            n = min(len(s.path) for s in sts)
            i = 0
            while i < n and all(s.path[i] is sts[0].path[i] for s in sts):
                i += 1
            if i < n:
                lit = sts[0].path[i]
                g1 = [s for s in sts if s.path[i] is lit]
                g2 = [s for s in sts if s.path[i] is not lit]
                if g1 and g2:
                    return self._merge([self._merge(g1), self._merge(g2)])
            return self._merge([self._merge(sts[:2])] + sts[2:])
        a, b = sts
        i = 0
        pa, pb = a.path, b.path
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        sa, sb = pa[i:], pb[i:]
        prefix = pa[:i]
        ca = mk_and(*sa)
        cb = mk_and(*sb)
        if ca is FALSE:
            return b
        if cb is FALSE:
            return a
        both = mk_or(ca, cb)
        path = prefix
        if both is not TRUE:
            # mutually exclusive and exhaustive?
            if mk_not(ca) is not cb:
                path = prefix + (both,)
        # factor the deciding condition
        c = None
        if sa and sb and mk_not(sa[0]) is sb[0]:
            c = sa[0]
        if c is None:
            c = ca if len(sa) <= len(sb) else mk_not(cb)
        if c is TRUE:
            c = mk_not(cb)
        m = {}
        am, bm = a.m, b.m
        for k, v in am.items():
            w = bm.get(k)
            if w is None:
                continue
            m[k] = v if v is w else mk_ite(c, v, w)
        return State(m, path)

    # ------------------------------------------------------------ regions
    def run_body(self, key, fid, st):
        body = self.w.bodies[key]
        cfg = self.cfgs.get(key)
        if cfg is None:
            cfg = self.cfgs[key] = Cfg(body)
        latches, exits = self.run_region(key, body, cfg, fid, None, 0, st)
        rets = [s for t, s in exits if t == 'ret']
        if not rets:
            return None
        return self.merge(rets)

    def run_region(self, key, body, cfg, fid, loop, entry, st):
        """runs the blocks of loop (None: the whole body) once from entry.
        returns (latch states, [(target, state)])"""
        blocks = cfg.loops[loop] if loop is not None else None
        pending = {entry: [st]}
        latches, exits = [], []
        rpo = cfg.rpo
        import heapq
        heap = [(rpo[entry], entry)]
        inheap = {entry}
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = pending.pop(b, None)
            if not states:
                continue
            s = self.merge(states)
            if b in cfg.loops and not (first and b == loop):
                outs = self.run_loop(key, body, cfg, fid, b, s)
            else:
                outs = self.run_block(key, body, fid, b, s)
            first = False
            for tgt, s2 in outs:
                if tgt == 'ret':
                    exits.append((tgt, s2))
                elif tgt == loop:
                    latches.append(s2)
                elif blocks is not None and tgt not in blocks:
                    exits.append((tgt, s2))
                else:
                    pending.setdefault(tgt, []).append(s2)
                    if tgt not in inheap:
                        inheap.add(tgt)
                        heapq.heappush(heap, (rpo[tgt], tgt))
        return latches, exits

    def run_block(self, key, body, fid, b, st):
        blk = body['blocks'][b]
        self._facts = st.path
        for s in blk['st']:
            k = s['s']
            if k == '=':
                site = (key, s.get('l'))
                rv = s['rv']
                v = self.rvalue(st, fid, body, rv, site)
                if not s['p'][1]:
                    st.m[(fid, s['p'][0])] = v
                else:
                    self.write_locs(st, self.resolve(st, fid, s['p']), v)
            elif k == 'dead':
                st.m.pop((fid, s['v']), None)
            elif k == 'setd':
                ls = self.resolve(st, fid, s['p'])
                old = self.rd(st, ls[0][1])
                if old.op == 'agg':
                    self.write_locs(st, ls, mk('agg', old.a[0], s['v'], *old.a[2:]))
        tm = blk['term']
        k = tm['t']
        site = (key, tm.get('l'))
        if k == 'goto':
            return [(tm['to'], st)]
        if k == 'ret':
            return [('ret', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'drop':
            return [(tm['to'], st)]
        if k == 'assert' and tm['m'].startswith(('Misaligned', 'NullPointer')):
            return [(tm['to'], st)]      # debug checks of the compiler around vec![]
        if k == 'assert':
            c = self.operand(st, fid, tm['c'])
            bad = mk_not(c) if tm['e'] else c
            self.event(st, 'assert:' + tm['m'].split('(')[0].split('{')[0].strip(), bad, site, tm['m'])
            if bad is TRUE:
                return []
            return [(tm['to'], st)]
        if k == 'switch':
            return self.switch(st, fid, body, tm)
        if k == 'call':
            return self.call(key, st, fid, body, tm, site)
        raise Stuck('terminator ' + k)

    def switch(self, st, fid, body, tm):
        d = self.operand(st, fid, tm['d'])
        outs = []
        rest = st.path
        cases = []
        sn = tm['ty'].get('n') if tm['ty'].get('k') == 'int' else None
        for val, bb in tm['v']:
            if is_boolean(d):
                c = mk_not(d) if int(val) == 0 else d
            else:
                val = int(val)
                if sn and sn[0] == 'i':
                    # the values are bit patterns
                    w = 64 if sn == 'isize' else int(sn[1:])
                    if val >= 1 << (w - 1):
                        val -= 1 << w
                c = mk_eq(d, num(val))
            cases.append((c, bb))
        els = tm['else']
        elsedead = els is None or body['blocks'][els]['term']['t'] == 'unreachable'
        path = st.path
        live = True
        n = len(cases)
        res = []
        for i, (c, bb) in enumerate(cases):
            dec = decide(c, path)
            if elsedead and i == n - 1 and dec is None:
                dec = True
            if dec is False:
                continue
            if dec is True:
                res.append((path, bb))
                live = False
                break
            res.append((path + (c,), bb))
            path = path + (mk_not(c),)
        if live and not elsedead:
            res.append((path, els))
        for i, (p, bb) in enumerate(res):
            s2 = st if i == len(res) - 1 else st.copy()
            if s2 is st:
                s2 = State(st.m, p)
            else:
                s2.path = p
            outs.append((bb, s2))
        return outs

    # ------------------------------------------------------------ calls
    def call(self, key, st, fid, body, tm, site):
        args = [self.operand(st, fid, a) for a in tm['a']]
        f = tm['f']
        if 'c' in f and 'fn' in f['c']:
            rec = f['c']['fn']
        else:
            fv = self.operand(st, fid, f)
            r = self.call_value(fv, args, st, site, tm)
            if tm.get('to') is None:
                return []
            self.write_locs(st, self.resolve(st, fid, tm['d']), r)
            return [(tm['to'], st)]
        if tm.get('to') is None:
            self.event(st, 'panic', TRUE, site, rec['path'])
            return []
        r = self.apply(rec, args, tm.get('at'), tm.get('dt'), st, site)
        if r is None:
            return []          # the callee never returns on this path
        self._facts = st.path
        self.write_locs(st, self.resolve(st, fid, tm['d']), r)
        return [(tm['to'], st)]

    def target(self, rec):
        res = rec.get('res')
        if res and res['path'] in self.w.bodies:
            return res['path']
        if rec['path'] in self.w.bodies and not rec.get('trait'):
            return rec['path']
        return None

    def apply(self, rec, args, at, dt, st, site):
        tgt = self.target(rec)
        hk = self.hooks.get(tgt or rec['path'])
        if hk is not None:
            r = hk(self, rec, args, st, site)
            if r is not NotImplemented:
                return r
        if tgt is not None and rec['path'] in CALLS and len(args) == 2:
            # the arguments of a closure called by name come as a tuple
            if self.w.bodies[tgt]['argc'] != 2 or args[1].op == 'agg' and args[1].a[0] == 'tuple':
                n = self.w.bodies[tgt]['argc'] - 1
                args = [args[0]] + [field(args[1], i) for i in range(n)]
            if rec['path'].endswith('call_once') and self.w.bodies[tgt]['locals'][1].get('k') == 'ref':
                return self.call_value(args[0], args[1:], st, site)
        if tgt is not None:
            g = self.w.bodies[tgt].get('generics')
            if not g:
                return self.inline(tgt, args, st)
            ta = (rec.get('res') or rec).get('args') or rec.get('args') or []
            self.genv.append({n: self.gsub(t) for n, t in zip(g, ta)})
            try:
                return self.inline(tgt, args, st)
            finally:
                self.genv.pop()
        return self.models.call(rec, args, at, dt, st, site)

    def gsub(self, t):
        """a type with the type parameters of the calls in progress replaced"""
        if isinstance(t, dict):
            if t.get('k') == 'param':
                for g in (self.genv[-1],):
                    if t['n'] in g:
                        return g[t['n']]
                return t
            return {k: self.gsub(v) for k, v in t.items()}
        if isinstance(t, list):
            return [self.gsub(x) for x in t]
        return t

    def inline(self, key, args, st):
        ov = self.overrides.get(key)
        if ov is not None:
            self.override_hits.add(key)
            return ov(self, args, st)
        if self.depth > self.MAXDEPTH:
            self.notes.append('depth ' + key)
            return mk('opaque', 'deep:' + key, *args)
        self.inlined.add(key)
        self.callcount[key] = self.callcount.get(key, 0) + 1
        fid = self.new_frame()
        for i, a in enumerate(args):
            st.m[(fid, i + 1)] = a
        self.depth += 1
        try:
            inner = State(st.m, st.path)
            res = self.run_body(key, fid, inner)
        finally:
            self.depth -= 1
        if res is None:
            return None
        r = res.m.get((fid, 0), UNIT)
        # drop the frame, except locals a returned pointer still denotes
        m = {k: v for k, v in res.m.items() if k[0] != fid}
        st.m = m
        st.path = res.path
        self._facts = st.path
        return r

    def call_value(self, f, args, st, site, tm=None):
        """call a callable value; args already a list"""
        f = self.snapshot(st, f)
        if f.op == 'clo':
            b = self.w.bodies.get(f.a[0])
            if b is None:
                return mk('opaque', 'clo?', *args)
            # closure environment: kept in a cell when it is mutated in place (FnMut)
            envfid = self.new_frame()
            st.m[(envfid, 1)] = f
            ety = b['locals'][1]
            env = mk('mref', envfid, 1, ()) if ety.get('k') == 'ref' and ety.get('mut') else f
            r = self.inline(f.a[0], [env] + list(args), st)
            self._last_env = st.m.pop((envfid, 1), None)
            return r
        if f.op == 'fnptr':
            rec = f.a[0].rec
            return self.apply(rec, args, None, None, st, site)
        if f.op == 'ite':
            # both callables, merged
            s1 = State(dict(st.m), st.path + (f.a[0],))
            s2 = State(dict(st.m), st.path + (mk_not(f.a[0]),))
            r1 = self.call_value(f.a[1], args, s1, site)
            r2 = self.call_value(f.a[2], args, s2, site)
            fid = self.new_frame()
            s1.m[(fid, 0)] = r1
            s2.m[(fid, 0)] = r2
            s = self.merge([s1, s2])
            st.m, st.path = s.m, s.path
            return st.m.pop((fid, 0))
        if f.op == 'var' and f in self.symfn:
            return self.symfn[f](self, args, st, site)
        self.notes.append('call of %s' % f.op)
        return mk('opaque', 'callv', f, *[self.snapshot(st, a) for a in args])

    # ------------------------------------------------------------ loops
    def phi_for(self, v, ty, keep, spec, name, path=()):
        """returns (header value, [(leafpath, phi, init)]) for the leaves of v listed in spec"""
        if spec is None:
            return v, []
        if spec is True or () in spec:
            kind = self.leaf_kind(v, ty)
            self.nphi += 1
            if kind.startswith('seq:') and not (spec is not True and ('nolen',) in spec):
                p = mk('phi', 'p%d' % self.nphi, 0, kind, length(v))
            else:
                p = mk('phi', 'p%d' % self.nphi, 0, kind)
            return p, [((), p, v)]
        leaves = []
        if v.op in ('agg', 'clo', 'lit', 'iter'):
            base = 2 if v.op == 'agg' else 1 if v.op == 'clo' else 0
            a = list(v.a)
            for i in range(base, len(a)):
                sub_ = {q[1:] for q in spec if q and q[0] == i}
                if not sub_ or sub_ == {('nolen',)}:
                    continue
                nv, ls = self.phi_for(a[i], self.field_ty(v, ty, i), keep, sub_, name)
                a[i] = nv
                leaves += [((i,) + q, p, x) for q, p, x in ls]
            return mk(v.op, *a), leaves
        raise Stuck('phi')

    def field_ty(self, v, ty, i):
        while ty is not None and ty.get('k') == 'ref':
            ty = ty['t']
        if ty is None:
            return None
        if v.op == 'agg' and v.a[0] == 'map':
            return ty['a'][1] if i == 3 and len(ty.get('a') or ()) > 1 else None
        if ty.get('k') == 'adt' and v.op == 'agg':
            a = self.w.adts.get(ty['n'])
            if a and a.get('ftys') and len(a['ftys']) > v.a[1]:
                fs = a['ftys'][v.a[1]]
                if i - 2 < len(fs):
                    return self.ty_sub(fs[i - 2], dict(zip(a['params'], ty.get('a') or [])))
        if ty.get('k') == 'tuple' and v.op == 'agg' and i - 2 < len(ty.get('a', [])):
            return ty['a'][i - 2]
        return None

    def ty_sub(self, t, env):
        if not isinstance(t, dict):
            return t
        if t.get('k') == 'param':
            return env.get(t['n'], t)
        if isinstance(t.get('a'), list):
            t = dict(t)
            t['a'] = [self.ty_sub(x, env) for x in t['a']]
        if isinstance(t.get('t'), dict):
            t = dict(t)
            t['t'] = self.ty_sub(t['t'], env)
        return t

    def leaf_kind(self, v, ty):
        if ty is not None and ty.get('k') == 'int':
            return 'i64' if not ty['n'].startswith('u') else ty['n']
        if ty is not None and ty.get('k') == 'bool':
            return 'bool'
        if ty is not None and ty.get('k') == 'float':
            return 'real'
        if is_boolean(v):
            return 'bool'
        if is_numeric(v):
            return 'i64' if is_int(v) else 'real'
        if self.is_seq(v):
            e = seq_ety(v)
            while ty is not None and ty.get('k') == 'ref':
                ty = ty['t']
            if e in ('?', 'i64') and ty is not None:
                el = ty.get('t') if ty.get('k') in ('slice', 'array') else ty['a'][0] if ty.get('k') == 'adt' and ty['n'].endswith('::Vec') else None
                if el is not None:
                    e = el['n'] if el.get('k') == 'int' else 'real' if el.get('k') in ('float', 'param') else e
            return 'seq:' + str(e)
        return 'opaque'

    def is_seq(self, v):
        if v.op == 'ite':
            return self.is_seq(v.a[1]) or self.is_seq(v.a[2])
        if v.op == 'fold':
            return v.a[3][v.a[2]].a[2].startswith('seq:')
        return v.op in SEQOPS or v.op == 'sapp' or (v.op == 'phi' and v.a[2].startswith('seq:'))

    def diff(self, old, new, path=()):
        """leaf paths of old whose value differs in new"""
        if old is new:
            return []
        if old.op == new.op and old.op in ('agg', 'clo', 'iter') and len(old.a) == len(new.a):
            base = 2 if old.op == 'agg' else 1 if old.op == 'clo' else 0
            if old.a[:base] == new.a[:base]:
                out = []
                for i in range(base, len(old.a)):
                    if old.a[i] is not new.a[i]:
                        if not isinstance(old.a[i], T):
                            return [path]
                        if old.op == 'iter' and i == 0:
                            return [path]
                        out += self.diff(old.a[i], new.a[i], path + (i,))
                return out
        return [path]

    def getleaf(self, v, path):
        for i in path:
            if v.op not in ('agg', 'clo', 'iter', 'lit') or i >= len(v.a):
                return None
            v = v.a[i]
        return v

    def putleaf(self, v, path, x):
        if not path:
            return x
        a = list(v.a)
        a[path[0]] = self.putleaf(a[path[0]], path[1:], x)
        return mk(v.op, *a)

    def run_loop(self, key, body, cfg, fid, hdr, st):
        def once(s, info):
            return self.run_region(key, body, cfg, fid, hdr, hdr, s)
        muts = cfg.muts[hdr]
        tys = {}
        for l in range(len(body['locals'])):
            tys[(fid, l)] = body['locals'][l]
        # which iterator drives the header?
        it = self.header_iter(body, hdr, fid, st)
        if self.unroll and it is not None:
            v2 = self.models.as_iter(self.rd(st, it), st)
            if v2 is not None and v2.op == 'iter':
                n = sub(length(v2.a[0]), v2.a[1])
                top = n.a[0] if n.op == 'num' else rng(n)[1]
                if top <= (self.unroll if n.op == 'num' else 4):
                    # a few known rounds: one after the other
                    exits = []
                    cur = st
                    for _ in range(max(top, 0) + 1):
                        latches, ex = once(cur, None)
                        exits += ex
                        if not latches:
                            return exits
                        cur = self.merge(latches)
                    self.notes.append('unrolled loop goes on %s' % ((key, hdr),))
                    return exits
        exits = self.close_loop((key, hdr), once, st, it, tys, lambda k: ('L', k[1]) if k[0] == fid else None)
        return exits

    def header_iter(self, body, hdr, fid, st):
        """location of the iterator the loop header polls"""
        b = hdr
        seen = set()
        borrow = {}
        for _ in range(6):
            if b in seen:
                return None
            seen.add(b)
            blk = body['blocks'][b]
            for s in blk['st']:
                if s['s'] == '=' and s['rv']['r'] in ('ref', 'reborrow') and s['rv'].get('mut'):
                    p = s['rv']['p']
                    if p[1] == ['*'] and p[0] in borrow:
                        borrow[s['p'][0]] = borrow[p[0]]
                    else:
                        borrow[s['p'][0]] = p
            tm = blk['term']
            if tm['t'] == 'call':
                f = tm['f']
                if 'c' in f and 'fn' in f['c'] and f['c']['fn']['path'] == 'core::iter::traits::iterator::Iterator::next':
                    a = tm['a'][0]
                    if 'p' in a and not a['p'][1] and a['p'][0] in borrow:
                        ls = self.resolve(st, fid, borrow[a['p'][0]])
                        if len(ls) == 1:
                            return ls[0][1]
                return None
            if tm['t'] == 'goto':
                b = tm['to']
                continue
            return None
        return None

    def close_loop(self, lkey, once, st, itloc, tys, relkey):
        """closes a loop. once(state, None) runs one iteration from the header state."""
        p0 = st.path
        plen = len(p0)
        self.nloops += 1
        self.nphi += 1
        uid = self.nphi
        # ---- the driving iterator
        itv = None
        if itloc is not None:
            v = self.rd(st, itloc)
            v2 = self.models.as_iter(v, st)
            if v2 is not None and v2.op == 'iter':
                itv = v2
                self.wr(st, itloc, v2)
        if itv is not None:
            seq, pos0 = itv.a
            n = sub(length(seq), pos0)
            if pos0 is not ZERO or rng(n)[0] < 0:
                if not prove_le0(neg(n), p0):
                    n = mk_max(n, ZERO)
            k = fresh_bv(n)
        else:
            nvar = mk('var', 'trip%d' % uid, 'usize')
            k = fresh_bv(nvar)
            n = None
        more = mk('phi', 'more%d' % uid, 0, 'bool')
        self.more = getattr(self, 'more', {})
        spec = {kk: set(vv) for kk, vv in self.loopinfo.get(lkey, {}).items()}
        spec2 = {}
        for kk in st.m:
            rk = relkey(kk)
            if rk is not None and rk in spec:
                spec2[kk] = spec[rk]
        spec = spec2
        ev0 = len(self.events)
        mem0 = len(self.mem)
        op0 = len(self.opaque_loops)
        for attempt in range(12):
            del self.events[ev0:]
            del self.mem[mem0:]
            del self.opaque_loops[op0:]
            m = dict(st.m)
            leaves = []          # (key, leafpath, phi, init)
            ok = True
            for kk, sp in list(spec.items()):
                v = m.get(kk)
                if v is None:
                    continue
                sp2 = set()
                nl = set()
                for q in sp:
                    if q and q[-1] == 'nolen':
                        if self.getleaf(v, q[:-1]) is not None:
                            nl.add(q)
                        continue
                    if self.getleaf(v, q) is None:
                        # shape changed: coarsen to the longest valid prefix
                        while q and self.getleaf(v, q) is None:
                            q = q[:-1]
                    sp2.add(q)
                # drop paths having a prefix in the set
                sp2 = {q for q in sp2 if not any(q[:i] in sp2 for i in range(len(q)))}
                nv, ls = self.phi_for(v, tys.get(kk), True, sp2 | nl, None)
                m[kk] = nv
                leaves += [(kk, q, p, x) for q, p, x in ls]
            hs = State(m, p0)
            if itv is not None:
                self.wr(hs, itloc, mk('iter', itv.a[0], add(itv.a[1], k)))
                self.more[(itv.a[0], add(itv.a[1], k))] = more
            hdrm = dict(hs.m)
            latches, exits = once(hs, None)
            if not latches:
                back = None
                break
            back = self.merge(latches)
            grew = False
            for kk, hv in hdrm.items():
                bv_ = back.m.get(kk)
                if bv_ is None or bv_ is hv:
                    continue
                if itv is not None and kk == (itloc[0], itloc[1]):
                    want = self.put(hv, itloc[2], mk('iter', itv.a[0], add(itv.a[1], k, ONE)))
                    if bv_ is want:
                        continue
                    bv_ = self.put(bv_, itloc[2], self.get(hv, itloc[2])) if itloc[2] else bv_
                    if bv_ is hv:
                        continue
                for q in self.diff(hv, bv_):
                    if not any(kk == k2 and q[:len(q2)] == q2 and len(q2) <= len(q) for k2, q2, _, _ in leaves):
                        spec.setdefault(kk, set()).add(q)
                        grew = True
            # sequences assumed to keep their length
            for kk, q, p, x in leaves:
                if len(p.a) > 3 and kk in back.m:
                    lv = self.getleaf(back.m[kk], q)
                    if lv is None:
                        continue
                    nl_ = length(lv)
                    if nl_ is p.a[3] or (prove_le0(sub(nl_, p.a[3]), back.path) and prove_le0(sub(p.a[3], nl_), back.path)):
                        continue
                    spec.setdefault(kk, set()).add(q + ('nolen',))
                    grew = True
            if not grew:
                break
        else:
            self.notes.append('loop did not stabilise %s' % (lkey,))
        # remember the shape
        mem = {}
        for kk, sp in spec.items():
            rk = relkey(kk)
            if rk is not None:
                mem[rk] = frozenset(sp)
        self.loopinfo[lkey] = mem
        evs = self.events[ev0:]
        mems = self.mem[mem0:]
        if back is None:
            # the body never repeats
            out = []
            for tgt, s in exits:
                out.append((tgt, self._sub_state(s, {k: ZERO}, more, n, p0)))
            mm = {k: ZERO}
            if itv is not None:
                mm[more] = le0i(sub(ONE, n))
            for e in evs:
                e.guard = subst(e.guard, mm)
                e.binders = [(rebound(b, lambda t: subst(t, mm)), subst(x, mm)) for b, x in e.binders]
            for e in mems:
                e.subst_all(mm)
            return out
        # ---- next values
        nexts = {}
        for kk, q, p, x in leaves:
            v = back.m.get(kk)
            lv = self.getleaf(v, q) if v is not None else None
            nexts[p] = lv if lv is not None else mk('undef', 'shape')
        sol = {}
        init = {p: x for _, _, p, x in leaves}
        # literal conditions relative to the header
        crel = [[c for c in s.path[plen:]] for s in (back,)]
        cont = mk_and(*[c for c in back.path[plen:] if c is not more])
        # ---- solve
        pend = [p for _, _, p, _ in leaves]
        if itv is None:
            self.solve(pend, nexts, init, sol, k, p0)
            n, hexit = self.trip(exits, plen, k, nvar, sol, p0)
        else:
            # the number of completed iterations ranges over 0..=n, the index of a running one over 0..n
            ks = fresh_bv(add(n, ONE))
            self.solve(pend, {p: subst(v, {k: ks}) for p, v in nexts.items()}, init, sol, ks, p0)
            hexit = None
        early = []
        normal = []
        for idx, (tgt, s) in enumerate(exits):
            rel = s.path[plen:]
            if itv is not None:
                if any(c is mk_not(more) for c in rel):
                    rest = [c for c in rel if c is not mk_not(more)]
                    normal.append((tgt, s, mk_and(*rest)))
                else:
                    early.append((tgt, s, mk_and(*[c for c in rel if c is not more])))
            else:
                if idx == hexit:
                    normal.append((tgt, s, TRUE))
                else:
                    early.append((tgt, s, mk_and(*rel)))
        if n is None:
            if itv is None:
                self.hang(st, lkey, exits, plen, k, sol, init)
            return self.opaque_loop(lkey, st, leaves, nexts, sol, init, k, nvar, cont if itv is None else mk_and(more, cont), exits, plen, evs, mems, p0)
        if itv is None:
            k2 = fresh_bv(n)
            mp = {k: k2}
            nexts = {p: subst(v, mp) for p, v in nexts.items()}
            ks = fresh_bv(add(n, ONE))
            sols = {p: subst(f, {k: ks}) for p, f in sol.items()}
        else:
            k2 = k
            mp = {}
            sols = sol
        sol = {p: subst(f, {ks: k2}) for p, f in sols.items()}
        # unsolved leaves: one mutually recursive fold
        uns = [p for _, _, p, _ in leaves if p not in sol]
        more_true = {more: TRUE}
        ecs = []
        for tgt, s, c in early:
            ecs.append(subst(subst(c, mp), more_true))
        if uns:
            nx = [subst(subst(nexts[p], more_true), sol) for p in uns]
            if any(x.op == 'undef' for x in nx):
                self.notes.append('undefined loop value %s' % (lkey,))
            anyearly = [subst(c, sol) for c in ecs]
            fk = fresh_bv(n)
            ini = [init[p] for p in uns]
            ren = {k2: fk}
            nxr = [subst(x, ren) for x in nx]

            def fold_at(cnt):
                fb = fresh_bv(cnt)
                r2 = {fk: fb}
                return fold_vars(fb, cnt, uns, ini, [subst(x, r2) for x in nxr], TRUE)
            fs = fold_at(ks)
            for p, f in zip(uns, fs):
                sols[p] = f
                sol[p] = subst(f, {ks: k2})
            self.opaque_loops.append((lkey, len(uns)))
        # full closed forms at iteration k2
        def finals(sol):
            final = {}
            for p in sol:
                final[p] = subst(sol[p], {q: f for q, f in sol.items() if q is not p}) if (sol[p].fb & set(sol)) else sol[p]
            for _ in range(4):
                if any(f.fb & set(final) for f in final.values()):
                    final = {p: subst(f, final) for p, f in final.items()}
            return final
        final = finals(sol)
        finalx = finals(sols)
        mpx = {k: ks}
        base = dict(mp)
        base.update(more_true)

        def close(t, extra=None):
            t = subst(t, base)
            t = subst(t, final)
            if extra:
                t = subst(t, extra)
            return t
        ecs = [subst(c, final) for c in ecs]
        anyE = mk_or(*ecs)
        anyE = self.simp_under(anyE, p0)
        out = []
        if anyE is FALSE:
            for tgt, s, c in normal:
                mm = dict(mpx)
                mm[more] = FALSE
                s2 = self._close_state(s, mm, finalx, {ks: n}, p0, plen, ())
                if s2 is not None:
                    out.append((tgt, s2))
            for e in evs:
                e.guard = close(e.guard)
                e.binders = [(k2, n)] + [(rebound(b, close), close(x)) for b, x in e.binders]
            for e in mems:
                e.subst_all(base)
                e.subst_all(final)
                e.binders.insert(0, (k2, n))
            return out
        # early exits
        Tm = mk_first(k2, n, anyE)
        someE = self.simp_under(mk_exists(k2, n, anyE), p0)
        for tgt, s, c in normal:
            mm = dict(mpx)
            mm[more] = FALSE
            ex = (mk_not(someE),) if someE is not FALSE else ()
            s2 = self._close_state(s, mm, finalx, {ks: n}, p0, plen, ex)
            if s2 is not None and mk_not(someE) is not FALSE:
                out.append((tgt, s2))
        for (tgt, s, c), ec in zip(early, ecs):
            if ec is FALSE:
                continue
            ex = (someE,)
            if len([e for e in ecs if e is not FALSE]) > 1:
                ex = ex + (subst(ec, {k2: Tm}),)
            s2 = self._close_state(s, base, final, {k2: Tm}, p0, plen, ex)
            if s2 is not None:
                out.append((tgt, s2))
        n2 = mk_min(n, add(Tm, ONE))
        k3 = fresh_bv(n2)
        for e in evs:
            e.guard = subst(close(e.guard), {k2: k3})
            e.binders = [(k3, n2)] + [(rebound(b, lambda t: subst(close(t), {k2: k3})), subst(close(x), {k2: k3})) for b, x in e.binders]
        for e in mems:
            e.subst_all(base)
            e.subst_all(final)
            e.subst_all({k2: k3})
            e.binders.insert(0, (k3, n2))
        return out

    def simp_under(self, c, facts):
        d = decide(c, facts)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        if c.op == 'and':
            return mk_and(*[self.simp_under(x, facts) for x in c.a])
        return c

    def _sub_state(self, s, mp, more, n, p0):
        mm = dict(mp)
        m = {}
        if n is not None:
            mm[more] = le0i(sub(ONE, n))
        for kk, v in s.m.items():
            m[kk] = subst(v, mm) if v.fb else v
        path = tuple(x for x in (subst(c, mm) if c.fb else c for c in s.path) if x is not TRUE)
        return State(m, path)

    def _close_state(self, s, mm, final, kmap, p0, plen, extra):
        m = {}
        memo = {}
        for kk, v in s.m.items():
            if v.fb:
                r = memo.get(v)
                if r is None:
                    r = subst(subst(subst(v, mm), final), kmap)
                    memo[v] = r
                v = r
            m[kk] = v
        path = p0
        for c in extra:
            if c is TRUE:
                continue
            if c is FALSE:
                return None
            path = path + (c,)
        return State(m, path)

    # ------------------------------------------------------------ recurrences
    def solve(self, pend, nexts, init, sol, k, facts):
        pend = list(pend)
        progress = True
        phis = set(pend)
        while pend and progress:
            progress = False
            for p in list(pend):
                N = nexts[p]
                # substitute the solved ones
                N = subst(N, {q: f for q, f in sol.items()}) if N.fb & set(sol) else N
                others = N.fb & (phis - set(sol))
                f = self.solve1(p, N, others, init[p], k, facts)
                if f is not None:
                    sol[p] = f
                    pend.remove(p)
                    progress = True
        return pend

    def solve1(self, p, N, others, init, k, facts):
        kind = p.a[2]
        if N is p:
            return init
        if not others:
            # value of the last iteration
            prev = subst(N, {k: sub(k, ONE)})
            if init.op == 'undef':
                return prev
            if prev is init:
                return init
            return mk_ite(eq0(k), init, prev)
        if others != {p}:
            return None
        if kind == 'bool':
            r = self.solve_bool(p, N, init, k)
            if r is not None:
                return r
        if N.op == 'ite' and N.a[2] is p and N.a[0].op == 'eq0' and p not in N.a[1].fb:
            # an entry written when its key comes up: keys are different
            es = t_._key_elems(N.a[0], k)
            if len(es) == 1 and add(list(es)[0], neg(t_.KEY)) in (N.a[0].a[0], neg(N.a[0].a[0])):
                v = t_.at_key(N.a[1], list(es)[0])
                if k not in v.fb:
                    j = fresh_bv(k)
                    return mk_ite(mk_exists(j, k, subst(N.a[0], {k: j})), v, init)
        if is_numeric(p):
            d = pdict(N)
            key = ((p, 1),)
            if d.get(key) == 1:
                e = sub(N, p)
                if p not in e.fb:
                    j = fresh_bv(k)
                    return add(init, mk_sum(j, k, subst(e, {k: j})))
            if N.op in ('max', 'min') and p in N.a:
                rest = [x for x in N.a if x is not p]
                if not any(p in x.fb for x in rest):
                    j = fresh_bv(k)
                    e = mk_max(*rest) if N.op == 'max' else mk_min(*rest)
                    return mk_foldm(N.op, j, k, subst(e, {k: j}), init)
            return None
        if kind.startswith('seq:'):
            return self.solve_seq(p, N, init, k, facts)
        return None

    def solve_bool(self, p, N, init, k):
        if N.op == 'or' and p in N.a:
            c = mk_or(*[x for x in N.a if x is not p])
            if p not in c.fb:
                j = fresh_bv(k)
                return mk_or(init, mk_exists(j, k, subst(c, {k: j})))
        if N.op == 'and' and p in N.a:
            c = mk_and(*[x for x in N.a if x is not p])
            if p not in c.fb:
                j = fresh_bv(k)
                return mk_and(init, mk_not(mk_exists(j, k, mk_not(subst(c, {k: j})))))
        return None

    def solve_seq(self, p, N, init, k, facts):
        # appends
        if N.op == 'concat' and N.a[0] is p:
            q = mk_concat(*N.a[1:])
            if p not in q.fb:
                j = fresh_bv(k)
                return mk_concat(init, mk_flatgen(j, k, subst(q, {k: j})))
            return None
        f = self.solve_cells(p, N, init, k, facts)
        if f is not None:
            return f
        # guarded or unguarded writes
        w = self.writes(N, p)
        if w is None:
            return None
        guard, bs, start, q = w
        if p in start.fb or any(p in n.fb for _, n in bs):
            return None
        if p not in q.fb and p not in guard.fb:
            j = fresh_bv(k)
            mm = {k: j}
            return mk_scatter(init, [(j, k)] + [(b, subst(n, mm)) for b, n in bs], subst(guard, mm), subst(start, mm), subst(q, mm))
        # element-wise accumulation at the written positions only
        return self.solve_accum(p, guard, bs, start, q, init, k, facts)

    def solve_cells(self, p, N, init, k, facts):
        """writes to a few fixed positions, each from its own old value only: a recurrence per position"""
        if N.op != 'upd':
            return None
        pos, x = [], N
        while x.op == 'upd':
            if x.a[1].op != 'num':
                return None
            if x.a[1] not in pos:
                pos.append(x.a[1])
            x = x.a[0]
        if x is not p or (len(pos) == 1 and N.a[0] is p):
            return None
        out = init
        for i in pos:
            self.nphi += 1
            e = elem(N, i)
            cell = mk('phi', 'c%d' % self.nphi, 0, seq_ety(p) if seq_ety(p) in TYR else 'real')
            body = replace_elem(e, p, i, cell)
            if body is None or p in body.fb:
                return None
            f = self.solve1(cell, body, {cell} if cell in body.fb else set(), elem(init, i), k, facts)
            if f is None:
                f = self.cell_fold(cell, body, elem(init, i), k)
            out = upd(out, i, f)
        return out

    def writes(self, N, p):
        """N as one block write over p: (guard, binders, start, q)"""
        if N.op in ('upd', 'updr') and N.a[0] is not p:
            # writes of adjacent ranges: one write of the whole
            ps, x = [], N
            while x.op in ('upd', 'updr') and x is not p:
                ps.append((x.a[1], mk('lit', x.a[2]) if x.op == 'upd' else x.a[2]))
                x = x.a[0]
            if x is not p:
                return None
            ofs = [sub(a, ps[0][0]) for a, _ in ps]
            if all(o.op == 'num' for o in ofs):
                ps = [ps[i] for i in sorted(range(len(ps)), key=lambda i: ofs[i].a[0])]
            elif len(ps) == 2 and ps[0][0] is add(ps[1][0], length(ps[1][1])):
                ps.reverse()
            if any(b is not add(a, length(q)) for (a, q), (b, _) in zip(ps, ps[1:])):
                return None
            return TRUE, [], ps[0][0], mk_concat(*[q for _, q in ps])
        if N.op == 'upd' and N.a[0] is p:
            return TRUE, [], N.a[1], mk('lit', N.a[2])
        if N.op == 'updr' and N.a[0] is p:
            return TRUE, [], N.a[1], N.a[2]
        if N.op == 'ite':
            if N.a[2] is p:
                w = self.writes(N.a[1], p)
                c = N.a[0]
            elif N.a[1] is p:
                w = self.writes(N.a[2], p)
                c = mk_not(N.a[0])
            else:
                return None
            if w is None:
                return None
            return mk_and(c, w[0]), w[1], w[2], w[3]
        if N.op == 'scatter' and N.a[0] is p:
            s0, bs, g, stt, q = open_scatter(N)
            return g, bs, stt, q
        if N.op in ('gen', 'lit', 'fill') and length(N) is length(p):
            return TRUE, [], ZERO, N
        return None

    def solve_accum(self, p, guard, bs, start, q, init, k, facts):
        if bs:
            return None
        L = length(q)
        if guard is not TRUE:
            if p in guard.fb and L is ONE:
                q = mk('lit', mk_ite(guard, elem(q, ZERO), elem(p, start)))
                guard = TRUE
            elif k not in start.fb:
                return None
        if p in L.fb:
            L = subst(L, {p: init})
        ab = t_._coef(pdict(start), k)
        if ab is not None and k not in L.fb and k not in ab[0].fb:
            A = ab[0]
            if prove_le0(sub(L, A), facts) or prove_le0(add(L, A), facts):
                # blocks of different iterations are disjoint: own-block reads see the initial value
                q2 = own_reads(q, p, start, L, init, facts)
                if q2 is None or p in guard.fb:
                    return None
                j = fresh_bv(k)
                mm = {k: j}
                if guard is TRUE and A is L:
                    return updr(init, ab[1], mk_flatgen(j, k, subst(q2, mm)))
                return mk_scatter(init, [(j, k)], subst(guard, mm), subst(start, mm), subst(q2, mm))
            if A is not ZERO:
                return None
        # q reads p only at its own positions?
        r = fresh_bv(L)
        self.nphi += 1
        cell = mk('phi', 'c%d' % self.nphi, 0, seq_ety(p) if seq_ety(p) in TYR else 'real')
        if L is ONE:
            r = ZERO
        body = elem(q, r)
        body = replace_elem(body, p, add(start, r), cell)
        if body is None or p in body.fb:
            return None
        if k not in start.fb and k not in L.fb:
            # same positions every iteration: a recurrence per element
            f = self.solve1(cell, body, {cell}, elem(init, add(start, r)), k, facts)
            if f is None:
                f = self.cell_fold(cell, body, elem(init, add(start, r)), k)
            if L is ONE:
                return upd(init, start, f)
            return updr(init, start, mk_gen(r, L, f))
        ab = t_._coef(pdict(start), k)
        # disjoint positions: start = base + A*k with A = L (or a unit write)
        ab = t_._coef(pdict(start), k)
        if ab is not None and ab[0] is L and k not in L.fb:
            base = ab[1]
            j = fresh_bv(k)
            v = subst(subst(body, {k: j}), {cell: elem(init, add(base, mul(L, j), r))})
            g = mk_flatgen(j, k, mk_gen(r, L, v)) if L is not ONE else mk_gen(j, k, v)
            return updr(init, base, g)
        return None

    def cell_fold(self, cell, body, init, k):
        fk = fresh_bv(k)
        return fold_vars(fk, k, [cell], [init], [subst(body, {k: fk})], TRUE)[0]

    # ------------------------------------------------------------ trip counts
    def trip(self, exits, plen, k, nvar, sol, p0):
        """number of completed iterations for a counted while loop"""
        best = None
        for idx, (tgt, s) in enumerate(exits):
            rel = s.path[plen:]
            if len(rel) != 1:
                continue
            c = subst(rel[0], sol)
            if c.op != 'le0i':
                if c.op == 'eq0' and is_int(c.a[0]):
                    # i != n loops
                    ab = t_._coef(pdict(c.a[0]), k)
                    if ab is None:
                        continue
                    A, B = ab
                    if A.op == 'num' and abs(A.a[0]) == 1 and k not in B.fb:
                        n = neg(B) if A.a[0] == 1 else B
                        if rng(n)[0] >= 0 or prove_le0(neg(n), p0):
                            return n, idx
                continue
            if nvar in t_._sub(c) and False:
                continue
            ab = t_._coef(pdict(c.a[0]), k)
            if ab is None:
                continue
            A, B = ab          # exits when A*k + B <= 0
            if A.op == 'num' and A.a[0] < 0 and k not in B.fb:
                a = -A.a[0]
                # k >= B/a : n = ceil(max(B,0)/a)
                Bp = B if (rng(B)[0] >= 0 or prove_le0(neg(B), p0)) else mk_max(B, ZERO)
                if a == 1:
                    return Bp, idx
                return mk_idiv(add(Bp, num(a - 1)), num(a), p0), idx
            An = neg(A)
            if A.op != 'num' and k not in A.fb and k not in B.fb and (rng(An)[0] >= 1 or prove_le0(sub(ONE, An), p0)):
                Bp = B if (rng(B)[0] >= 0 or prove_le0(neg(B), p0)) else mk_max(B, ZERO)
                return mk_idiv(sub(add(Bp, An), ONE), An, p0), idx
        return None, None

    def hang(self, st, lkey, exits, plen, k, sol, init):
        """a loop none of whose exits comes closer from one iteration to the next never ends unless it ends at once"""
        go = []
        for tgt, s in exits:
            c = subst(mk_and(*s.path[plen:]), sol)
            if c.fb & set(init) or any(x.op in ('app', 'sapp', 'opaque', 'undef', 'phi', 'havoc') for x in t_._sub(c)):
                return
            if k in c.fb:
                ab = t_._coef(pdict(c.a[0]), k) if c.op in ('le0i', 'le0r') else None
                if ab is None or ab[0].op != 'num' or ab[0].a[0] < 0 or k in ab[1].fb:
                    return
                c = subst(c, {k: ZERO})
            go.append(mk_not(c))
        self.event(st, 'hang', mk_and(*go), lkey)

    def opaque_loop(self, lkey, st, leaves, nexts, sol, init, k, nvar, cont, exits, plen, evs, mems, p0):
        """a loop without a closed trip count: its carried values become while-folds"""
        self.opaque_loops.append((lkey, 'while'))
        # every carried leaf goes into one fold (closed forms in k are kept as they are)
        ps = [p for _, _, p, _ in leaves]
        nx = [nexts[p] for p in ps]
        ini = [init[p] for p in ps]
        if any(x.op == 'undef' for x in nx):
            self.notes.append('undefined loop value %s' % (lkey,))
        # value at the header of the last (exiting) iteration
        cc = cont
        fk = fresh_bv(num(2 ** 62))
        ren = {k: fk}
        fs = fold_vars(fk, None, ps, ini, [subst(x, ren) for x in nx], subst(cc, ren))
        mp = dict(zip(ps, fs))
        cnt = None
        if k in cc.fb or any(k in x.fb for x in nx) or any(k in v.fb for _, s in exits for v in s.m.values()):
            self.nphi += 1
            kp = mk('phi', 'kc%d' % self.nphi, 0, 'usize')
            fs = fold_vars(fk, None, ps + [kp], ini + [ZERO], [subst(x, ren) for x in nx] + [add(kp, ONE)], subst(cc, ren))
            mp = dict(zip(ps, fs[:-1]))
            cnt = fs[-1]
        kmap = {k: cnt} if cnt is not None else {}
        out = []
        for tgt, s in exits:
            rel = s.path[plen:]
            m = {}
            for kk, v in s.m.items():
                m[kk] = subst(subst(v, mp), kmap) if v.fb else v
            path = p0
            for c in rel:
                c2 = subst(subst(c, mp), kmap)
                if c2 is FALSE:
                    path = None
                    break
                if c2 is not TRUE:
                    path = path + (c2,)
            if path is not None:
                if len(exits) == 1:
                    path = p0
                out.append((tgt, State(m, path)))
        # events inside: recorded with the carried values unconstrained
        for e in evs:
            e.info = ('opaque-loop', e.info)
            e.kind = e.kind + '?'
        for e in mems:
            e.opaque = True
        return out


SEQOPS = {'svar', 'lit', 'gen', 'fill', 'slice', 'concat', 'flatgen', 'upd', 'updr', 'scatter', 'selem', 'filt'}


def mk_fmod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = Fraction(a.a[0]), Fraction(b.a[0])
        q = x / y
        import math
        return num(x - y * math.trunc(q))
    return mk('mod', a, b)




def replace_elem(t, p, idx, cell):
    """t with elem(p, idx) replaced by cell (None when p is read elsewhere)"""
    e = mk('elem', p, idx)
    r = _repl(t, e, cell, {})
    return r


def _repl(t, e, cell, memo):
    if t is e:
        return cell
    if not t.fb or e.a[0] not in t.fb:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == 'poly':
        out = []
        for mono, c in t.a[0]:
            q = num(c)
            for x, ex in mono:
                y = _repl(x, e, cell, memo)
                q = mul(q, power(y, ex) if ex > 0 else inv(power(y, -ex)))
            out.append(q)
        r = add(*out)
    elif o in t_.BINDERS or o in ('scatter', 'fold'):
        r = t
    else:
        def go(x):
            if isinstance(x, T):
                return _repl(x, e, cell, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        a = tuple(go(x) for x in t.a)
        r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(o, a)
    memo[t] = r
    return r


def own_reads(t, p, start, L, init, facts):
    """t with every read of p inside [start, start+L) redirected to init; None when p is read elsewhere"""
    memo = {}
    fx = [tuple(facts)]

    def inside(i, n):
        return prove_le0(sub(start, i), fx[0]) and prove_le0(sub(add(i, n), add(start, L)), fx[0])

    class Bad(Exception):
        pass

    def go(t):
        if t is p:
            raise Bad()
        if p not in t.fb:
            return t
        r = memo.get((t, fx[0]))
        if r is not None:
            return r
        o = t.op
        if o == 'elem' and t.a[0] is p and p not in t.a[1].fb:
            if not inside(t.a[1], ONE):
                raise Bad()
            r = elem(init, t.a[1])
        elif o == 'slice' and t.a[0] is p and p not in t.a[1].fb and p not in t.a[2].fb:
            if not inside(t.a[1], t.a[2]):
                raise Bad()
            r = mk_slice(init, t.a[1], t.a[2])
        elif o == 'poly':
            out = []
            for mono, c in t.a[0]:
                q = num(c)
                for x, ex in mono:
                    y = go(x)
                    q = mul(q, power(y, ex) if ex > 0 else inv(power(y, -ex)))
                out.append(q)
            r = add(*out)
        elif o in t_.BINDERS:
            n = t.a[1]
            b = fresh_bv(n)
            body = open_binder(t, b)
            n2, body2 = go(n), go(body)
            if n2 is not n:
                raise Bad()
            if o == 'gen':
                r = mk_gen(b, n, body2)
            elif o == 'flatgen':
                r = mk_flatgen(b, n, body2)
            elif o == 'sum':
                r = mk_sum(b, n, body2)
            elif o == 'exists':
                r = mk_exists(b, n, body2)
            elif o == 'first':
                r = mk_first(b, n, body2)
            else:
                raise Bad()
        elif o in ('scatter', 'fold'):
            raise Bad()
        elif o == 'ite':
            c = go(t.a[0])
            sv = fx[0]
            try:
                fx[0] = sv + (c,)
                x = go(t.a[1])
                fx[0] = sv + (mk_not(c),)
                y = go(t.a[2])
            finally:
                fx[0] = sv
            r = mk_ite(c, x, y)
        else:
            def gg(x):
                if isinstance(x, T):
                    return go(x)
                if isinstance(x, tuple):
                    return tuple(gg(y) for y in x)
                return x
            a = tuple(gg(x) for x in t.a)
            r = rebuild(o, a)
        memo[(t, fx[0])] = r
        return r
    try:
        return go(t)
    except Bad:
        return None


class FnRec:
    _tab = {}

    def __init__(self, rec):
        self.rec = rec

    def __repr__(self):
        return self.rec['path']

    @classmethod
    def get(cls, rec):
        import json
        k = json.dumps(rec, sort_keys=True)
        r = cls._tab.get(k)
        if r is None:
            r = cls._tab[k] = cls(rec)
        return r
