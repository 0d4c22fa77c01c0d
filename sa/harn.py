"""Symbolic entry states for the functions of the crate."""
from terms import *
from terms import mk
import interp
from interp import Interp, State

IMAGE = 'crate::image::Image'
INFO = 'crate::image::ImageInfo'
SUBIMG = 'crate::image::sub_image::SubImage'
CRATE = 'imgproc_rs'


def var(name, ty):
    return mk('var', name, ty)


def strip_generic(t):
    return t


def fn_index(w):
    """name -> body key. Free functions by path; methods as Type::name; trait methods as Type::Trait::name"""
    ix = getattr(w, '_fnix', None)
    if ix is None:
        ix = {}
        for k, b in w.bodies.items():
            if b['kind'] != 'fn':
                continue
            if b.get('self'):
                s = b['self']
                sn = tyname(s)
                if b.get('trait'):
                    ta = b.get('traitargs') or []
                    nm = '%s::%s::%s' % (sn, b['trait'].split('::')[-1], b['name'])
                    ix.setdefault(nm, []).append(k)
                    nm2 = '%s::%s<%s>::%s' % (tyname(s, True), b['trait'].split('::')[-1], ','.join(tyname(x, True) for x in ta[1:]), b['name'])
                    ix.setdefault(nm2, []).append(k)
                else:
                    ix.setdefault('%s::%s' % (sn, b['name']), []).append(k)
            else:
                ix.setdefault(k.replace('crate::', '', 1), []).append(k)
                ix.setdefault(b['name'] if 'name' in b else k.split('::')[-1], []).append(k)
        w._fnix = ix
    return ix


def tyname(t, args=False):
    k = t.get('k')
    if k == 'adt':
        n = t['n'].split('::')[-1]
        if args and t.get('a'):
            n += '<%s>' % ','.join(tyname(x, True) for x in t['a'])
        return n
    if k in ('int', 'float'):
        return t['n']
    if k == 'param':
        return t['n']
    if k in ('ref', 'ptr', 'rawptr'):
        return '&' + tyname(t['t'], args)
    if k == 'slice':
        return '[%s]' % tyname(t['t'], args)
    if k == 'array':
        return '[%s;%s]' % (tyname(t['t'], args), t.get('len'))
    if k == 'tuple':
        return '(%s)' % ','.join(tyname(x, args) for x in t.get('a', []))
    return k or '?'


class Missing(Exception):
    pass


def find(w, name):
    c = fn_index(w).get(name, [])
    c = [k for k in c]
    if len(c) != 1:
        raise Missing('%s: %d candidates' % (name, len(c)))
    return c[0]


def ety_of(t, env):
    k = t.get('k')
    if k in ('int', 'float'):
        return t['n'] if k == 'int' else 'real'
    if k == 'param':
        return env.get(t['n'], 'real')
    if k == 'bool':
        return 'bool'
    return 'any'


class Harness:
    """one symbolic call of one function"""

    def __init__(self, world, tyenv=None):
        self.w = world
        self.I = Interp(world)
        self.env = tyenv or {}
        self.st = State({}, ())
        self.outs = {}
        self.pre = []

    def image(self, name, ety='real', W=None, H=None, C=None, A=None, data=None):
        W = W if W is not None else var(name + '.w', 'nat1')
        H = H if H is not None else var(name + '.h', 'nat1')
        C = C if C is not None else var(name + '.c', 'chan')
        A = A if A is not None else var(name + '.alpha', 'bool')
        info = agg(INFO, 0, W, H, C, A)
        d = data if data is not None else svar(name + '.data', mul(W, H, C), ety)
        return agg(IMAGE, 0, info, d)

    def fn(self, name, ret='real'):
        v = var(name, 'fn')

        def call(I, args, st, site):
            return mk('app', name, ret, *[I.snapshot(st, x) for x in args])
        self.I.symfn[v] = call
        return v

    def subimage(self, name, ety='real', W=None, H=None, C=None, A=None):
        W = W if W is not None else var(name + '.w', 'nat1')
        H = H if H is not None else var(name + '.h', 'nat1')
        C = C if C is not None else var(name + '.c', 'chan')
        A = A if A is not None else var(name + '.alpha', 'bool')
        info = agg(INFO, 0, W, H, C, A)
        n = mul(W, H)
        b = fresh_bv(n)
        px = svar(name + '.px', mul(n, C), ety)
        return agg(SUBIMG, 0, info, mk_gen(b, n, mk_slice(px, mul(b, C), C)))

    def value(self, t, name):
        k = t.get('k')
        if k == 'int':
            return var(name, t['n'])
        if k == 'float':
            return var(name, 'real')
        if k == 'bool':
            return var(name, 'bool')
        if k == 'param':
            e = self.env.get(t['n'])
            if e == 'fn':
                return self.fn(name)
            return var(name, e or 'real')
        if k == 'slice':
            if t['t'].get('k') in ('slice', 'ref', 'adt'):
                return self.seq_of(t['t'], name)
            return svar(name, var(name + '.len', 'usize'), ety_of(t['t'], self.env))
        if k == 'array':
            return mk('lit', *[self.value(t['t'], '%s%d' % (name, i)) for i in range(int(t['len']))])
        if k == 'tuple':
            return tup(*[self.value(x, '%s.%d' % (name, i)) for i, x in enumerate(t.get('a', []))])
        if k == 'ref':
            v = self.value(t['t'], name)
            if t.get('mut'):
                return self.cell(v, name)
            return v
        if k == 'adt':
            n = t['n']
            if n == IMAGE:
                return self.image(name, ety_of(t['a'][0], self.env))
            if n == SUBIMG:
                return self.subimage(name, ety_of(t['a'][0], self.env))
            if n == INFO:
                return agg(INFO, 0, var(name + '.w', 'nat1'), var(name + '.h', 'nat1'), var(name + '.c', 'chan'), var(name + '.alpha', 'bool'))
            if n == 'alloc::vec::Vec':
                return self.value({'k': 'slice', 't': t['a'][0]}, name)
            a = self.w.adts.get(n)
            if a:
                if a['kind'] == 'enum':
                    if all(not v['fields'] for v in a['variants']):
                        # any variant, selected by a tag variable
                        tag = var(name + '.tag', 'u8')
                        r = agg(n, len(a['variants']) - 1)
                        for i in reversed(range(len(a['variants']) - 1)):
                            r = mk_ite(mk_eq(tag, num(i)), agg(n, i), r)
                        return r
            return mk('var', name, 'opaque:' + n)
        return mk('var', name, 'opaque')

    def seq_of(self, t, name):
        n = var(name + '.len', 'usize')
        b = fresh_bv(n)
        inner = t['t'] if t.get('k') == 'ref' else t
        m = mk('app', name + '.lens', 'usize', b)
        return mk_gen(b, n, mk('sapp', name + '.items', ety_of(inner.get('t') or inner['a'][0], self.env), m, b))

    def cell(self, v, name):
        fid = self.I.new_frame()
        self.st.m[(fid, 0)] = v
        self.outs[name] = (fid, 0)
        return mk('mref', fid, 0, ())

    def override(self, name, fn):
        """treat calls of the named function as fn(interp, args, state)"""
        key = find(self.w, name)
        self.I.overrides[key] = fn
        return key

    def args(self, key, **given):
        b = self.w.bodies[key]
        names = {}
        for nm, pl in b['names']:
            if not pl[1]:
                names.setdefault(pl[0], nm)
        out = []
        for i in range(1, b['argc'] + 1):
            nm = 'a%d' % i
            t = b['locals'][i]
            if nm in given:
                v = given[nm]
                if t.get('k') == 'ref' and t.get('mut') and v.op != 'mref':
                    v = self.cell(v, nm)
            else:
                v = self.value(t, nm)
            out.append(v)
        return out

    def call(self, name, pre=(), **given):
        """runs the named function; parameters are named a1, a2, ... by position"""
        key = find(self.w, name) if name not in self.w.bodies else name
        a = self.args(key, **given)
        self.a = a
        self.key = key
        st = State(self.st.m, tuple(pre))
        r = self.I.inline(key, a, st)
        self.st = st
        if r is not None:
            r = self.I.snapshot(st, r)
        self.r = r
        return r

    def out(self, name):
        return self.st.m[self.outs[name]]
