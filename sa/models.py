"""Semantics of the standard-library items the analysed crate may call."""
import re
from fractions import Fraction
from terms import *
from terms import T, mk
import terms as t_

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
RANGE = 'core::ops::range::Range'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
LESS = agg(ORDERING, 0)
EQUAL = agg(ORDERING, 1)
GREATER = agg(ORDERING, 2)
PI = Fraction('3.1415927')


def ok(x):
    return agg(RESULT, 0, x)


def err(x):
    return agg(RESULT, 1, x)


def strip(ty):
    while ty is not None and ty.get('k') in ('ref', 'rawptr', 'ptr') and 't' in ty:
        ty = ty['t']
    return ty


def is_variant(v, i):
    return eq0(sub(discr(v), num(i)))


def opt(c, x):
    """Some(x) if c else None"""
    return mk_ite(c, some(x), NONE)


def iter_(seq):
    return mk('iter', seq, ZERO)


class Mem:
    """one raw memory access"""
    __slots__ = ('base', 'off', 'n', 'guard', 'binders', 'site', 'opaque', 'kind')

    def __init__(self, base, off, n, guard, site, kind):
        self.base, self.off, self.n, self.guard, self.site, self.kind = base, off, n, guard, site, kind
        self.binders = []
        self.opaque = False

    def subst_all(self, m):
        self.base = subst(self.base, m)
        self.off = subst(self.off, m)
        self.n = subst(self.n, m)
        self.guard = subst(self.guard, m)
        self.binders = [(rebound(b, lambda t: subst(t, m)), subst(n, m)) for b, n in self.binders]


class Models:
    def __init__(self, I):
        self.I = I

    # ---------------------------------------------------------------- entry
    def call(self, rec, args, at, dt, st, site):
        path = rec['path']
        name = rec['name']
        tr = rec.get('trait')
        self.rec, self.at, self.dt, self.site = rec, at or [], dt, site
        m = None
        if tr:
            short = tr.split('::')[-1]
            m = getattr(self, 'T_%s_%s' % (short, name), None) or getattr(self, 'TT_' + short, None)
        if m is None:
            for pre, grp in PREFIX:
                if path.startswith(pre):
                    m = getattr(self, '%s_%s' % (grp, name), None)
                    if m is not None:
                        break
        if m is None and tr and tr.startswith('rayon::'):
            m = getattr(self, 'T_Iterator_' + name, None)
        if m is not None:
            r = m(st, *args)
            if r is not NotImplemented:
                return r
        return self.unknown(path, args, st)

    def unknown(self, path, args, st):
        I = self.I
        I.unknown[path] = I.unknown.get(path, 0) + 1
        vals = [I.snapshot(st, a) for a in args]
        n = 0
        for a, v in zip(args, vals):
            ls = I.locs_of(a)
            if ls:
                n += 1
                I.write_locs(st, ls, mk('opaque', path + '!%d' % n, *vals))
        dt = self.dt
        if dt and dt.get('k') == 'bool':
            return mk('app', path, 'bool', *vals)
        if dt and dt.get('k') == 'int':
            return mk('app', path, dt['n'], *vals)
        if dt and dt.get('k') == 'float':
            return mk('app', path, 'real', *vals)
        return mk('opaque', path, *vals)

    def val(self, st, x):
        return self.I.snapshot(st, x)

    def write(self, st, ptr, x):
        ls = self.I.locs_of(ptr)
        if ls is None:
            self.I.notes.append('write through %s' % ptr.op)
            return
        self.I.write_locs(st, ls, x)

    def mext(self, ptr, *es):
        """extend a pointer"""
        if ptr.op == 'ite':
            return mk('ite', ptr.a[0], self.mext(ptr.a[1], *es), self.mext(ptr.a[2], *es))
        if ptr.op != 'mref':
            # shared: plain value
            v = ptr
            return self.I.get(v, es)
        p = ptr.a[2]
        for e in es:
            p = self.I.ext(p, e)
        return mk('mref', ptr.a[0], ptr.a[1], p)

    def inttype(self, i=0):
        t = strip(self.at[i]) if i < len(self.at) else None
        return t['n'] if t is not None and t.get('k') == 'int' else None

    def isfloat(self, *vals):
        t = strip(self.at[0]) if self.at else None
        if t is not None and t.get('k') == 'int':
            return False
        if t is not None and t.get('k') == 'float':
            return True
        return not all(is_int(v) for v in vals)

    def callf(self, st, f, *args):
        return self.I.call_value(f, list(args), st, self.site)

    # ---------------------------------------------------------------- iterators
    def as_iter(self, v, st):
        o = v.op
        if o == 'iter':
            return v
        if o == 'agg':
            n = v.a[0]
            if n == RANGE:
                lo, hi = v.a[2], v.a[3]
                return iter_(self.range_seq(lo, sub(hi, lo), st))
            if n == 'core::ops::range::RangeInclusive':
                lo, hi = v.a[2], v.a[3]
                return iter_(self.range_seq(lo, add(sub(hi, lo), ONE), st))
            if n == 'core::ops::range::RangeFrom':
                b = fresh_bv(num(2 ** 61))
                return iter_(mk_gen(b, num(2 ** 61), add(v.a[2], b)))
            if n == 'map':
                ks = t_.mk_keys(v.a[2], v.a[1])
                b = fresh_bv(length(ks))
                return iter_(mk_gen2(b, length(ks), tup(elem(ks, b), t_.map_at(v.a[3], elem(ks, b)))))
            if n == OPTION:
                return iter_(mk('lit', v.a[2])) if v.a[1] == 1 else iter_(mk('lit'))
        if o == 'ite':
            a, b = self.as_iter(v.a[1], st), self.as_iter(v.a[2], st)
            if a is not None and b is not None and a.op == 'iter' and b.op == 'iter' and a.a[1] is b.a[1]:
                return mk('iter', mk_ite(v.a[0], a.a[0], b.a[0]), a.a[1])
        if o == 'mref':
            cur = self.I.snapshot(st, v)
            if cur.op == 'iter':
                return v
            if cur.op == 'agg' and cur.a[0].startswith('core::ops::range'):
                it = self.as_iter(cur, st)
                self.write(st, v, it)
                return v
            n = length(cur)
            b = fresh_bv(n)
            return iter_(mk_gen2(b, n, mk('mref', v.a[0], v.a[1], self.I.ext(v.a[2], ('i', b)))))
        if o in ('svar', 'lit', 'gen', 'fill', 'slice', 'concat', 'flatgen', 'upd', 'updr', 'scatter', 'selem', 'phi', 'fold', 'elem', 'ite', 'fn', 'opaque', 'field', 'app', 'sapp'):
            return iter_(v)
        return None

    def range_seq(self, lo, n, st):
        if rng(n)[0] < 0 and not prove_le0(neg(n), st.path):
            n = mk_max(n, ZERO)
        b = fresh_bv(n)
        return mk_gen(b, n, add(lo, b))

    def rest(self, st, v):
        """remaining items of an iterator value, as a sequence; consumes nothing"""
        it = self.as_iter(self.val(st, v) if self.I.locs_of(v) and self.I.snapshot(st, v).op == 'iter' else v, st)
        if it is None or it.op != 'iter':
            return None
        seq, pos = it.a
        if pos is ZERO:
            return seq
        return slice2(seq, pos, sub(length(seq), pos))

    def T_IntoIterator_into_iter(self, st, v):
        it = self.as_iter(v, st)
        if it is None:
            return mk('iter', mk('opaque', 'into_iter', self.val(st, v)), ZERO)
        return it
    T_IntoParallelIterator_into_par_iter = T_IntoIterator_into_iter

    def T_IntoParallelRefIterator_par_iter(self, st, v):
        return iter_(self.val(st, v))

    def T_IntoParallelRefMutIterator_par_iter_mut(self, st, v):
        return self.as_iter(v, st)

    def T_ParallelSlice_par_chunks(self, st, v, n):
        return self.slice_chunks(st, v, n)

    def T_ParallelSliceMut_par_chunks_mut(self, st, v, n):
        return self.slice_chunks_mut(st, v, n)

    def T_Iterator_next(self, st, r):
        I = self.I
        cur = I.snapshot(st, r)
        it = self.as_iter(cur, st)
        if it is None or it.op != 'iter':
            return NotImplemented
        seq, pos = it.a
        more = getattr(I, 'more', {}).get((seq, pos))
        if more is not None:
            self.write(st, r, mk('iter', seq, add(pos, ONE)))
            return mk_ite(more, some(elem(seq, pos, st.path)), NONE)
        c = le0i(add(sub(pos, length(seq)), ONE))
        d = decide(c, st.path)
        if d is True:
            c = TRUE
        elif d is False:
            c = FALSE
        self.write(st, r, mk('iter', seq, mk_ite(c, add(pos, ONE), pos)))
        return opt(c, elem(seq, pos, st.path))

    def T_Iterator_by_ref(self, st, r):
        return r

    def _wrap(self, st, it, f):
        """iterator over f(item, index)"""
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        b = fresh_bv(n)
        return iter_(mk_gen2(b, n, f(elem(seq, b), b)))

    def T_Iterator_enumerate(self, st, it):
        return self._wrap(st, it, lambda x, b: tup(b, x))

    def T_Iterator_rev(self, st, it):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        b = fresh_bv(n)
        return iter_(mk_gen2(b, n, elem(seq, sub(sub(n, ONE), b))))
    T_DoubleEndedIterator_rev = T_Iterator_rev

    def T_Iterator_cloned(self, st, it):
        return self._wrap(st, it, lambda x, b: self.val(st, x))
    T_Iterator_copied = T_Iterator_cloned

    def T_Iterator_step_by(self, st, it, s):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        if s is ONE:
            return iter_(seq)
        self.I.event(st, 'step0', le0i(s), self.site)
        m = mk_idiv(sub(add(n, s), ONE), s, st.path)
        b = fresh_bv(m)
        return iter_(mk_gen2(b, m, elem(seq, mul(s, b))))

    def T_Iterator_skip(self, st, it, k):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        k2 = k if prove_le0(sub(k, n), st.path) else mk_min(k, n)
        return iter_(slice2(seq, k2, sub(n, k2)))

    def T_Iterator_take(self, st, it, k):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        k2 = k if prove_le0(sub(k, n), st.path) else mk_min(k, n)
        return iter_(slice2(seq, ZERO, k2))

    def T_Iterator_zip(self, st, it, other):
        a = self.rest(st, it)
        o = self.as_iter(other, st)
        b_ = self.rest(st, o) if o is not None else None
        if a is None or b_ is None:
            return NotImplemented
        na, nb = length(a), length(b_)
        n = na if na is nb or prove_le0(sub(na, nb), st.path) else nb if prove_le0(sub(nb, na), st.path) else mk_min(na, nb)
        b = fresh_bv(n)
        return iter_(mk_gen2(b, n, tup(elem(a, b), elem(b_, b))))

    def T_Iterator_chain(self, st, it, other):
        a = self.rest(st, it)
        o = self.as_iter(other, st)
        b_ = self.rest(st, o) if o is not None else None
        if a is None or b_ is None:
            return NotImplemented
        return iter_(mk_concat(a, b_))

    def T_Iterator_flatten(self, st, it):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        return iter_(self.flat(seq, st))

    def flat(self, seq, st):
        n = length(seq)
        b = fresh_bv(n)
        x = elem(seq, b)
        i = self.as_iter(x, st)
        y = self.rest(st, i) if i is not None else None
        if y is None:
            return mk('opaque', 'flatten', seq)
        return mk_flatgen(b, n, y)

    def T_Iterator_flat_map(self, st, it, f):
        m = self.T_Iterator_map(st, it, f)
        if m is NotImplemented:
            return m
        return self.T_Iterator_flatten(st, m)

    def T_Iterator_map(self, st, it, f):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        return iter_(self.mapseq(st, seq, f))
    T_ParallelIterator_map = T_Iterator_map

    def mapseq(self, st, seq, f, idx=None):
        """sequence of f(item); f must have no effect, otherwise it is closed as a loop"""
        I = self.I
        n = length(seq)
        b = fresh_bv(n)
        I.nphi += 1
        s2 = State_(dict(st.m), st.path)
        ev0, me0 = len(I.events), len(I.mem)
        r = self.callf(s2, f, elem(seq, b))
        changed = [k for k in st.m if s2.m.get(k) is not st.m[k]]
        for e in I.events[ev0:]:
            e.binders.insert(0, (b, n))
        for e in I.mem[me0:]:
            e.binders.insert(0, (b, n))
        if changed:
            del I.events[ev0:]
            del I.mem[me0:]
            return self.map_loop(st, seq, f)
        if r is None:
            r = mk('undef', 'never')
        return mk_gen2(b, n, r)

    def map_loop(self, st, seq, f):
        """map with an effectful closure: a loop pushing the results"""
        I = self.I
        acc = I.new_frame()
        st.m[(acc, 0)] = mk('lit')
        itf = I.new_frame()
        st.m[(itf, 0)] = iter_(seq)
        site = self.site

        def once(s, info):
            o = self.T_Iterator_next(s, mk('mref', itf, 0, ()))
            c = is_variant(o, 1)
            s1 = State_(dict(s.m), s.path + (c,))
            s2 = State_(dict(s.m), s.path + (mk_not(c),))
            self.site = site
            r = self.callf(s1, f, field(o, 0, 1))
            s1.m[(acc, 0)] = mk_concat(s1.m[(acc, 0)], mk('lit', r))
            return [s1], [('x', s2)]
        self._loop(st, once, (itf, 0, ()), acc)
        r = st.m.pop((acc, 0))
        st.m.pop((itf, 0), None)
        return r

    def _loop(self, st, once, itloc, *frames):
        I = self.I
        fr = {f: i for i, f in enumerate(frames)}
        outs = I.close_loop((self.site, 'hof', st.path and None), once, st, itloc, {}, lambda k: None)
        res = I.merge([s for _, s in outs])
        st.m, st.path = res.m, res.path
        I._facts = st.path

    def T_Iterator_for_each(self, st, it, f):
        I = self.I
        i = self.as_iter(it, st)
        if i is None or i.op != 'iter':
            return NotImplemented
        itf = I.new_frame()
        st.m[(itf, 0)] = i
        cf = I.new_frame()
        st.m[(cf, 0)] = f
        site = self.site

        def once(s, info):
            o = self.T_Iterator_next(s, mk('mref', itf, 0, ()))
            c = is_variant(o, 1)
            s1 = State_(dict(s.m), s.path + (c,))
            s2 = State_(dict(s.m), s.path + (mk_not(c),))
            self.site = site
            self.callf(s1, s1.m[(cf, 0)], field(o, 0, 1))
            return [s1], [('x', s2)]
        self._loop(st, once, (itf, 0, ()))
        st.m.pop((itf, 0), None)
        st.m.pop((cf, 0), None)
        return UNIT
    T_ParallelIterator_for_each = T_Iterator_for_each

    def T_Iterator_fold(self, st, it, init, f):
        I = self.I
        i = self.as_iter(it, st)
        if i is None or i.op != 'iter':
            return NotImplemented
        itf = I.new_frame()
        st.m[(itf, 0)] = i
        acc = I.new_frame()
        st.m[(acc, 0)] = init
        site = self.site

        def once(s, info):
            o = self.T_Iterator_next(s, mk('mref', itf, 0, ()))
            c = is_variant(o, 1)
            s1 = State_(dict(s.m), s.path + (c,))
            s2 = State_(dict(s.m), s.path + (mk_not(c),))
            self.site = site
            a = s1.m[(acc, 0)]
            s1.m[(acc, 0)] = self.callf(s1, f, a, field(o, 0, 1))
            return [s1], [('x', s2)]
        self._loop(st, once, (itf, 0, ()))
        st.m.pop((itf, 0), None)
        return st.m.pop((acc, 0))

    def T_Iterator_sum(self, st, it):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        b = fresh_bv(n)
        return mk_sum(b, n, self.val(st, elem(seq, b)))

    def T_Iterator_count(self, st, it):
        seq = self.rest(st, it)
        return NotImplemented if seq is None else length(seq)
    T_ExactSizeIterator_len = T_Iterator_count

    def T_Iterator_max(self, st, it):
        return self._ext(st, it, 'max')

    def T_Iterator_min(self, st, it):
        return self._ext(st, it, 'min')

    def _ext(self, st, it, op):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        b = fresh_bv(n)
        f = mk_foldm(op, b, n, self.val(st, elem(seq, b)), self.val(st, elem(seq, ZERO)))
        return opt(le0i(sub(ONE, n)), f)

    def _extby(self, st, it, f, op):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        # does the comparison follow the natural order?
        x, y = var('cmp_x', 'real'), var('cmp_y', 'real')
        ev0 = len(self.I.events)
        r = self.callf(State_(dict(st.m), st.path), f, x, y)
        del self.I.events[ev0:]
        nat = self.ordering(x, y)
        rv = self.ordering(y, x)
        if r is nat:
            return self._ext(st, it, op)
        if r is rv:
            return self._ext(st, it, 'min' if op == 'max' else 'max')
        return opt(le0i(sub(ONE, length(seq))), mk('fn', op + '_by', seq, r))

    def T_Iterator_max_by(self, st, it, f):
        return self._extby(st, it, f, 'max')

    def T_Iterator_min_by(self, st, it, f):
        return self._extby(st, it, f, 'min')

    def _pred(self, st, it, f):
        seq = self.rest(st, it)
        if seq is None:
            return None
        c = self.mapseq(st, seq, f)
        return seq, c

    def T_Iterator_any(self, st, it, f):
        r = self._pred(st, it, f)
        if r is None:
            return NotImplemented
        n = length(r[0])
        b = fresh_bv(n)
        return mk_exists(b, n, elem(r[1], b))

    def T_Iterator_all(self, st, it, f):
        r = self._pred(st, it, f)
        if r is None:
            return NotImplemented
        n = length(r[0])
        b = fresh_bv(n)
        return mk_not(mk_exists(b, n, mk_not(elem(r[1], b))))

    def T_Iterator_position(self, st, it, f):
        r = self._pred(st, it, f)
        if r is None:
            return NotImplemented
        n = length(r[0])
        b = fresh_bv(n)
        c = elem(r[1], b)
        return opt(mk_exists(b, n, c), mk_first(b, n, c))

    def T_Iterator_find(self, st, it, f):
        r = self._pred(st, it, f)
        if r is None:
            return NotImplemented
        n = length(r[0])
        b = fresh_bv(n)
        c = elem(r[1], b)
        return opt(mk_exists(b, n, c), elem(r[0], mk_first(b, n, c)))

    def T_Iterator_last(self, st, it):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        n = length(seq)
        return opt(le0i(sub(ONE, n)), elem(seq, sub(n, ONE)))

    def T_Iterator_nth(self, st, r, k):
        cur = self.I.snapshot(st, r)
        it = self.as_iter(cur, st)
        if it is None or it.op != 'iter':
            return NotImplemented
        seq, pos = it.a
        n = length(seq)
        c = le0i(add(sub(add(pos, k), n), ONE))
        self.write(st, r, mk('iter', seq, mk_min(add(pos, k, ONE), n)))
        return opt(c, elem(seq, add(pos, k)))

    def T_Iterator_size_hint(self, st, r):
        it = self.as_iter(self.I.snapshot(st, r), st)
        if it is None or it.op != 'iter':
            return NotImplemented
        n = sub(length(it.a[0]), it.a[1])
        return tup(n, some(n))

    def T_Iterator_filter(self, st, it, f):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        c = self.mapseq(st, seq, f)
        return iter_(mk('filt', seq, c))

    def T_Iterator_collect(self, st, it):
        seq = self.rest(st, it)
        if seq is None:
            return NotImplemented
        dt = self.dt
        if dt and dt.get('k') == 'adt' and dt['n'] in (RESULT, OPTION):
            n = length(seq)
            b = fresh_bv(n)
            x = elem(seq, b)
            okv = 0 if dt['n'] == RESULT else 1
            bad = mk_not(is_variant(x, okv))
            anybad = mk_exists(b, n, bad)
            good = agg(dt['n'], okv, mk_gen2(fresh_like(b), n, field(x, 0, okv), b))
            if anybad is FALSE:
                return good
            badv = elem(seq, mk_first(b, n, bad))
            return mk_ite(anybad, badv, good)
        if dt and dt.get('k') == 'adt' and dt['n'] != 'alloc::vec::Vec' and not dt['n'].startswith('alloc::boxed'):
            return mk('opaque', 'collect:' + dt['n'], seq)
        return seq
    T_ParallelIterator_collect = T_Iterator_collect

    def T_FromIterator_from_iter(self, st, it):
        i = self.as_iter(it, st)
        return NotImplemented if i is None else self.T_Iterator_collect(st, i)

    # ---------------------------------------------------------------- vec
    def vec_new(self, st):
        return mk('lit')

    def vec_with_capacity(self, st, n):
        return mk('lit')

    def vec_from_elem(self, st, v, n):
        return mk_fill(v, n)

    def vec_push(self, st, r, x):
        self.write(st, r, mk_concat(self.val(st, r), mk('lit', x)))
        return UNIT

    def vec_pop(self, st, r):
        v = self.val(st, r)
        n = length(v)
        c = le0i(sub(ONE, n))
        self.write(st, r, mk_ite(c, mk_slice(v, ZERO, sub(n, ONE)), v))
        return opt(c, elem(v, sub(n, ONE), st.path))

    def vec_append(self, st, a, b):
        self.write(st, a, mk_concat(self.val(st, a), self.val(st, b)))
        self.write(st, b, mk('lit'))
        return UNIT

    def vec_extend_from_slice(self, st, r, s):
        self.write(st, r, mk_concat(self.val(st, r), self.val(st, s)))
        return UNIT

    def T_Extend_extend(self, st, r, it):
        i = self.as_iter(it, st)
        seq = self.rest(st, i) if i is not None else None
        if seq is None:
            return NotImplemented
        self.write(st, r, mk_concat(self.val(st, r), seq))
        return UNIT

    def vec_clear(self, st, r):
        self.write(st, r, mk('lit'))
        return UNIT

    def vec_truncate(self, st, r, n):
        v = self.val(st, r)
        m = length(v)
        k = n if prove_le0(sub(n, m), st.path) else mk_min(n, m)
        self.write(st, r, mk_slice(v, ZERO, k))
        return UNIT

    def vec_resize(self, st, r, n, x):
        v = self.val(st, r)
        m = length(v)
        c = le0i(sub(n, m))
        self.write(st, r, mk_ite(c, mk_slice(v, ZERO, n), mk_concat(v, mk_fill(x, sub(n, m)))))
        return UNIT

    def vec_reserve(self, st, r, n):
        return UNIT
    vec_reserve_exact = vec_reserve

    def vec_shrink_to_fit(self, st, r):
        return UNIT

    def vec_len(self, st, v):
        return length(self.val(st, v))

    def vec_capacity(self, st, v):
        return mk('opaque', 'capacity')

    def vec_is_empty(self, st, v):
        return eq0(length(self.val(st, v)))

    def vec_insert(self, st, r, i, x):
        v = self.val(st, r)
        n = length(v)
        self.I.event(st, 'bounds', lt(n, i, True), self.site)
        self.write(st, r, mk_concat(mk_slice(v, ZERO, i), mk('lit', x), mk_slice(v, i, sub(n, i))))
        return UNIT

    def vec_remove(self, st, r, i):
        v = self.val(st, r)
        n = length(v)
        self.I.event(st, 'bounds', le(n, i, True), self.site)
        self.write(st, r, mk_concat(mk_slice(v, ZERO, i), mk_slice(v, add(i, ONE), sub(sub(n, i), ONE))))
        return elem(v, i, st.path)

    def vec_as_slice(self, st, v):
        return self.val(st, v)

    def vec_as_mut_slice(self, st, v):
        return v
    vec_deref_mut = vec_as_mut_slice

    def vec_into_boxed_slice(self, st, v):
        return v

    def vec_drain(self, st, r, rg):
        v = self.val(st, r)
        lo, hi = self.bounds(rg, length(v))
        self.write(st, r, mk_concat(mk_slice(v, ZERO, lo), mk_slice(v, hi, sub(length(v), hi))))
        return iter_(mk_slice(v, lo, sub(hi, lo)))

    def vec_as_mut_ptr(self, st, r):
        return self._ptr(st, r)

    def vec_as_ptr(self, st, r):
        return self._ptr(st, r)
    slice_as_ptr = vec_as_ptr
    slice_as_mut_ptr = vec_as_mut_ptr

    def _ptr(self, st, r):
        if r.op == 'mref':
            p = r.a[2]
            if p and p[-1][0] == 's':
                return mk('ptr', mk('mref', r.a[0], r.a[1], p[:-1]), p[-1][1])
            return mk('ptr', r, ZERO)
        f = self.I.new_frame()
        st.m[(f, 0)] = r
        return mk('ptr', mk('mref', f, 0, ()), ZERO)

    def T_Deref_deref(self, st, v):
        return self.val(st, v)

    def T_DerefMut_deref_mut(self, st, v):
        return v

    def T_AsRef_as_ref(self, st, v):
        return self.val(st, v)

    def T_AsMut_as_mut(self, st, v):
        return v

    def T_Borrow_borrow(self, st, v):
        return self.val(st, v)

    def T_ToOwned_to_owned(self, st, v):
        return self.val(st, v)

    def T_Clone_clone(self, st, v):
        return self.val(st, v)

    def T_Clone_clone_from(self, st, r, v):
        self.write(st, r, self.val(st, v))
        return UNIT

    def T_Default_default(self, st):
        dt = self.dt
        if dt and dt.get('k') in ('int', 'float'):
            return ZERO
        if dt and dt.get('k') == 'bool':
            return FALSE
        if dt and dt.get('k') == 'adt' and dt['n'] == 'alloc::vec::Vec':
            return mk('lit')
        if dt and dt.get('k') == 'adt' and dt['n'].endswith(('::BTreeMap', '::HashMap')):
            return mk('agg', 'map', 1 if dt['n'].endswith('::BTreeMap') else 0, FALSE, ZERO)
        return mk('opaque', 'default')

    # ---------------------------------------------------------------- slices
    def bounds(self, rg, n):
        a = rg.a[0] if rg.op == 'agg' else ''
        if a == RANGE:
            return rg.a[2], rg.a[3]
        if a == 'core::ops::range::RangeTo':
            return ZERO, rg.a[2]
        if a == 'core::ops::range::RangeFrom':
            return rg.a[2], n
        if a == 'core::ops::range::RangeFull':
            return ZERO, n
        if a == 'core::ops::range::RangeInclusive':
            return rg.a[2], add(rg.a[3], ONE)
        if a == 'core::ops::range::RangeToInclusive':
            return ZERO, add(rg.a[2], ONE)
        return None

    def _idx(self, st, base, idx, mutable):
        v = self.val(st, base)
        if v.op == 'opaque' and v.a[0].startswith('std::collections'):
            return NotImplemented
        if v.op == 'agg' and v.a[0] == 'map':
            k = self.val(st, idx)
            self.I.event(st, 'missing key', mk_not(t_.map_at(v.a[2], k)), self.site)
            return t_.map_at(v.a[3], k)
        if v.op == 'agg':
            return NotImplemented
        if idx.op == 'agg' or (idx.op == 'iter'):
            n = length(v)
            b = self.bounds(idx, n)
            if b is None:
                return NotImplemented
            lo, hi = b
            self.I.event(st, 'bounds', mk_or(lt(hi, lo, True), lt(n, hi, True)), self.site)
            if mutable:
                return self.mext(base, ('s', lo, sub(hi, lo)))
            return mk_slice(v, lo, sub(hi, lo))
        idx = self.val(st, idx)
        if not is_numeric(idx):
            return NotImplemented
        self.I.event(st, 'bounds', mk_or(lt(idx, ZERO, True), le(length(v), idx, True)), self.site)
        if mutable:
            return self.mext(base, ('i', idx))
        return elem(v, idx, st.path)

    def T_Index_index(self, st, base, idx):
        return self._idx(st, base, idx, False)

    def T_IndexMut_index_mut(self, st, base, idx):
        return self._idx(st, base, idx, True)

    # ---------------------------------------------------------------- maps
    def map_new(self, st, *a):
        return mk('agg', 'map', 1 if 'btree' in self.rec['path'] else 0, FALSE, ZERO)
    map_with_capacity = map_new

    def _map(self, st, r):
        m = self.val(st, r)
        return m if m.op == 'agg' and m.a[0] == 'map' else None

    def map_entry(self, st, r, k):
        if self._map(st, r) is None:
            return NotImplemented
        return mk('agg', 'mapentry', 0, r, self.val(st, k))

    def map_or_insert(self, st, e, v0):
        if e.op != 'agg' or e.a[0] != 'mapentry':
            return NotImplemented
        r, k = e.a[2], e.a[3]
        m = self._map(st, r)
        if m is None:
            return NotImplemented
        has, val = m.a[2], m.a[3]
        here = mk_eq(t_.KEY, k)
        # absent keys have the value 0
        nval = add(val, mk_ite(mk_and(here, mk_not(has)), v0, ZERO))
        self.write(st, r, mk('agg', 'map', m.a[1], mk_or(has, here), nval))
        return self.mext(r, ('k', k))

    def map_or_default(self, st, e):
        return self.map_or_insert(st, e, ZERO) if self.dt and self.dt.get('k') == 'ref' and self.dt['t'].get('k') in ('int', 'float') else NotImplemented

    def map_insert(self, st, r, k, v):
        m = self._map(st, r)
        if m is None or not is_numeric(v):
            return NotImplemented
        k = self.val(st, k)
        has, val = m.a[2], m.a[3]
        here = mk_eq(t_.KEY, k)
        self.write(st, r, mk('agg', 'map', m.a[1], mk_or(has, here), mk_ite(here, v, val)))
        return opt(t_.map_at(has, k), t_.map_at(val, k))

    def map_get(self, st, r, k):
        m = self._map(st, r)
        if m is None:
            return NotImplemented
        k = self.val(st, k)
        return opt(t_.map_at(m.a[2], k), t_.map_at(m.a[3], k))

    def map_contains_key(self, st, r, k):
        m = self._map(st, r)
        if m is None:
            return NotImplemented
        return t_.map_at(m.a[2], self.val(st, k))

    def map_clear(self, st, r):
        m = self._map(st, r)
        if m is None:
            return NotImplemented
        self.write(st, r, mk('agg', 'map', m.a[1], FALSE, ZERO))
        return UNIT

    def map_iter(self, st, r):
        m = self._map(st, r)
        return NotImplemented if m is None else self.as_iter(m, st) or NotImplemented

    def map_len(self, st, r):
        m = self._map(st, r)
        return NotImplemented if m is None else length(t_.mk_keys(m.a[2], m.a[1]))

    def slice_len(self, st, v):
        return length(self.val(st, v))

    def slice_is_empty(self, st, v):
        return eq0(length(self.val(st, v)))

    def slice_iter(self, st, v):
        return iter_(self.val(st, v))

    def slice_iter_mut(self, st, v):
        return self.as_iter(v, st)

    def slice_to_vec(self, st, v):
        return self.val(st, v)
    slice_into_vec = slice_to_vec
    slice_as_slice = slice_to_vec

    def slice_copy_from_slice(self, st, r, s):
        v = self.val(st, r)
        s = self.val(st, s)
        self.I.event(st, 'copylen', mk_not(mk_eq(length(v), length(s))), self.site)
        # store through the slice path itself
        ls = self.I.locs_of(r)
        if ls is None:
            return NotImplemented
        self.I.write_locs(st, ls, s)
        return UNIT
    slice_clone_from_slice = slice_copy_from_slice

    def slice_fill(self, st, r, x):
        v = self.val(st, r)
        self.write(st, r, mk_fill(x, length(v)))
        return UNIT

    def slice_swap(self, st, r, i, j):
        v = self.val(st, r)
        a, b = elem(v, i), elem(v, j)
        self.write(st, r, upd(upd(v, i, b), j, a))
        return UNIT

    def slice_reverse(self, st, r):
        v = self.val(st, r)
        n = length(v)
        b = fresh_bv(n)
        self.write(st, r, mk_gen2(b, n, elem(v, sub(sub(n, ONE), b))))
        return UNIT

    def _getopt(self, st, v, idx, mutable):
        w = self.val(st, v)
        if idx.op == 'agg':
            lo, hi = self.bounds(idx, length(w))
            c = mk_and(le(lo, hi, True), le(hi, length(w), True))
            return opt(c, self.mext(v, ('s', lo, sub(hi, lo))) if mutable else mk_slice(w, lo, sub(hi, lo)))
        c = lt(idx, length(w), True)
        return opt(c, self.mext(v, ('i', idx)) if mutable else elem(w, idx))

    def slice_get(self, st, v, idx):
        return self._getopt(st, v, idx, False)

    def slice_get_mut(self, st, v, idx):
        return self._getopt(st, v, idx, True)

    def slice_get_unchecked(self, st, v, idx):
        w = self.val(st, v)
        self._unchecked(st, v, w, idx)
        if idx.op == 'agg':
            lo, hi = self.bounds(idx, length(w))
            return mk_slice(w, lo, sub(hi, lo))
        return elem(w, idx)

    def slice_get_unchecked_mut(self, st, v, idx):
        w = self.val(st, v)
        self._unchecked(st, v, w, idx)
        if idx.op == 'agg':
            lo, hi = self.bounds(idx, length(w))
            return self.mext(v, ('s', lo, sub(hi, lo)))
        return self.mext(v, ('i', idx))

    def _unchecked(self, st, v, w, idx):
        if idx.op == 'agg':
            lo, hi = self.bounds(idx, length(w))
            off, n = lo, sub(hi, lo)
        else:
            off, n = idx, ONE
        self.I.mem.append(Mem(length(w), off, n, mk_and(*st.path), self.site, 'unchecked'))

    def slice_first(self, st, v):
        w = self.val(st, v)
        return opt(le0i(sub(ONE, length(w))), elem(w, ZERO))

    def slice_last(self, st, v):
        w = self.val(st, v)
        n = length(w)
        return opt(le0i(sub(ONE, n)), elem(w, sub(n, ONE)))

    def slice_last_mut(self, st, v):
        n = length(self.val(st, v))
        return opt(le0i(sub(ONE, n)), self.mext(v, ('i', sub(n, ONE))))

    def slice_first_mut(self, st, v):
        n = length(self.val(st, v))
        return opt(le0i(sub(ONE, n)), self.mext(v, ('i', ZERO)))

    def slice_split_at(self, st, v, k):
        w = self.val(st, v)
        n = length(w)
        self.I.event(st, 'bounds', lt(n, k, True), self.site)
        return tup(mk_slice(w, ZERO, k), mk_slice(w, k, sub(n, k)))

    def slice_split_at_mut(self, st, v, k):
        w = self.val(st, v)
        n = length(w)
        self.I.event(st, 'bounds', lt(n, k, True), self.site)
        return tup(self.mext(v, ('s', ZERO, k)), self.mext(v, ('s', k, sub(n, k))))

    def slice_split_last(self, st, v):
        w = self.val(st, v)
        n = length(w)
        return opt(le0i(sub(ONE, n)), tup(elem(w, sub(n, ONE)), mk_slice(w, ZERO, sub(n, ONE))))

    def slice_split_first(self, st, v):
        w = self.val(st, v)
        n = length(w)
        return opt(le0i(sub(ONE, n)), tup(elem(w, ZERO), mk_slice(w, ONE, sub(n, ONE))))

    def slice_split_last_mut(self, st, v):
        w = self.val(st, v)
        n = length(w)
        return opt(le0i(sub(ONE, n)), tup(self.mext(v, ('i', sub(n, ONE))), self.mext(v, ('s', ZERO, sub(n, ONE)))))

    def slice_contains(self, st, v, x):
        w = self.val(st, v)
        n = length(w)
        b = fresh_bv(n)
        return mk_exists(b, n, mk_eq(elem(w, b), self.val(st, x)))

    def slice_concat(self, st, v):
        return self.flat(self.val(st, v), st)

    def _chunks(self, st, v, k, mutable, exact):
        w = self.val(st, v)
        n = length(w)
        self.I.event(st, 'chunk0', le0i(k), self.site)
        q = t_._split(n, k)
        if q[1] is ZERO:
            m = q[0]
            ln = lambda b: k
        elif exact:
            m = mk_idiv(n, k, st.path)
            ln = lambda b: k
        else:
            m = mk_idiv(sub(add(n, k), ONE), k, st.path)
            ln = lambda b: mk_min(k, sub(n, mul(k, b)))
        b = fresh_bv(m)
        if mutable:
            return iter_(mk_gen2(b, m, self.mext(v, ('s', mul(k, b), ln(b)))))
        return iter_(mk_gen2(b, m, mk_slice(w, mul(k, b), ln(b))))

    def slice_chunks(self, st, v, k):
        return self._chunks(st, v, k, False, False)

    def slice_chunks_exact(self, st, v, k):
        return self._chunks(st, v, k, False, True)

    def slice_chunks_mut(self, st, v, k):
        return self._chunks(st, v, k, True, False)

    def slice_chunks_exact_mut(self, st, v, k):
        return self._chunks(st, v, k, True, True)

    def slice_windows(self, st, v, k):
        w = self.val(st, v)
        m = mk_max(add(sub(length(w), k), ONE), ZERO)
        b = fresh_bv(m)
        return iter_(mk_gen2(b, m, mk_slice(w, b, k)))

    def slice_sort(self, st, r):
        self.write(st, r, mk('fn', 'sort', self.val(st, r)))
        return UNIT
    slice_sort_unstable = slice_sort

    def slice_rotate_left(self, st, r, k):
        v = self.val(st, r)
        self.write(st, r, mk_concat(mk_slice(v, k, sub(length(v), k)), mk_slice(v, ZERO, k)))
        return UNIT

    def slice_copy_within(self, st, r, rg, d):
        v = self.val(st, r)
        lo, hi = self.bounds(rg, length(v))
        self.write(st, r, updr(v, d, mk_slice(v, lo, sub(hi, lo))))
        return UNIT

    # ---------------------------------------------------------------- boxes, vec![]
    def box_new_uninit(self, st):
        fid = self.I.new_frame()
        st.m[(fid, 0)] = mk('undef', 'uninit')
        return mk('mref', fid, 0, ())

    def box_new(self, st, v):
        return v

    def box_box_assume_init_into_vec_unsafe(self, st, v):
        return unbox(self.val(st, v))

    def box_write(self, st, b, v):
        return v

    def box_assume_init(self, st, b):
        return unbox(b)

    # ---------------------------------------------------------------- option / result
    def T_Try_branch(self, st, v):
        t = strip(self.at[0]) if self.at else None
        isres = (t and t.get('n') == RESULT) or (v.op == 'agg' and v.a[0] == RESULT)
        if isres:
            return mk_ite(is_variant(v, 0), agg(CFLOW, 0, field(v, 0, 0)), agg(CFLOW, 1, err(field(v, 0, 1))))
        return mk_ite(is_variant(v, 1), agg(CFLOW, 0, field(v, 0, 1)), agg(CFLOW, 1, NONE))

    def T_FromResidual_from_residual(self, st, v):
        t = strip(self.at[0]) if self.at else None
        if (v.op == 'agg' and v.a[0] == RESULT) or (t and t.get('n') == RESULT):
            fr = self.rec.get('from') or (self.rec.get('res') or {}).get('from')
            e = field(v, 0, 1)
            fr = self.rec.get('from')
            if fr and fr.get('mir') and fr['path'] in self.I.w.bodies:
                e = self.I.inline(fr['path'], [e], st)
            return err(e)
        return NONE

    def T_Try_from_output(self, st, v):
        return ok(v)

    def _is(self, v, ok_):
        """condition that v is Some / Ok, and its payload"""
        t = strip(self.at[0]) if self.at else None
        n = t.get('n') if t and t.get('k') == 'adt' else None
        if n is None:
            n = RESULT if self.rec['path'].startswith('core::result') else OPTION
        i = 1 if n == OPTION else 0
        return is_variant(v, i), field(v, 0, i), n

    def opt_unwrap(self, st, v):
        v = self.val(st, v)
        c, x, n = self._is(v, True)
        self.I.event(st, 'unwrap', mk_not(c), self.site)
        return x

    def opt_expect(self, st, v, m):
        return self.opt_unwrap(st, v)

    def opt_unwrap_unchecked(self, st, v):
        return self.opt_unwrap(st, v)

    def opt_unwrap_or(self, st, v, d):
        c, x, n = self._is(v, True)
        return mk_ite(c, x, d)

    def opt_unwrap_or_default(self, st, v):
        c, x, n = self._is(v, True)
        return mk_ite(c, x, self.T_Default_default(st))

    def _cond(self, st, c, f, g):
        """if c then f(state) else g(state), merging the effects"""
        d = decide(c, st.path)
        if d is True:
            return f(st)
        if d is False:
            return g(st)
        I = self.I
        s1 = State_(dict(st.m), st.path + (c,))
        s2 = State_(dict(st.m), st.path + (mk_not(c),))
        ctx = (self.rec, self.at, self.dt, self.site)
        r1 = f(s1)
        self.rec, self.at, self.dt, self.site = ctx
        r2 = g(s2)
        self.rec, self.at, self.dt, self.site = ctx
        if r1 is None or r2 is None:
            s = s2 if r1 is None else s1
            st.m, st.path = s.m, s.path
            return r2 if r1 is None else r1
        fid = I.new_frame()
        s1.m[(fid, 0)] = r1
        s2.m[(fid, 0)] = r2
        s = I.merge([s1, s2])
        r = s.m.pop((fid, 0))
        st.m, st.path = s.m, s.path
        return r

    def opt_unwrap_or_else(self, st, v, f):
        c, x, n = self._is(v, True)
        if n == RESULT:
            return self._cond(st, c, lambda s: x, lambda s: self.callf(s, f, field(v, 0, 1)))
        return self._cond(st, c, lambda s: x, lambda s: self.callf(s, f))

    def opt_map(self, st, v, f):
        c, x, n = self._is(v, True)
        if n == OPTION:
            return self._cond(st, c, lambda s: some(self.callf(s, f, x)), lambda s: NONE)
        return self._cond(st, c, lambda s: ok(self.callf(s, f, x)), lambda s: err(field(v, 0, 1)))

    def opt_map_err(self, st, v, f):
        c, x, n = self._is(v, True)
        return self._cond(st, c, lambda s: ok(x), lambda s: err(self.callf(s, f, field(v, 0, 1))))

    def opt_map_or(self, st, v, d, f):
        c, x, n = self._is(v, True)
        return self._cond(st, c, lambda s: self.callf(s, f, x), lambda s: d)

    def opt_and_then(self, st, v, f):
        c, x, n = self._is(v, True)
        return self._cond(st, c, lambda s: self.callf(s, f, x), lambda s: NONE if n == OPTION else err(field(v, 0, 1)))

    def opt_ok_or(self, st, v, e):
        c, x, n = self._is(v, True)
        return mk_ite(c, ok(x), err(e))

    def opt_ok_or_else(self, st, v, f):
        c, x, n = self._is(v, True)
        return self._cond(st, c, lambda s: ok(x), lambda s: err(self.callf(s, f)))

    def opt_ok(self, st, v):
        c, x, n = self._is(v, True)
        return opt(c, x)

    def opt_is_some(self, st, v):
        return is_variant(self.val(st, v), 1)

    def opt_is_none(self, st, v):
        return is_variant(self.val(st, v), 0)

    def opt_is_ok(self, st, v):
        return is_variant(self.val(st, v), 0)

    def opt_is_err(self, st, v):
        return is_variant(self.val(st, v), 1)

    def opt_as_ref(self, st, v):
        return self.val(st, v)
    opt_copied = opt_as_ref
    opt_cloned = opt_as_ref

    # ---------------------------------------------------------------- operators
    def TT_Add(self, st, a, b): return self._ar('Add', st, a, b)
    def TT_Sub(self, st, a, b): return self._ar('Sub', st, a, b)
    def TT_Mul(self, st, a, b): return self._ar('Mul', st, a, b)
    def TT_Div(self, st, a, b): return self._ar('Div', st, a, b)
    def TT_Rem(self, st, a, b): return self._ar('Rem', st, a, b)
    def TT_AddAssign(self, st, a, b): return self._asg('Add', st, a, b)
    def TT_SubAssign(self, st, a, b): return self._asg('Sub', st, a, b)
    def TT_MulAssign(self, st, a, b): return self._asg('Mul', st, a, b)
    def TT_DivAssign(self, st, a, b): return self._asg('Div', st, a, b)
    def TT_RemAssign(self, st, a, b): return self._asg('Rem', st, a, b)

    def TT_Neg(self, st, a):
        return neg(self.val(st, a))

    def TT_Not(self, st, a):
        v = self.val(st, a)
        return mk_not(v) if is_boolean(v) else NotImplemented

    def _ar(self, op, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if not (is_numeric(a) and is_numeric(b)):
            return NotImplemented
        t = strip(self.at[0]) if self.at else {'k': 'param'}
        return self.I.binop(op, a, b, t, st, self.site)

    def _asg(self, op, st, r, b):
        a, b = self.val(st, r), self.val(st, b)
        t = strip(self.at[0]) if self.at else {'k': 'param'}
        self.write(st, r, self.I.binop(op, a, b, t, st, self.site))
        return UNIT

    def _cmpop(self, op, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if op in ('Eq', 'Ne'):
            r = mk_eq(a, b)
            return r if op == 'Eq' else mk_not(r)
        if not (is_numeric(a) and is_numeric(b)):
            return NotImplemented
        t = {'k': 'float' if self.isfloat(a, b) else 'int', 'n': 'i64'}
        return self.I.binop(op, a, b, t, st, self.site)

    def T_PartialEq_eq(self, st, a, b): return self._cmpop('Eq', st, a, b)
    def T_PartialEq_ne(self, st, a, b): return self._cmpop('Ne', st, a, b)
    def T_PartialOrd_lt(self, st, a, b): return self._cmpop('Lt', st, a, b)
    def T_PartialOrd_le(self, st, a, b): return self._cmpop('Le', st, a, b)
    def T_PartialOrd_gt(self, st, a, b): return self._cmpop('Gt', st, a, b)
    def T_PartialOrd_ge(self, st, a, b): return self._cmpop('Ge', st, a, b)

    def ordering(self, a, b):
        isint = is_int(a) and is_int(b)
        return mk_ite(lt(a, b, isint), LESS, mk_ite(mk_eq(a, b), EQUAL, GREATER))

    def T_PartialOrd_partial_cmp(self, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if not (is_numeric(a) and is_numeric(b)):
            return NotImplemented
        return some(self.ordering(a, b))

    def T_Ord_cmp(self, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if not (is_numeric(a) and is_numeric(b)):
            return NotImplemented
        return self.ordering(a, b)

    def T_Ord_max(self, st, a, b):
        return mk_max(a, b) if is_numeric(a) and is_numeric(b) else NotImplemented

    def T_Ord_min(self, st, a, b):
        return mk_min(a, b) if is_numeric(a) and is_numeric(b) else NotImplemented

    def T_Ord_clamp(self, st, x, lo, hi):
        return self.clamp(st, x, lo, hi)

    def clamp(self, st, x, lo, hi):
        isint = is_int(lo) and is_int(hi)
        self.I.event(st, 'clamp', lt(hi, lo, isint), self.site)
        return mk_min(mk_max(x, lo), hi)

    cmp_max = T_Ord_max
    cmp_min = T_Ord_min

    def cmp_reverse(self, st, o):
        return mk_ite(is_variant(o, 0), GREATER, mk_ite(is_variant(o, 2), LESS, EQUAL))

    def cmp_is_lt(self, st, o): return is_variant(o, 0)
    def cmp_is_gt(self, st, o): return is_variant(o, 2)
    def cmp_is_eq(self, st, o): return is_variant(o, 1)
    def cmp_is_le(self, st, o): return mk_not(is_variant(o, 2))
    def cmp_is_ge(self, st, o): return mk_not(is_variant(o, 0))

    def T_Into_into(self, st, v):
        fr = self.rec.get('from') or (self.rec.get('res') or {}).get('from')
        if fr and fr.get('path') in self.I.w.bodies:
            return self.I.inline(fr['path'], [v], st)
        return self.conv(st, v)

    def T_From_from(self, st, v):
        return self.conv(st, v)

    def conv(self, st, v):
        if self.I.locs_of(v) is not None and self.dt and self.dt.get('k') != 'ref':
            v = self.val(st, v)
        if is_boolean(v) and self.dt and self.dt.get('k') in ('int',):
            return mk_ite(v, ONE, ZERO)
        dt = self.dt
        if dt and dt.get('k') == 'adt' and dt['n'] == OPTION and not (v.op == 'agg' and v.a[0] == OPTION):
            return some(v)
        return v

    def T_TryInto_try_into(self, st, v):
        v = self.val(st, v)
        if is_numeric(v):
            dt = self.dt
            if dt and dt.get('k') == 'adt' and dt.get('a') and dt['a'][0].get('k') == 'int':
                lo, hi = MACH[dt['a'][0]['n']]
                c = mk_and(le(num(lo), v, True), le(v, num(hi), True))
                return mk_ite(c, ok(v), err(mk('opaque', 'tryfrom')))
        return ok(v)

    T_TryFrom_try_from = T_TryInto_try_into

    # ---------------------------------------------------------------- closures
    def T_Fn_call(self, st, f, args):
        if args.op == 'agg' and args.a[0] == 'tuple':
            xs = list(args.a[2:])
        else:
            xs = [field(args, 0)]
        return self.callf(st, f, *xs)

    T_FnMut_call_mut = T_Fn_call
    T_FnOnce_call_once = T_Fn_call

    # ---------------------------------------------------------------- numbers
    def flt_abs(self, st, x): return mk_abs(self.val(st, x))
    def flt_clamp(self, st, x, lo, hi): return self.clamp(st, x, lo, hi)
    def flt_floor(self, st, x): return mk_round('floor', x)
    def flt_ceil(self, st, x): return mk_round('ceil', x)
    def flt_round(self, st, x): return mk_round('round', x)
    def flt_trunc(self, st, x): return mk_round('trunc', x)
    def flt_fract(self, st, x): return sub(x, mk_round('trunc', x))
    def flt_sqrt(self, st, x): return mk_fn('sqrt', x)
    def flt_cbrt(self, st, x): return mk_pow(x, num(Fraction(1, 3)))
    def flt_powf(self, st, x, y): return mk_pow(x, y)
    def flt_powi(self, st, x, y): return mk_pow(x, y)
    def flt_exp(self, st, x): return mk_fn('exp', x)
    def flt_ln(self, st, x): return mk_fn('ln', x)
    def flt_sin(self, st, x): return mk_fn('sin', x)
    def flt_cos(self, st, x): return mk_fn('cos', x)
    def flt_tan(self, st, x): return div(mk_fn('sin', x), mk_fn('cos', x))
    def flt_sin_cos(self, st, x): return tup(mk_fn('sin', x), mk_fn('cos', x))
    def flt_atan2(self, st, x, y): return mk_fn('atan2', x, y)
    def flt_to_radians(self, st, x): return mul(x, num(PI / 180))
    def flt_to_degrees(self, st, x): return mul(x, num(180 / PI))
    def flt_max(self, st, x, y): return mk_max(x, y)
    def flt_min(self, st, x, y): return mk_min(x, y)
    def flt_mul_add(self, st, x, a, b): return add(mul(x, a), b)
    def flt_recip(self, st, x): return inv(x)
    def flt_hypot(self, st, x, y): return mk_fn('sqrt', add(mul(x, x), mul(y, y)))
    def flt_is_nan(self, st, x): return FALSE
    def flt_is_finite(self, st, x): return TRUE
    def flt_signum(self, st, x): return mk_ite(lt0r(x), num(-1), ONE)
    def flt_copysign(self, st, x, y): return mk_ite(lt0r(y), neg(mk_abs(x)), mk_abs(x))
    def flt_total_cmp(self, st, x, y): return self.ordering(self.val(st, x), self.val(st, y))

    def flt_rem_euclid(self, st, x, y):
        return sub(x, mul(mk_abs(y), mk_round('floor', div(x, mk_abs(y)))))

    def _n(self):
        n = self.inttype(0)
        if n is None and self.dt is not None and strip(self.dt).get('k') == 'int':
            n = strip(self.dt)['n']
        return n or 'i64'

    def _satz(self, r):
        lo, hi = MACH[self._n()]
        l, h = rng(r)
        if l < lo:
            r = mk_max(r, num(lo))
        if h > hi and self._n() in ('u8', 'i8', 'u16', 'i16'):
            r = mk_min(r, num(hi))
        return r

    def int_saturating_sub(self, st, a, b): return self._satz(sub(a, b))
    def int_saturating_add(self, st, a, b): return self._satz(add(a, b))
    def int_saturating_mul(self, st, a, b): return self._satz(mul(a, b))
    def int_saturating_add_signed(self, st, a, b): return self._satz(add(a, b))
    def int_saturating_add_unsigned(self, st, a, b): return self._satz(add(a, b))
    def int_saturating_sub_unsigned(self, st, a, b): return self._satz(sub(a, b))

    def _wrapz(self, r):
        n = self._n()
        if n in ('u8', 'i8', 'u16', 'i16'):
            return mk_wrap(n, r)
        if rng(r)[0] < MACH[n][0] and n.startswith('u'):
            return mk('wrap', n, r)
        return r

    def int_wrapping_sub(self, st, a, b): return self._wrapz(sub(a, b))
    def int_wrapping_add(self, st, a, b): return self._wrapz(add(a, b))
    def int_wrapping_mul(self, st, a, b): return self._wrapz(mul(a, b))
    def int_wrapping_neg(self, st, a): return self._wrapz(neg(a))

    def _chk(self, r):
        lo, hi = MACH[self._n()]
        l, h = rng(r)
        return opt(mk_and(le(num(lo), r, True), le(r, num(hi), True)), r)

    def int_checked_sub(self, st, a, b): return self._chk(sub(a, b))
    def int_checked_add(self, st, a, b): return self._chk(add(a, b))
    def int_checked_mul(self, st, a, b): return self._chk(mul(a, b))
    def int_checked_add_signed(self, st, a, b): return self._chk(add(a, b))

    def int_checked_div(self, st, a, b):
        return opt(mk_not(eq0(b)), mk_idiv(a, b, st.path))

    def int_overflowing_add(self, st, a, b):
        r = add(a, b)
        w = self._wrapz(r)
        return tup(w, mk_not(mk_eq(w, r)))

    def int_abs(self, st, x):
        n = self._n()
        if rng(x)[0] <= MACH[n][0] and n in ('i8', 'i16'):
            self.I.event(st, 'overflow', eq0(sub(x, num(MACH[n][0]))), self.site)
            lo = MACH[n][0]
            return mk_ite(eq0(sub(x, num(lo))), num(lo), mk_abs(x))
        return mk_abs(x)

    def int_unsigned_abs(self, st, x): return mk_abs(x)
    def int_abs_diff(self, st, x, y): return mk_abs(sub(x, y))
    def int_pow(self, st, x, e): return mk_pow(x, e)
    def int_signum(self, st, x): return mk_ite(lt(x, ZERO, True), num(-1), mk_ite(eq0(x), ZERO, ONE))
    def int_is_negative(self, st, x): return lt(x, ZERO, True)
    def int_is_positive(self, st, x): return lt(ZERO, x, True)

    def int_div_ceil(self, st, a, b):
        return mk_idiv(sub(add(a, b), ONE), b, st.path)

    def int_rem_euclid(self, st, a, b):
        if rng(a)[0] >= 0:
            return mk_mod(a, b, st.path)
        return sub(a, mul(b, mk_round('floor', div(a, b)))) if rng(b)[0] > 0 else NotImplemented

    def int_div_euclid(self, st, a, b):
        if rng(a)[0] >= 0:
            return mk_idiv(a, b, st.path)
        return mk_round('floor', div(a, b)) if rng(b)[0] > 0 else NotImplemented

    def int_min_value(self, st): return num(MACH[self._n()][0])
    def int_max_value(self, st): return num(MACH[self._n()][1])

    # ---------------------------------------------------------------- misc
    def range_new(self, st, a, b):
        return agg('core::ops::range::RangeInclusive', 0, a, b)

    def range_contains(self, st, r, x):
        r = self.val(st, r)
        x = self.val(st, x)
        b = self.bounds(r, None)
        isint = is_int(x)
        if r.a[0].endswith('Inclusive'):
            hi = r.a[-1]
            lo = r.a[2] if r.a[0].endswith('RangeInclusive') else None
            c = le(x, hi, isint)
        else:
            lo, hi = b
            c = lt(x, hi, isint) if hi is not None else TRUE
        return mk_and(le(lo, x, isint), c) if lo is not None else c

    def range_start(self, st, r): return self.val(st, r).a[2]
    def range_end(self, st, r): return self.val(st, r).a[3]
    def range_is_empty(self, st, r):
        r = self.val(st, r)
        lo, hi = self.bounds(r, None)
        return le(hi, lo, is_int(lo) and is_int(hi))

    def fmt_any(self, st, *a):
        return mk('str', '<fmt>')
    fmt_format = fmt_any
    fmt_new_display = fmt_any
    fmt_new_debug = fmt_any
    fmt_new = fmt_any
    fmt_new_v1 = fmt_any
    fmt_new_const = fmt_any
    fmt_from_str = fmt_any
    fmt_must_use = lambda self, st, v: v

    def T_ToString_to_string(self, st, v):
        return mk('str', '<fmt>')

    def mem_swap(self, st, a, b):
        va, vb = self.val(st, a), self.val(st, b)
        self.write(st, a, vb)
        self.write(st, b, va)
        return UNIT

    def mem_replace(self, st, a, v):
        old = self.val(st, a)
        self.write(st, a, v)
        return old

    def mem_take(self, st, a):
        old = self.val(st, a)
        self.write(st, a, mk('lit') if self.I.is_seq(old) else ZERO if is_numeric(old) else NONE)
        return old

    def mem_drop(self, st, a):
        return UNIT

    def mem_size_of(self, st):
        return mk('opaque', 'size_of')

    def arr_map(self, st, a, f):
        return self.mapseq(st, self.val(st, a), f)

    def arr_iter(self, st, a):
        return iter_(self.val(st, a))

    def arr_from_fn(self, st, f):
        dt = self.dt
        n = num(int(dt['len']))
        b = fresh_bv(n)
        return self.mapseq(st, mk_gen2(b, n, b), f)

    def iter_once(self, st, x):
        return iter_(mk('lit', x))

    def iter_repeat(self, st, x):
        return iter_(mk('fill', x, num(2 ** 61)))

    def iter_repeat_n(self, st, x, n):
        return iter_(mk_fill(x, n))

    def iter_empty(self, st):
        return iter_(mk('lit'))

    def iter_zip(self, st, a, b):
        return self.T_Iterator_zip(st, self.as_iter(a, st), b)

    # ---------------------------------------------------------------- raw pointers
    def ptr_offset(self, st, p, o):
        return self.I.ptr_offset(p, o)
    ptr_add = ptr_offset

    def ptr_sub(self, st, p, o):
        return self.I.ptr_offset(p, neg(o))

    def ptr_cast(self, st, p):
        return p

    def _access(self, st, p, n, kind):
        """(location, offset) of an access of n elements; recorded as an obligation"""
        if p.op != 'ptr':
            self.I.mem.append(Mem(mk('opaque', 'ptr'), ZERO, num(n), mk_and(*st.path), self.site, kind + '?'))
            return None
        base, off = p.a
        v = self.val(st, base)
        self.I.mem.append(Mem(length(v), off, num(n), mk_and(*st.path), self.site, kind))
        return v, off, base

    def ptr_read(self, st, p):
        a = self._access(st, p, 1, 'read')
        return mk('opaque', 'read') if a is None else elem(a[0], a[1], st.path)

    def ptr_write(self, st, p, x):
        a = self._access(st, p, 1, 'write')
        if a is not None:
            self.write(st, a[2], upd(a[0], a[1], x, st.path))
        return UNIT

    # ---------------------------------------------------------------- AVX2
    def _lanes(self, *vs, f):
        n = num(32)
        b = fresh_bv(n)
        return mk_gen2(b, n, f(*[elem(v, b) for v in vs]))

    def x86__mm256_loadu_si256(self, st, p):
        a = self._access(st, p, 32, 'load')
        if a is None:
            return mk('opaque', 'load')
        return mk_slice(a[0], a[1], num(32))

    def x86__mm256_storeu_si256(self, st, p, v):
        a = self._access(st, p, 32, 'store')
        if a is not None:
            self.write(st, a[2], updr(a[0], a[1], v))
        return UNIT

    def x86__mm_storeu_si128(self, st, p, v):
        a = self._access(st, p, 16, 'store')
        if a is not None:
            self.write(st, a[2], updr(a[0], a[1], v))
        return UNIT

    def x86__mm256_storeu2_m128i(self, st, hi, lo, v):
        for p, o in ((lo, 0), (hi, 16)):
            a = self._access(st, p, 16, 'store')
            if a is not None:
                self.write(st, a[2], updr(a[0], a[1], mk_slice(v, num(o), num(16))))
        return UNIT

    def x86__mm256_setzero_si256(self, st):
        return mk('fill', ZERO, num(32))

    def x86__mm256_set1_epi8(self, st, x):
        # lanes are bytes: i8 -> u8
        while x.op == 'wrap' and x.a[0] in ('i8', 'u8'):
            x = x.a[1]
        return mk('fill', mk_wrap('u8', x), num(32))

    def _bytes(self, x, n):
        if x.op == 'num':
            v = x.a[0] % (1 << (8 * n))
            return [num((v >> (8 * i)) & 255) for i in range(n)]
        return [mk('bits', 'byte%d' % i, x) for i in range(n)]

    def x86__mm256_set1_epi32(self, st, x):
        bs = self._bytes(x, 4)
        b = fresh_bv(num(32))
        return mk_gen2(b, num(32), elem(mk('lit', *bs), mk_mod(b, num(4))))

    def x86__mm256_set_epi64x(self, st, a, b, c, d):
        bs = self._bytes(d, 8) + self._bytes(c, 8) + self._bytes(b, 8) + self._bytes(a, 8)
        return mk('lit', *bs)

    def x86__mm256_adds_epu8(self, st, a, b):
        return self._lanes(a, b, f=lambda x, y: mk_min(add(x, y), num(255)))

    def x86__mm256_subs_epu8(self, st, a, b):
        return self._lanes(a, b, f=lambda x, y: mk_max(sub(x, y), ZERO))

    def x86__mm256_avg_epu8(self, st, a, b):
        return self._lanes(a, b, f=lambda x, y: mk_idiv(add(x, y, ONE), num(2)))

    def x86__mm256_min_epu8(self, st, a, b):
        return self._lanes(a, b, f=lambda x, y: mk_min(x, y))

    def x86__mm256_max_epu8(self, st, a, b):
        return self._lanes(a, b, f=lambda x, y: mk_max(x, y))

    def x86__mm256_blendv_epi8(self, st, a, b, m):
        return self._lanes(a, b, m, f=lambda x, y, z: mk_ite(le0i(sub(num(128), z)), y, x))

    def x86__mm256_unpacklo_epi8(self, st, a, b):
        return self._unpack(a, b, 0)

    def x86__mm256_unpackhi_epi8(self, st, a, b):
        return self._unpack(a, b, 8)

    def _unpack(self, a, b, o):
        out = []
        for lane in (0, 16):
            for i in range(8):
                out += [elem(a, num(lane + o + i)), elem(b, num(lane + o + i))]
        return mk('lit', *out)

    def detect_avx2(self, st):
        return var('avx2', 'bool')


PREFIX = [
    ('alloc::vec::', 'vec'), ('core::slice::', 'slice'), ('alloc::slice::', 'slice'), ('alloc::vec::', 'slice'),
    ('alloc::boxed::', 'box'), ('core::option::', 'opt'), ('core::result::', 'opt'),
    ('core::f32::', 'flt'), ('std::f32::', 'flt'), ('core::f64::', 'flt'), ('std::f64::', 'flt'),
    ('std::num::f32', 'flt'), ('core::num::f32', 'flt'), ('core::num::', 'int'), ('core::cmp::', 'cmp'),
    ('core::ops::range::', 'range'), ('core::fmt::', 'fmt'), ('alloc::fmt::', 'fmt'), ('core::hint::', 'fmt'),
    ('core::mem::', 'mem'), ('core::array::', 'arr'), ('core::iter::sources', 'iter'), ('core::iter::adapters', 'iter'),
    ('alloc::collections::btree::map::', 'map'), ('std::collections::hash::map::', 'map'),
    ('core::ptr::', 'ptr'), ('core::core_arch::x86', 'x86'), ('std_detect::detect::arch::x86::__is_feature_detected', 'detect'),
]


def unbox(v):
    # Box<MaybeUninit<ManuallyDrop<[T; N]>>> written field by field
    while v.op == 'agg' and len(v.a) >= 3 and v.a[0] in ('partial', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling'):
        fs = [x for x in v.a[2:] if x.op != 'undef']
        if len(fs) != 1:
            return v
        v = fs[0]
    return v


def slice2(seq, st, n):
    """slice of a sequence of items that may be pointers"""
    if st is ZERO and n is length(seq):
        return seq
    b = fresh_bv(n)
    return mk_gen2(b, n, elem(seq, add(st, b)))


def fresh_like(b):
    return b


def mk_gen2(b, n, body, b2=None):
    return mk_gen(b, n, body)


class State_:
    __slots__ = ('m', 'path')

    def __init__(self, m, path):
        self.m = m
        self.path = path

    def copy(self):
        return State_(dict(self.m), self.path)
