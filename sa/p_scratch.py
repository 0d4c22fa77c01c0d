"""C29: results do not depend on data left over in storage that is reused."""
import random
import time
from check import *
import p_image, p_filter, p_morph, p_transform, p_median, p_hist, p_color

BUFFERS = ('util::math::vector_mul_mut', 'util::math::apply_1d_kernel', 'util::math::apply_2d_kernel')
# operations that reuse storage from one pixel, row or column to the next
PARTS = (p_image.c03, p_image.c05, p_filter.c10, p_morph.c20, p_morph.c28, p_morph.c31, p_median.c32, p_median.c39, p_hist.c30, p_transform.c26, p_transform.c09, p_color.c24)


class Varied(evalr.Val):
    """a valuation that agrees with another one except for the samples outside a set"""

    def __init__(self, v, keep):
        evalr.Val.__init__(self, v.seed, v.dom)
        self.keep = keep

    def rng(self, *key):
        if outside(key, self.keep):
            return random.Random('%s|other|%r' % (self.seed, key))
        return evalr.Val.rng(self, *key)


def outside(key, keep):
    return isinstance(key[0], str) and (key[0].endswith('.data') or key[0].startswith('leftover')) and key not in keep


def touched(v, t, env, out, seen):
    """the samples the term may read under the valuation, whatever its conditions select"""
    k = (t, tuple(sorted((b.id, v.key(env[b])) for b in t.fb if b in env)))
    if k in seen:
        return
    seen.add(k)
    if len(seen) > 60000:
        raise evalr.Skip()
    if t.op == 'elem' and t.a[0].op == 'svar':
        touched(v, t.a[1], env, out, seen)
        try:
            out.add((t.a[0], v.ev(t.a[1], env)))
        except evalr.Undef:
            pass
        return
    if t.op in t_.BINDERS:
        if t.op not in ('gen', 'sum', 'exists', 'flatgen', 'foldmax', 'foldmin', 'first') or len(t.a) != 3:
            raise evalr.Skip()
        touched(v, t.a[1], env, out, seen)
        for i in range(v.nat(t.a[1], env)):
            touched(v, t.a[2], dict(env, **{}) | {t.a[0]: i}, out, seen)
        return
    if t.op == 'svar':
        for i in range(v.nat(t.a[1], env)):
            out.add((t, i))
        return

    def go(x):
        if isinstance(x, T):
            touched(v, x, env, out, seen)
        elif isinstance(x, tuple):
            for q in x:
                go(q)
    go(t.a)


def boxed(v, out):
    """the smallest block of pixels around the samples read, per image"""
    keep = set()
    by = {}
    for s, i in out:
        keep.add((s.a[0], i))
        by.setdefault(s, []).append(i)
    for s, ix in by.items():
        nm = s.a[0]
        if not nm.endswith('.data'):
            continue
        W, Ht = (v.ev(var(nm[:-5] + q, 'nat1'), {}) for q in ('.w', '.h'))
        C = v.nat(s.a[1], {}) // (W * Ht)
        if C < 1:
            continue
        xs, ys, cs = [i // C % W for i in ix], [i // C // W for i in ix], {i % C for i in ix}
        for y in range(min(ys), max(ys) + 1):
            for x in range(min(xs), max(xs) + 1):
                keep |= {(nm, (y * W + x) * C + c) for c in cs}
    return keep


def depends(x, y, pre, dom, seed, frees, tries):
    """two inputs that agree on everything y reads and for which x differs"""
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > min(4, evalr.CAP[0]):
            return None
        v = evalr.Val('%s.%d' % (seed, k), dom)
        try:
            env = {}
            for b, n in frees:
                m = v.nat(n, env)
                if m <= 0:
                    raise evalr.Skip()
                env[b] = v.rng('frees', b.id).randrange(m)
            if not all(v.ev(p, env) for p in pre):
                continue
            out = set()
            touched(v, y, env, out, set())
            u = Varied(v, boxed(v, out))
            if not all(u.ev(p, env) for p in pre):
                continue
            a, b = v.ev(x, env), u.ev(x, env)
            if isinstance(a, (evalr.Lazy, evalr.Agg)):
                a, b = evalr.deep(v, a), evalr.deep(u, b)
            if not v.same(a, b):
                return '%s or %s' % (evalr.describe(a), evalr.describe(b)), v, env
        except (evalr.Skip, evalr.Undef, RecursionError):
            continue
    return None


def variables(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'var':
                out.add(x)
            todo.extend(x.a)
    return out


def counts(c):
    """the condition compares a number of values"""
    if c.op == 'and' or c.op == 'or':
        return any(counts(x) for x in c.a)
    return c.op == 'not' and c.a[0].op == 'eq0'


class Local:
    """turns "the value is this formula" into "the value depends on nothing but what the formula reads" """

    def __init__(self, ctx):
        self.ctx = ctx
        self.sites = 0

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def image_eq(self, *a, **kw):
        return Ctx.image_eq(self, *a, **kw)

    def guard(self, name, fn):
        return Ctx.guard(self, name, fn)

    def add(self, name, status, site='', detail='', key=None):
        if status != 'violated':
            self.ctx.add(name, status, site, detail, key)

    def rule(self, *a, **kw):
        return True

    def never(self, name, cond, pre=(), dom=None, site='', key=None, tries=None):
        """a pixel buffer whose number of values is wrong only after earlier pixels were processed"""
        pre = tuple(pre)
        c = cond
        while c.op == 'exists':
            c = c.a[2]
        if 'panic' not in name or not counts(c):
            return True
        one = {v: ONE for v in variables(cond) if v.a[0].endswith(('.w', '.h'))}
        if not one:
            return True
        self.ctx.pace()
        s1 = t_.subst_vars(cond, one)
        if prove_eq(s1, FALSE, tuple(t_.subst_vars(p, one) for p in pre), self.ctx.depth):
            v = evalr.holds(cond, pre, dom, self.ctx.tries, self.ctx.seed)
            if v is not None:
                self.ctx.add('a pixel buffer starts empty: ' + name, 'violated', site, 'the number of values of a pixel depends on the pixels processed before it (never wrong in an image of one pixel): %s\n  at %s' % (
                    show(cond)[:700], evalr.valuation(v)), key)
                return False
        return True

    def events(self, *a, **kw):
        return True

    def eq(self, name, x, y, pre=(), dom=None, site='', frees=(), key=None):
        pre = tuple(pre)
        facts = pre + tuple(c for b, n in frees for c in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
        name = 'only the pixels it is defined by decide: ' + name
        if x is None:
            return None
        r = None
        if not self.ctx.pace():
            self.ctx.add(name, 'undecided', site, 'no time left')
            return None
        try:
            if x is y or dsimp(x, facts) is dsimp(y, facts):
                self.ctx.add(name, 'proved', site)
                return True
            r = depends(x, y, pre, dom, self.ctx.seed, frees, 6)
            if r is None and evalr.separate1(x, y, pre, dom, 6, '%s.first' % self.ctx.seed, frees, 0) in (None, 'NONE') and prove_eq(x, y, facts, self.ctx.depth):
                self.ctx.add(name, 'proved', site)
                return True
        except RecursionError:
            pass
        if r is None:
            r = depends(x, y, pre, dom, '%s.more' % self.ctx.seed, frees, self.ctx.tries)
        if r is None:
            self.ctx.add(name, 'undecided', site, 'not equal to the formula, but no dependence on other pixels found')
            return None
        what, v, env = r
        self.ctx.add(name, 'violated', site, 'the value in %s depends on pixels that do not belong to it: %s for inputs that agree on them\n  at %s%s\n  code: %s' % (
            site, what, evalr.valuation(v), ''.join(', index=%s' % q for q in env.values()), show(x)[:900]), key)
        return False


def c29(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        w = ctx.world(cfg)
        for fn in BUFFERS:
            def junk(fn=fn):
                try:
                    b = w.bodies[find(w, fn)]
                except Exception:
                    return
                names = {pl[0]: nm for nm, pl in b['names'] if not pl[1]}
                out = [i for i in range(1, b['argc'] + 1) if names.get(i) == 'output']
                if not out:
                    return
                res = []
                for q in range(2):
                    H = ctx.har(cfg)
                    k = var('half', 'u8')
                    s = add(scale(k, 2), ONE)
                    old = svar('leftover%d' % q, var('left%d' % q, 'u16'), 'real')
                    a = {}
                    for i in range(1, b['argc'] + 1):
                        nm = names.get(i)
                        if nm == 'output':
                            a['a%d' % i] = H.cell(old, 'output')
                        elif nm == 'mat':
                            a['a%d' % i] = svar('mat', mul(s, s), 'real')
                        elif nm == 'kernel':
                            a['a%d' % i] = svar('kernel', mul(s, s) if '2d' in fn else s, 'real')
                        elif 'vector' in fn:
                            a['a%d' % i] = svar('vec', s, 'real')
                        else:
                            a['a%d' % i] = H.subimage('sub', 'real', s, s if '2d' in fn else ONE)
                    r = H.call(fn, (), **a)
                    res.append((r, H.out('output'), H))
                i = var('i', 'u32')
                (r1, o1, H1), (r2, o2, H2) = res
                n = length(o1)
                ctx.eq('%s leaves the same number of values whatever its buffer held%s' % (short(fn), tag), n, length(o2), (), p_filter.HALF, fn)
                ctx.eq('%s leaves the same values whatever its buffer held%s' % (short(fn), tag), elem(o1, i), elem(o2, i), (le0i(sub(add(i, ONE), n)),), p_filter.HALF, fn)
                ctx.note_run(H1)
            ctx.guard(short(fn) + tag, junk)
        def table():
            H = ctx.har(cfg)
            i = var('i', 'u8')
            H.call('util::generate_lookup_table', a1=H.cell(svar('leftover.table', num(256), 'real'), 'table'), a2=H.fn('f'))
            o = H.out('table')
            ctx.eq('generate_lookup_table fills its whole table' + tag, elem(o, i), mk('app', 'f', 'real', i), (), None, 'util::generate_lookup_table')
            ctx.note_run(H)
        ctx.guard('generate_lookup_table' + tag, table)

        def hist():
            fn = 'util::generate_histogram_percentiles'
            res = []
            pr, key = var('prec', 'real'), var('key', 'i32')
            pre = (le0r(neg(pr)),)
            dom = {'prec': lambda q: q.choice([0, 1, 2, 4]), 'key': lambda q: q.randint(-2, 4), 'img.data*': lambda q: q.choice([0, 1, 2, 3])}
            for q in range(2):
                H = ctx.har(cfg)
                im = H.image('img', 'real')
                # the map already holds some value for every key, or nothing
                H.call(fn, pre, a1=im, a2=mk('agg', 'map', 0, TRUE if q else FALSE, var('leftover', 'real') if q else ZERO), a3=pr)
                out = H.out('a2')
                if out.op != 'agg' or out.a[0] != 'map':
                    raise Stuck('the percentiles are not a map in closed form')
                res.append([t_.map_at(out.a[2], key), t_.map_at(out.a[3], key)])
                ctx.note_run(H)
            (h0, v0), (h1, v1) = res
            ctx.eq('the percentile of an intensity of the image does not depend on what the map held' + tag, mk_ite(h0, v1, ZERO), mk_ite(h0, v0, ZERO), pre, dom, fn)
        ctx.guard('generate_histogram_percentiles' + tag, hist)
    each(ctx, one, ['filter_1d', 'rotate', 'linear_filter', 'generate_lookup_table', 'generate_histogram_percentiles'])
    lo = Local(ctx)
    for f in PARTS:
        n = len(ctx.obl)
        f(lo)
        if f is p_morph.c31 and any(o['status'] != 'proved' for o in ctx.obl[n:]):
            ctx.guard('bilateral pixel', lambda: bilateral(ctx))


def bilateral(ctx):
    """the filter is not shown to be independent of what its pixel buffer holds: is its step?"""
    fn = 'filter::bilateral::bilateral_direct_pixel'
    w = ctx.world('none')
    b = w.bodies[find(w, fn)]
    names = {pl[0]: nm for nm, pl in b['names'] if not pl[1]}
    if 'output' not in names.values():
        return
    res = []
    for q in range(2):
        H = ctx.har('none')
        im = H.image('img', 'real')
        W, Ht, C, A, D = img_parts(im)
        k = var('half', 'u8')
        s = add(scale(k, 2), ONE)
        x, y = var('x', 'u32'), var('y', 'u32')
        pre = (le0i(sub(add(x, ONE), W)), le0i(sub(add(y, ONE), Ht)))
        val = {'input': im, 'output': H.cell(svar('leftover%d' % q, var('left%d' % q, 'u16'), 'real'), 'output'), 'range': var('range', 'real'),
               'spatial_mat': svar('mat', mul(s, s), 'real'), 'size': s, 'x': x, 'y': y}
        H.call(fn, pre, **{'a%d' % i: val[names[i]] for i in range(1, b['argc'] + 1)})
        res.append(H.out('output'))
    o1, o2 = res
    ctx.eq('the bilateral filter starts every pixel from an emptied buffer', length(o1), length(o2), pre, p_filter.HALF, fn)


PROPS = {
    'C29': (c29, 'proof', 'Helpers that fill storage supplied by the caller are interpreted twice with different previous contents and must deliver the same values. For every operation that reuses storage between pixels or rows '
            'the value graph of a result must be a formula over the samples that belong to it; a graph that is not is searched for two inputs that agree on those samples and give different results.'),
}
