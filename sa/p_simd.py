"""C13, C14: the vectorised code computes what the scalar code computes, and stays inside its buffers."""
from fractions import Fraction
from check import *
from rules import *
from harn import IMAGE

BIAS = var('bias', 'i16')
BRANGE = (le0i(sub(num(-255), BIAS)), le0i(sub(BIAS, num(255))))
AVX = var('avx2', 'bool')
DOM = {'img.w': lambda q: q.choice([1, 2, 3, 5, 6, 7, 8, 9, 11]), 'img.h': lambda q: q.choice([1, 1, 2, 3, 4, 5]), 'img.c': lambda q: q.randint(1, 6),
       'bias': lambda q: q.choice([-255, -254, -129, -128, -127, -1, 0, 1, 60, 127, 128, 129, 254, 255])}


def undefined(t):
    """the condition under which the value of t is undefined"""
    if t.op == 'undef':
        return TRUE
    if t.op == 'ite':
        c, x, y = t.a
        return mk_or(mk_and(c, undefined(x)), mk_and(mk_not(c), undefined(y)))
    if t.op in t_.BINDERS or t.op in ('fold', 'scatter', 'filt'):
        return FALSE
    if t.op == 'poly':
        return mk_or(*[undefined(x) for m, _ in t.a[0] for x, e in m])
    return mk_or(*[undefined(x) for x in t.a if isinstance(x, t_.T)])


def shapes(four):
    c = var('img.c', 'chan')
    if four:
        return (('3 channels', num(3), FALSE, ()), ('4 channels with alpha', num(4), TRUE, ()))
    return (('no alpha', None, FALSE, ()), ('4 channels with alpha', num(4), TRUE, ()),
            ('alpha, other channel counts', None, TRUE, (mk_not(mk_eq(c, num(4))),)))


def pixels(ctx, name, d1, d2, W, H, C, pre, site):
    """the two buffers hold the same W*H*C values"""
    ctx.eq(name + ': same number of bytes', length(d1), length(d2), pre, DOM, site)
    ctx.eq(name + ': one byte per sample', length(d1), mul(W, H, C), pre, DOM, site)
    n = mul(W, H)
    cs = [num(k) for k in range(C.a[0])] if C.op == 'num' else [fresh_bv(C)]
    for c in cs:
        p = fresh_bv(n)
        fr = ((p, n),) + (((c, C),) if c.op != 'num' else ())
        facts = tuple(pre) + tuple(q for b, m in fr for q in (le0i(neg(b)), le0i(sub(add(b, ONE), m))))
        j = add(mul(p, C), c)
        ctx.eq('%s: byte %s of every pixel' % (name, c.a[0] if c.op == 'num' else 'c'), elem(d1, j, facts), elem(d2, j, facts), pre, DOM, site, fr)


def both(ctx, cfg, fn, C, A, pre, setup=None, **kw):
    """(result, run) with the CPU feature present and absent"""
    out = []
    for f in (AVX, mk_not(AVX)):
        H = ctx.har(cfg)
        im = H.image('img', 'u8', C=C, A=A)
        log = setup(H, im) if setup else None
        pr = tuple(pre) + (f,)
        r = H.call(fn, pr, a1=im, **kw)
        ctx.note_run(H)
        out.append((H, im, dsimp(r, pr), pr, log))
    return out


def c13(ctx):
    def bright(cfg, label, C, A, extra):
        nm = 'brightness (%s)@%s' % (label, cfg)

        def g():
            (H1, im, r1, p1, _), (H2, _, r2, p2, _) = both(ctx, cfg, 'tone::brightness', C, A, BRANGE + extra, a2=BIAS)
            W, Ht, C_, A_, D = img_parts(im)
            i1, i2 = unwrap(r1), unwrap(r2)
            for q, what in enumerate(('width', 'height', 'channels', 'alpha')):
                ctx.eq('%s: same %s' % (nm, what), field(field(i1, 0), q), field(field(i2, 0), q), BRANGE + extra, DOM, 'brightness')
            ctx.never(nm + ': no panic with AVX2', mk_or(*[e.formula() for e in panics(H1)]), p1, DOM, 'brightness')
            pixels(ctx, nm, field(i1, 1), field(i2, 1), W, Ht, C_, BRANGE + extra, 'simd::adds_256_u8')
        ctx.guard(nm, g)

    def sat(cfg, label, C, A, extra):
        nm = 'saturation (%s)@%s' % (label, cfg)

        def g():
            def setup(H, im):
                W, Ht, C_, A_, D = img_parts(im)
                seen = []
                hsv = H.image('hsv', 'u8', W=W, H=Ht, C=C_, A=A_)

                def enc(I, a, st):
                    return hsv

                def dec(I, a, st):
                    v = I.snapshot(st, a[0])
                    seen.append(v)
                    return v
                H.override('rgb_to_hsv', enc)
                H.override('hsv_to_rgb', dec)
                return seen
            (H1, im, r1, p1, l1), (H2, _, r2, p2, l2) = both(ctx, cfg, 'tone::saturation', C, A, BRANGE + extra, setup, a2=BIAS)
            W, Ht, C_, A_, D = img_parts(im)
            i1, i2 = unwrap(r1), unwrap(r2)
            for q, what in enumerate(('width', 'height', 'channels', 'alpha')):
                ctx.eq('%s: same %s' % (nm, what), field(field(i1, 0), q), field(field(i2, 0), q), BRANGE + extra, DOM, 'saturation')
            ctx.never(nm + ': no panic with AVX2', mk_or(*[e.formula() for e in panics(H1)]), p1, DOM, 'saturation')
            pixels(ctx, nm, field(i1, 1), field(i2, 1), W, Ht, C_, BRANGE + extra, 'simd::adds_n_256_u8')
        ctx.guard(nm, g)

    def gray(cfg, C, A):
        nm = 'rgb_to_grayscale (%d channels)@%s' % (C, cfg)

        def g():
            H = ctx.har(cfg)
            im = H.image('img', 'u8', C=num(C), A=A)
            r = dsimp(H.call('rgb_to_grayscale', (AVX,), a1=im), (AVX,))
            ctx.note_run(H)
            W, Ht, C_, A_, D = img_parts(im)
            d = field(r, 1)
            n = mul(W, Ht)
            k = 2 if A is TRUE else 1
            ctx.eq(nm + ': one pixel per pixel', length(d), scale(n, k), (), DOM, 'rgb_to_grayscale')
            for q, what, want in ((0, 'width', W), (1, 'height', Ht), (2, 'channels', num(k)), (3, 'alpha', A)):
                ctx.eq('%s: %s' % (nm, what), field(field(r, 0), q), want, (), DOM, 'rgb_to_grayscale')
            ctx.never(nm + ': no panic with AVX2', mk_or(*[e.formula() for e in panics(H)]), (AVX,), DOM, 'rgb_to_grayscale')
            p = fresh_bv(n)
            fr = ((p, n),)
            facts = tuple(q for b, m in fr for q in (le0i(neg(b)), le0i(sub(add(b, ONE), m))))
            v = elem(d, scale(p, k), facts)
            ch = [elem(D, add(scale(p, C), num(i)), facts) for i in range(3)]
            lo, hi = mk_min(*ch), mk_max(*ch)
            m, M = var('m', 'u8'), var('M', 'u8')
            mean = scale(add(*ch), Fraction(1, 3))

            def below(what, x, y, xs, ys):
                # x <= y, where xs <= ys are the same with m (M) for the smallest (largest) channel
                ms = facts + tuple(le0i(sub(m, x)) for x in ch) + tuple(le0i(sub(x, M)) for x in ch)
                if prove_le0(sub(dsimp(xs, ms), dsimp(ys, ms)), ms, 20):
                    ctx.add('%s: %s' % (nm, what), 'proved', 'simd')
                else:
                    ctx.never('%s: %s' % (nm, what), mk_exists(p, n, lt0r(sub(y, x))), (), DOM, 'simd')
            slack, sl = add(scale(sub(hi, lo), Fraction(1, 6)), ONE), add(scale(sub(M, m), Fraction(1, 6)), ONE)
            u = undefined(v)
            if u is not FALSE:
                ctx.never('%s: every byte is written from pixels' % nm, mk_exists(p, n, u), (), DOM, 'simd')
            below('not below the smallest colour channel', lo, v, m, v)
            below('not above the largest colour channel', v, hi, v, M)
            below('not far above the mean', v, add(mean, slack), v, add(mean, sl))
            below('not far below the mean', sub(mean, slack), v, sub(mean, sl), v)
            if k == 2:
                ctx.eq(nm + ': alpha', elem(d, add(scale(p, 2), ONE), facts), elem(D, add(scale(p, 4), num(3)), facts), (), DOM, 'simd', fr)
        ctx.guard(nm, g)

    def grayn(cfg, A):
        # the approximation is only written for three colour channels: anything else is the exact mean
        nm = 'rgb_to_grayscale (not 3 color channels%s)@%s' % (', alpha' if A is TRUE else '', cfg)

        def g():
            nc = 4 if A is TRUE else 3
            c = var('img.c', 'chan')
            extra = (mk_not(mk_eq(c, num(nc))), le0i(sub(num(2 if A is TRUE else 1), c)))
            (H1, im, r1, p1, _), (H2, _, r2, p2, _) = both(ctx, cfg, 'rgb_to_grayscale', None, A, extra)
            W, Ht, C_, A_, D = img_parts(im)
            for q, what in enumerate(('width', 'height', 'channels', 'alpha')):
                ctx.eq('%s: same %s' % (nm, what), field(field(r1, 0), q), field(field(r2, 0), q), extra, DOM, 'rgb_to_grayscale')
            d1, d2 = field(r1, 1), field(r2, 1)
            ctx.eq(nm + ': same number of bytes', length(d1), length(d2), extra, DOM, 'rgb_to_grayscale')
            n = length(d2)
            p = fresh_bv(n)
            fr = ((p, n),)
            facts = extra + tuple(q for b, m in fr for q in (le0i(neg(b)), le0i(sub(add(b, ONE), m))))
            ctx.eq(nm + ': same bytes', elem(d1, p, facts), elem(d2, p, facts), extra, DOM, 'rgb_to_grayscale', fr)
        ctx.guard(nm, g)

    for cfg in ('simd',) + (('simdpar',) if ctx.tier != 'quick' else ()):
        grayn(cfg, FALSE)
        grayn(cfg, TRUE)
        for s in shapes(False):
            bright(cfg, *s)
        for s in shapes(True):
            sat(cfg, *s)
        gray(cfg, 3, FALSE)
        gray(cfg, 4, TRUE)


# ------------------------------------------------------------------ C14
VALUE_ONLY = ('core::fmt::',)


def unsafe_sites(w):
    """{function: [(callee or operation, line)]}: operations only unsafe code may perform"""
    out = {}
    for k, b in w.bodies.items():
        ls = []
        raw = {i for i, t in enumerate(b['locals']) if t.get('k') in ('rawptr', 'ptr')}

        def places(x):
            if isinstance(x, dict):
                for y in x.values():
                    places(y)
            elif isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] in raw and x[1] and (x[1][0] == 'deref' or (isinstance(x[1][0], dict) and x[1][0].get('e') == 'deref')):
                    ls.append(('dereference of a raw pointer', ''))
                for y in x:
                    places(y)
        for bl in b['blocks']:
            places(bl)
        for f, t, i in calls(b):
            if f.get('unsafe') and not any(target(f).startswith(v) or f['path'].startswith(v) for v in VALUE_ONLY):
                ls.append((target(f), t.get('line', '')))
        if ls:
            out[k] = ls
    return out


def entries(w, sites):
    """the innermost safe functions around the unsafe operations: those a caller may use with any arguments"""
    callers = {}
    for k in w.bodies:
        for c in callees(w, k):
            callers.setdefault(c, set()).add(k)
    out, seen, work = set(), set(), list(sites)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        b = w.bodies[k]
        if b['kind'] == 'fn' and not b.get('unsafe') and (b.get('pub') or b.get('trait')):
            out.add(k)
        else:
            work += list(callers.get(k, ()))
    return out, seen


def cases(c):
    """c split on its boolean variables, with variables fixed by an equation replaced by their value"""
    bs = sorted({v for v in t_.subterms(c) if v.op == 'var' and v.a[1] == 'bool'}, key=lambda v: v.a[0])[:4]
    cs = [c]
    for v in bs:
        cs = [mk_and(q, subst_vars(x, {v: k})) for x in cs for k, q in ((TRUE, v), (FALSE, mk_not(v)))]
    out = []
    for x in cs:
        for _ in range(4):
            hit = None
            for l in (x.a if x.op == 'and' else (x,)):
                if l.op == 'eq0':
                    for v in t_.subterms(l.a[0]):
                        ab = t_._coef(t_.pdict(l.a[0]), v) if v.op == 'var' else None
                        if ab and ab[0] in (ONE, num(-1)):
                            hit = (v, neg(ab[1]) if ab[0] is ONE else ab[1], l)
            if not hit:
                break
            v, y, l = hit
            # the equation stays, so the result is exactly x
            rest = mk_and(*[subst_vars(q, {v: y}) for q in x.a if q is not l]) if x.op == 'and' else TRUE
            x = mk_and(mk_eq(v, y), rest) if rest is not FALSE else FALSE
            break
        out.append(x)
    return out


def c14(ctx):
    def one(cfg):
        w = ctx.world(cfg)
        sites = unsafe_sites(w)
        ents, seen = entries(w, sites)
        ctx.stats['unsafe_operations@' + cfg] = sum(map(len, sites.values()))
        ctx.stats['safe_entries@' + cfg] = sorted(map(short, ents))
        ctx.analysed |= set(sites)
        covered = set()
        for k in sorted(ents):
            ctx.guard('%s@%s stays inside its buffers' % (short(k), cfg), lambda k=k: entry(cfg, w, k, covered))
        for k in sorted(sites):
            nm = '%s: unsafe code is reached from the analysed entries@%s' % (short(k), cfg)
            b = w.bodies[k]
            if k in covered:
                ctx.add(nm, 'proved', short(k))
            elif not any(k in reach(w, [e])[0] for e in ents):
                ctx.add(nm, 'holds', short(k), 'no safe function reaches it')
            else:
                ctx.add(nm, 'undecided', short(k), 'not entered by the analysis')

    def entry(cfg, w, k, covered):
        env = {'T': 'u8', 'S': 'u8'}
        H = ctx.har(cfg, **env)
        im0 = H.image

        def image(name, ety='real', **kw):
            if kw.get('data') is None:
                kw['data'] = svar(name + '.data', var(name + '.len', 'usize'), ety)
            return im0(name, ety, **kw)
        H.image = image
        H.call(k)
        ctx.note_run(H)
        covered |= set(H.I.inlined) | {k}
        dom = dict(DOM)
        for i in range(2, 5):
            dom['a%d' % i] = lambda q: q.choice([-255, -128, -1, 0, 1, 2, 3, 7, 100, 255])
        for i in range(1, 5):
            dom['a%d.w' % i] = lambda q: q.choice([1, 2, 3, 5, 8, 11, 20, 30, 31, 40, 62, 63, q.randint(1, 70)])
            dom['a%d.h' % i] = lambda q: q.choice([1, 1, 2, 3, 4])
            dom['a%d.c' % i] = lambda q: q.randint(1, 6)
            dom['a%d.len' % i] = lambda q: q.choice([0, 1, 30, 31, 32, 33, 60, 64, 96, 127, 128, 200, 480])
        grp = {}
        for m in H.I.mem:
            ctx.sites += 1
            ctx.stats['memory_accesses'] = ctx.stats.get('memory_accesses', 0) + 1
            grp.setdefault((short(m.site[0]), m.kind), []).append(m)
        for (site, kind), ms in sorted(grp.items()):
            nm = '%s: %s in %s@%s' % (short(k), kind, site, cfg)
            for m in ms:
                if kind.endswith('?') or m.base.op == 'opaque':
                    ctx.add(nm, 'undecided', site, 'the allocation behind the pointer is not known')
                    continue
                bad = mk_and(m.guard, mk_or(mk_not(le0i(neg(m.off))), mk_not(le0i(sub(add(m.off, m.n), m.base)))))
                for b, n in reversed(m.binders):
                    bad = mk_exists(b, n, bad)
                bad = mk_or(*cases(bad))
                if dsimp(bad, ()) is not FALSE:
                    # among the counterexamples to look for: buffers that are exactly long enough
                    ls = [x for x in t_.subterms(bad) if x.op == 'var' and x.a[0].endswith('.len')]
                    for x in ls:
                        v = x.a[0][:-4]
                        exact = mul(*[q for q in t_.subterms(bad) if q.op == 'var' and q.a[0] in (v + '.w', v + '.h', v + '.c')])
                        bad = mk_or(bad, subst_vars(bad, {x: exact}))
                ctx.never('%s is inside the allocation' % nm, bad, (), dom, site, key='%s:%s' % (site, kind), tries=1000)

    for cfg in ('simd', 'none', 'par') + (('simdpar',) if ctx.tier != 'quick' else ()):
        ctx.guard('unsafe code@' + cfg, lambda cfg=cfg: one(cfg))


PROPS = {
    'C13': (c13, 'proof', 'For brightness, saturation and the grayscale conversion the value graph of the vectorised implementation (AVX2 intrinsics given their lane-wise meaning; overlapping block '
            'stores resolved to the last writer) is computed for every image size and compared, sample by sample, with the value graph of the scalar implementation selected when the CPU feature is absent.'),
    'C14': (c14, 'proof', 'Every unsafe operation of the crate is listed from the MIR; the innermost safe functions around them are interpreted with images whose shape, channel count and buffer length are independent, '
            'and every raw access on every path must satisfy 0 <= offset and offset + width <= length of the allocation it is derived from.'),
}
