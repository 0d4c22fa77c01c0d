"""C10, C11, C20, C21, C28, C31: filters, kernels, morphology, thresholding, summed-area tables."""
from check import *
from terms import MONE


def conv1(W, H, C, D, ker, k, vert):
    """the 1-D kernel sum of length 2k+1 around (x, y)"""
    s = add(scale(k, 2), ONE)

    def f(x, y, c):
        b = fresh_bv(s)
        if vert:
            p = px(W, C, x, clampi(sub(add(y, b), k), H), c)
        else:
            p = px(W, C, clampi(sub(add(x, b), k), W), y, c)
        return mk_sum(b, s, mul(elem(ker, b), elem(D, p)))
    return f


def conv2(W, H, C, D, ker, k):
    s = add(scale(k, 2), ONE)

    def f(x, y, c):
        bj, bi = fresh_bv(s), fresh_bv(s)
        p = px(W, C, clampi(sub(add(x, bi), k), W), clampi(sub(add(y, bj), k), H), c)
        return mk_sum(bj, s, mk_sum(bi, s, mul(elem(ker, add(mul(bj, s), bi)), elem(D, p))))
    return f


HALF = {'half': lambda q: q.randint(0, 2)}


def okimg(ctx, name, H, r, W, Ht, C, A, f, pre=(), dom=None, site=''):
    """r is Ok(image with channel f) and nothing panics"""
    ctx.never(name + ' is accepted', is_err(r), pre, dom, site)
    ctx.image_eq(name, unwrap(r), W, Ht, C, A, f, pre, dom, site)
    for e in panics(H):
        ctx.sites += 1
        ctx.never('%s never panics: %s in %s' % (name, e.kind, short(e.site[0])), e.formula(), pre, dom, site)
    ctx.note_run(H)


def c10(ctx):
    names = ['filter_1d', 'separable_filter', 'unseparable_filter', 'linear_filter', 'box_filter', 'weighted_avg_filter', 'gaussian_blur', 'sharpen',
             'unsharp_masking', 'derivative_mask', 'prewitt', 'sobel', 'sobel_weighted', 'laplacian', 'laplacian_of_gaussian']
    k = var('half', 'u8')
    s = add(scale(k, 2), ONE)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for vert in (True, False):
            def g(vert=vert):
                H = ctx.har(cfg)
                ker = svar('kernel', s, 'real')
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                r = H.call('filter_1d', a1=im, a2=ker, a3=TRUE if vert else FALSE)
                okimg(ctx, 'filter_1d(%s)%s' % ('vertical' if vert else 'horizontal', tag), H, r, W, Ht, C, A, conv1(W, Ht, C, D, ker, k, vert), (), HALF, 'filter::filter_1d')
            ctx.guard('filter_1d' + tag, g)

        def unsep():
            H = ctx.har(cfg)
            ker = svar('kernel', mul(s, s), 'real')
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('unseparable_filter', a1=im, a2=ker)
            okimg(ctx, 'unseparable_filter' + tag, H, r, W, Ht, C, A, conv2(W, Ht, C, D, ker, k), (), HALF, 'filter::unseparable_filter')
        ctx.guard('unseparable_filter' + tag, unsep)

        def sep():
            H = ctx.har(cfg)
            v, h = svar('vkernel', s, 'real'), svar('hkernel', s, 'real')
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('separable_filter', a1=im, a2=v, a3=h)
            f1 = conv1(W, Ht, C, D, v, k, True)
            mid = field(spec_image(W, Ht, C, A, f1), 1)
            okimg(ctx, 'separable_filter' + tag, H, r, W, Ht, C, A, conv1(W, Ht, C, mid, h, k, False), (), HALF, 'filter::separable_filter')
        ctx.guard('separable_filter' + tag, sep)

        def lin():
            for sep in (True, False):
                H = ctx.har(cfg)
                ker = svar('kernel', mul(s, s), 'real')
                v, h = svar('vkernel', s, 'real'), svar('hkernel', s, 'real')
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                seen = []

                def sepk(I, args, st):
                    seen.append(I.snapshot(st, args[0]))
                    return some(tup(v, h)) if sep else NONE
                H.override('util::math::separate_kernel', sepk)
                r = H.call('linear_filter', a1=im, a2=ker)
                nm = 'linear_filter(%s kernel)%s' % ('separable' if sep else 'inseparable', tag)
                if not seen:
                    ctx.add(nm, 'undecided', 'filter::linear_filter', 'does not call separate_kernel')
                    continue
                for q in seen:
                    ctx.eq(nm + ' separates its kernel', q, ker, (), HALF, 'filter::linear_filter')
                if sep:
                    mid = field(spec_image(W, Ht, C, A, conv1(W, Ht, C, D, v, k, True)), 1)
                    f = conv1(W, Ht, C, mid, h, k, False)
                else:
                    f = conv2(W, Ht, C, D, ker, k)
                okimg(ctx, nm, H, r, W, Ht, C, A, f, (), HALF, 'filter::linear_filter')
        ctx.guard('linear_filter' + tag, lin)

        def named(nm, ker, k0, **kw):
            def g():
                H = ctx.har(cfg)
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                r = H.call(nm, a1=im, **kw)
                K = mk('lit', *[num(Fraction(x)) for x in ker])
                okimg(ctx, nm + tag, H, r, W, Ht, C, A, conv2(W, Ht, C, D, K, num(k0)), (), None, nm)
            ctx.guard(nm + tag, g)
        g5 = [1, 4, 6, 4, 1]
        named('sharpen', [0, -1, 0, -1, 5, -1, 0, -1, 0], 1)
        named('unsharp_masking', [Fraction(-g5[i] * g5[j], 256) + (2 if i == j == 2 else 0) for i in range(5) for j in range(5)], 2)
        named('laplacian', [0, -1, 0, -1, 4, -1, 0, -1, 0], 1)

        def box():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('box_filter', a1=im, a2=s)
            ker = mk_fill(inv(s), s)
            mid = field(spec_image(W, Ht, C, A, conv1(W, Ht, C, D, ker, k, True)), 1)
            okimg(ctx, 'box_filter' + tag, H, r, W, Ht, C, A, conv1(W, Ht, C, mid, ker, k, False), (), HALF, 'filter::box_filter')
        ctx.guard('box_filter' + tag, box)

        def wavg():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            wt = var('weight', 'u16')
            r = H.call('weighted_avg_filter', a1=im, a2=s, a3=wt)
            tot = add(mul(s, s), wt, num(-1))
            n = mul(s, s)
            b = fresh_bv(n)
            mid = add(mul(k, s), k)
            ker = mk_gen(b, n, mk_ite(mk_eq(b, mid), mul(wt, inv(tot)), inv(tot)))
            okimg(ctx, 'weighted_avg_filter' + tag, H, r, W, Ht, C, A, conv2(W, Ht, C, D, ker, k), (le0i(sub(ONE, tot)),), HALF, 'filter::weighted_avg_filter')
        ctx.guard('weighted_avg_filter' + tag, wavg)

        def gen(nm, gname, args):
            def g():
                H = ctx.har(cfg)
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                ker = svar('kernel', mul(s, s), 'real')
                sg = var('sigma', 'real')
                seen = []

                def gk(I, a, st):
                    seen.append(tup(*[I.snapshot(st, x) for x in a]))
                    return agg('core::result::Result', 0, ker)
                H.override(gname, gk)
                sk = []

                def sepk(I, a, st):
                    sk.append(1)
                    return NONE
                H.override('util::math::separate_kernel', sepk)
                r = H.call(nm, a1=im, a2=s, a3=sg)
                if not seen:
                    ctx.add(nm + tag, 'undecided', nm, 'does not call ' + gname)
                    return
                for q in seen:
                    ctx.eq(nm + tag + ' generates its kernel from its size and sigma', q, tup(s, sg), (), HALF, nm)
                okimg(ctx, nm + tag, H, r, W, Ht, C, A, conv2(W, Ht, C, D, ker, k), (), HALF, nm)
            ctx.guard(nm + tag, g)
        gen('gaussian_blur', 'util::generate_gaussian_kernel', None)
        gen('laplacian_of_gaussian', 'util::generate_log_kernel', None)

        def deriv():
            def mag(W, Ht, C, A, D, v, h, k_):
                def two(a, b):
                    mid = field(spec_image(W, Ht, C, A, conv1(W, Ht, C, D, a, k_, True)), 1)
                    return conv1(W, Ht, C, mid, b, k_, False)
                fx, fy = two(v, h), two(h, v)
                return lambda x, y, c: t_.mk_fn('sqrt', add(t_.power(fx(x, y, c), 2), t_.power(fy(x, y, c), 2)))
            wt = var('weight', 'u16')
            L = lambda *x: mk('lit', *[q if isinstance(q, T) else num(q) for q in x])
            for nm, kw, v, h, k_ in (('derivative_mask', {'a2': svar('vkernel', s, 'real'), 'a3': svar('hkernel', s, 'real')}, svar('vkernel', s, 'real'), svar('hkernel', s, 'real'), k),
                                     ('prewitt', {}, L(1, 1, 1), L(-1, 0, 1), ONE),
                                     ('sobel', {}, L(1, 2, 1), L(-1, 0, 1), ONE),
                                     ('sobel_weighted', {'a2': wt}, L(1, wt, 1), L(-1, 0, 1), ONE)):
                for C, A, lb in ((ONE, FALSE, ''), (num(2), TRUE, ' (gray+alpha)')):
                    H = ctx.har(cfg)
                    im = H.image('img', 'real', C=C, A=A)
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call(nm, a1=im, **kw)
                    m = mag(W, Ht, C, A, D, v, h, k_)
                    okimg(ctx, nm + lb + tag, H, r, W, Ht, C, A,
                          (lambda x, y, c: mk_ite(mk_eq(c, ONE), elem(D, px(W, C, x, y, c)), m(x, y, c))) if A is TRUE else m, (), HALF, nm)
        ctx.guard('derivative masks' + tag, deriv)
    each(ctx, one, names)


# ------------------------------------------------------------------ C11
def table(ctx, w, name):
    """entries of a constant table of the crate, as exact fractions"""
    for k, g in w.globals.items():
        if k.split('::')[-1] == name:
            v = g['v']['val']
            out = []

            def go(x):
                if 'arr' in x:
                    for y in x['arr']:
                        go(y)
                else:
                    out.append(Fraction(x.get('f32', x.get('f64', x.get('int')))))
            go(v)
            return out
    raise Missing('constant ' + name)


def near(a, b, tol=Fraction(1, 10 ** 6)):
    return abs(Fraction(a) - Fraction(b)) <= tol


def c11(ctx):
    w = ctx.world('none')
    ctx.analysed |= {k for k in w.globals if '::K_' in k}

    def tables():
        for nm, want in (('K_GAUSSIAN_BLUR_2D_3', 1), ('K_GAUSSIAN_BLUR_2D_5', 1), ('K_GAUSSIAN_BLUR_1D_3', 1), ('K_GAUSSIAN_BLUR_1D_5', 1),
                         ('K_SHARPEN', 1), ('K_UNSHARP_MASKING', 1), ('K_LAPLACIAN', 0), ('K_SOBEL_1D_HORZ', 0), ('K_PREWITT_1D_HORZ', 0)):
            v = table(ctx, w, nm)
            ctx.rule('%s sums to %d' % (nm, want), near(sum(v), want), nm, 'the entries of %s sum to %s' % (nm, float(sum(v))))
        for d2, d1 in (('K_GAUSSIAN_BLUR_2D_3', 'K_GAUSSIAN_BLUR_1D_3'), ('K_GAUSSIAN_BLUR_2D_5', 'K_GAUSSIAN_BLUR_1D_5')):
            a, b = table(ctx, w, d2), table(ctx, w, d1)
            n = len(b)
            ok = len(a) == n * n and all(near(a[i * n + j], b[i] * b[j]) for i in range(n) for j in range(n))
            ctx.rule('%s is the outer product of %s' % (d2, d1), ok, d2, '%s is not the outer product of %s with itself' % (d2, d1))
            ctx.rule('%s is symmetric and peaks in its centre' % d1, b == b[::-1] and max(b) == b[n // 2], d1)
        g = table(ctx, w, 'K_GAUSSIAN_BLUR_2D_5')
        u = table(ctx, w, 'K_UNSHARP_MASKING')
        ctx.rule('unsharp masking is twice the identity minus the Gaussian', len(u) == 25 and all(near(u[i], (2 if i == 12 else 0) - g[i]) for i in range(25)), 'K_UNSHARP_MASKING')
        lp = table(ctx, w, 'K_LAPLACIAN')
        sh = table(ctx, w, 'K_SHARPEN')
        ctx.rule('the Laplacian is the negated 4-neighbour second difference', lp == [0, -1, 0, -1, 4, -1, 0, -1, 0], 'K_LAPLACIAN')
        ctx.rule('sharpening is the identity plus the Laplacian', len(sh) == 9 and all(sh[i] == lp[i] + (i == 4) for i in range(9)), 'K_SHARPEN')
        for nm, h, v in (('Sobel', 'K_SOBEL_1D_HORZ', 'K_SOBEL_1D_VERT'), ('Prewitt', 'K_PREWITT_1D_HORZ', 'K_PREWITT_1D_VERT')):
            h, v = table(ctx, w, h), table(ctx, w, v)
            ctx.rule(nm + ' derivative part is antisymmetric', h == [-x for x in h[::-1]] and any(h), nm)
            ctx.rule(nm + ' smoothing part is symmetric and positive', v == v[::-1] and min(v) > 0, nm)
            ctx.rule(nm + ' mask is the documented one', h == [-1, 0, 1] and v == ([1, 2, 1] if nm == 'Sobel' else [1, 1, 1]), nm)
    ctx.guard('tables', tables)

    PI = num(Fraction('3.1415927'))
    sg = var('sigma', 'real')
    pos = (mk_not(le0r(sg)),)

    def entry(kind, r2):
        e = scale(mul(num(r2), t_.power(inv(sg), 2)), Fraction(-1, 2))
        g = t_.mk_fn('exp', e)
        if kind == 'log':
            return mul(num(-1), inv(mul(PI, t_.power(sg, 4))), add(ONE, e), g)
        return mul(inv(mul(num(2), PI, t_.power(sg, 2))), g)
    sizes = (1, 3, 5, 7, 9) if ctx.tier == 'quick' else (1, 3, 5, 7, 9, 11, 13)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for nm, kind in (('generate_gaussian_kernel', 'gauss'), ('generate_log_kernel', 'log'), ('generate_spatial_mat', 'gauss')):
            for n in sizes:
                def g(nm=nm, kind=kind, n=n):
                    H = ctx.har(cfg)
                    r = H.call(nm, a1=num(n), a2=sg)
                    r = dsimp(r, pos)
                    ctx.never('%s(%d)%s is accepted' % (nm, n, tag), is_err(r), pos, None, nm)
                    d = unwrap(r)
                    ctx.eq('%s(%d)%s length' % (nm, n, tag), length(d), num(n * n), pos, None, nm)
                    c = n // 2
                    for y in range(n):
                        for x in range(n):
                            ctx.eq('%s(%d)%s[%d,%d]' % (nm, n, tag, y, x), elem(d, num(y * n + x)), entry(kind, (x - c) ** 2 + (y - c) ** 2), pos,
                                   {'sigma': lambda q: Fraction(q.randint(1, 12), 4)}, nm)
                    ctx.events('%s(%d)%s' % (nm, n, tag), H, PANIC, pos, {'sigma': lambda q: Fraction(q.randint(1, 12), 4)})
                    ctx.note_run(H)
                ctx.guard(nm + tag, g)
        k = var('half', 'u8')
        s = add(scale(k, 2), ONE)

        def box():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            got = []
            H.override('filter::separable_filter', lambda I, a, st: (got.append([I.snapshot(st, x) for x in a[1:]]), agg('core::result::Result', 0, I.snapshot(st, a[0])))[1])
            H.call('box_filter', a1=im, a2=s)
            ctx.note_run(H)
            if not got:
                ctx.add('box_filter' + tag, 'undecided', 'filter::box_filter', 'does not call separable_filter')
            for ks in got:
                for q, nm in zip(ks, ('vertical', 'horizontal')):
                    b = fresh_bv(length(q))
                    ctx.eq('box_filter %s kernel spans the window%s' % (nm, tag), length(q), s, (), HALF, 'filter::box_filter')
                    ctx.eq('box_filter %s kernel sums to one%s' % (nm, tag), mk_sum(b, length(q), elem(q, b)), ONE, (), HALF, 'filter::box_filter')
        ctx.guard('box_filter' + tag, box)

        def wavg():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            wt = var('weight', 'u16')
            got = []
            H.override('filter::unseparable_filter', lambda I, a, st: (got.append(I.snapshot(st, a[1])), agg('core::result::Result', 0, I.snapshot(st, a[0])))[1])
            H.call('weighted_avg_filter', a1=im, a2=s, a3=wt)
            ctx.note_run(H)
            if not got:
                ctx.add('weighted_avg_filter' + tag, 'undecided', 'filter::weighted_avg_filter', 'does not call unseparable_filter')
            for q in got:
                pre = (le0i(sub(num(2), add(mul(s, s), wt))),)
                n = mul(s, s)
                tot = add(n, wt, MONE)
                b = fresh_bv(n)
                mid = add(mul(k, s), k)
                ctx.eq('weighted_avg_filter kernel spans the window' + tag, length(q), n, pre, HALF, 'filter::weighted_avg_filter')
                fr = ((b, n),)
                ctx.eq('weighted_avg_filter kernel weights' + tag, mul(elem(q, b), tot), mk_ite(mk_eq(b, mid), wt, ONE), pre, HALF, 'filter::weighted_avg_filter', fr)
                # (s*s - 1) entries of 1/tot and one of weight/tot sum to one
                ctx.eq('weighted_avg_filter kernel sums to one' + tag, add(mul(sub(n, ONE), elem(q, ZERO)), elem(q, mid)), ONE,
                       pre + (le0i(sub(ONE, k)),), {'half': lambda q: q.randint(1, 3)}, 'filter::weighted_avg_filter')
        ctx.guard('weighted_avg_filter' + tag, wavg)
    each(ctx, one, ['generate_gaussian_kernel', 'generate_log_kernel', 'generate_spatial_mat', 'box_filter', 'weighted_avg_filter'])


PROPS = {
    'C10': (c10, 'proof', 'value graphs'),
    'C11': (c11, 'proof', 'constant tables and generated kernels'),
}
