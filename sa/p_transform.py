"""C09, C26: pixel moves and resampling."""
from check import *
from terms import MONE
from p_filter import okimg


def c09(ctx):
    names = ['crop', 'translate', 'reflect', 'overlay', 'superimpose']
    x, y, w_, h_ = (var(n, 'u16') for n in ('x', 'y', 'width', 'height'))
    dom = {n: (lambda q: q.randint(0, 4)) for n in ('x', 'y', 'width', 'height')}
    dom['alpha'] = lambda q: Fraction(q.randint(0, 4), 4)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        def crop():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            pre = (le0i(sub(add(x, w_), W)), le0i(sub(add(y, h_), Ht)), le0i(sub(ONE, w_)), le0i(sub(ONE, h_)))
            r = H.call('crop', pre, a1=im, a2=x, a3=y, a4=w_, a5=h_)
            okimg(ctx, 'crop' + tag, H, r, w_, h_, C, A, lambda i, j, c: elem(D, px(W, C, add(i, x), add(j, y), c)), pre, dom, 'transform::crop')
        ctx.guard('crop' + tag, crop)

        def trans():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('translate', a1=im, a2=x, a3=y)
            inside = lambda i, j: mk_and(le0i(sub(x, i)), le0i(sub(y, j)))
            okimg(ctx, 'translate' + tag, H, r, W, Ht, C, A, lambda i, j, c: mk_ite(inside(i, j), elem(D, px(W, C, sub(i, x), sub(j, y), c)), ZERO), (), dom, 'transform::translate')
        ctx.guard('translate' + tag, trans)

        for m in ('Horizontal', 'Vertical'):
            def refl(m=m):
                H = ctx.har(cfg)
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                r = H.call('reflect', a1=im, a2=enum(wd, 'Refl', m))
                f = (lambda i, j, c: elem(D, px(W, C, i, sub(sub(Ht, j), ONE), c))) if m == 'Horizontal' else (lambda i, j, c: elem(D, px(W, C, sub(sub(W, i), ONE), j, c)))
                okimg(ctx, 'reflect(%s)%s' % (m, tag), H, r, W, Ht, C, A, f, (), dom, 'transform::reflect')
            ctx.guard('reflect(%s)%s' % (m, tag), refl)

        for fn in ('overlay', 'superimpose'):
            def ov(fn=fn):
                H = ctx.har(cfg)
                b = H.image('back', 'real')
                W, Ht, C, A, D = img_parts(b)
                f_ = H.image('front', 'real', C=C)
                W2, H2, _, _, D2 = img_parts(f_)
                kw = {'a3': x, 'a4': y}
                pre = ()
                al = var('alpha', 'real')
                if fn == 'superimpose':
                    kw['a5'] = al
                    pre = (le0r(neg(al)), le0r(sub(al, ONE)))
                r = H.call(fn, pre, a1=b, a2=f_, **kw)

                def f(i, j, c):
                    inside = mk_and(le0i(sub(x, i)), le0i(sub(y, j)), inr(i, add(x, W2)), inr(j, add(y, H2)))
                    back = elem(D, px(W, C, i, j, c))
                    front = elem(D2, px(W2, C, sub(i, x), sub(j, y), c))
                    v = front if fn == 'overlay' else add(mul(al, back), mul(sub(ONE, al), front))
                    return mk_ite(inside, v, back)
                okimg(ctx, fn + tag, H, r, W, Ht, C, A, f, pre, dom, 'transform::' + fn)
            ctx.guard(fn + tag, ov)
    each(ctx, one, names)


# ------------------------------------------------------------------ C26
def c26(ctx):
    fx, fy = var('x_factor', 'real'), var('y_factor', 'real')
    pre = (mk_not(le0r(fx)), mk_not(le0r(fy)))
    dom = {n: (lambda q: Fraction(q.randint(1, 9), q.choice([2, 3, 4]))) for n in ('x_factor', 'y_factor')}
    dom['x'] = dom['y'] = lambda q: q.randint(0, 6)
    dom['img.data*'] = lambda q: q.randint(0, 9)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)
        clampr = lambda v, n: t_.mk_max(ZERO, t_.mk_min(v, sub(n, ONE)))
        fl = lambda v: t_.mk_round('floor', v)
        ce = lambda v: t_.mk_round('ceil', v)
        tr = lambda v: t_.mk_sat('u32', v)

        def nearest(W, Ht, C, D):
            def f(x, y, c):
                sx = t_.mk_min(tr(sub(ce(mul(add(x, ONE), inv(fx))), ONE)), sub(W, ONE))
                sy = t_.mk_min(tr(sub(ce(mul(add(y, ONE), inv(fy))), ONE)), sub(Ht, ONE))
                return elem(D, px(W, C, sx, sy, c))
            return f

        def bilinear(W, Ht, C, D):
            def f(x, y, c):
                xi, yi = mul(x, inv(fx)), mul(y, inv(fy))
                x1, y1 = tr(fl(xi)), tr(fl(yi))
                x2, y2 = t_.mk_min(tr(ce(xi)), sub(W, ONE)), t_.mk_min(tr(ce(yi)), sub(Ht, ONE))
                wx, wy = sub(xi, x1), sub(yi, y1)
                at = lambda a, b: elem(D, px(W, C, a, b, c))
                return add(mul(sub(ONE, wx), sub(ONE, wy), at(x1, y1)), mul(wx, sub(ONE, wy), at(x2, y1)), mul(sub(ONE, wx), wy, at(x1, y2)), mul(wx, wy, at(x2, y2)))
            return f

        def taps(lo, hi, wf):
            def mkf(W, Ht, C, D):
                def f(x, y, c):
                    xi, yi = mul(x, inv(fx)), mul(y, inv(fy))
                    dx, dy = sub(xi, fl(xi)), sub(yi, fl(yi))
                    s = []
                    for m in range(lo, hi):
                        for n in range(lo, hi):
                            p = elem(D, px(W, C, tr(clampr(add(xi, num(m)), W)), tr(clampr(add(yi, num(n)), Ht)), c))
                            s.append(mul(p, wf(sub(num(m), dx)), wf(sub(num(n), dy))))
                    return add(*s)
                return f
            return mkf
        cub = lambda v: t_.mk_app('cubic_weighting_fn', 'real', v)
        lan = lambda v, n: t_.mk_app('lanczos_kernel', 'real', v, n)

        def run(fn, label, spec, **kw):
            def g():
                H = ctx.har(cfg)
                im = H.image('img', 'real')
                W, Ht, C, A, D = img_parts(im)
                # both kernels are even functions (decided below); taps are named by the absolute distance
                H.override('cubic_weighting_fn', lambda I, a, st: t_.mk_app('cubic_weighting_fn', 'real', I.snapshot(st, a[0])))
                H.override('lanczos_kernel', lambda I, a, st: t_.mk_app('lanczos_kernel', 'real', I.snapshot(st, a[0]), I.snapshot(st, a[1])))
                rw = tr(t_.mk_round('round', mul(W, fx)))
                rh = tr(t_.mk_round('round', mul(Ht, fy)))
                r = H.call(fn, pre, a1=im, a2=fx, a3=fy, **kw)
                okimg(ctx, label + tag, H, r, rw, rh, C, A, spec(W, Ht, C, D), pre, dom, 'transform::' + label)
            ctx.guard(label + tag, g)
        run('scale', 'scale(NearestNeighbor)', nearest, a4=enum(wd, 'Scale', 'NearestNeighbor'))
        run('scale', 'scale(Bilinear)', bilinear, a4=enum(wd, 'Scale', 'Bilinear'))
        run('scale', 'scale(Bicubic)', taps(-1, 3, cub), a4=enum(wd, 'Scale', 'Bicubic'))
        run('scale', 'scale(Lanczos)', taps(-2, 4, lambda v: lan(v, num(3))), a4=enum(wd, 'Scale', 'Lanczos'))
        size = var('size', 'u32')

        def anysize(W, Ht, C, D):
            def f(x, y, c):
                xi, yi = mul(x, inv(fx)), mul(y, inv(fy))
                dx, dy = sub(xi, fl(xi)), sub(yi, fl(yi))
                n = mul(num(2), size)
                b1, b2 = t_.fresh_bv(n), t_.fresh_bv(n)
                i, j = add(ONE, sub(b1, size)), add(ONE, sub(b2, size))
                p = elem(D, px(W, C, tr(clampr(add(xi, i), W)), tr(clampr(add(yi, j), Ht)), c))
                return t_.mk_sum(b1, n, t_.mk_sum(b2, n, mul(p, lan(sub(i, dx), size), lan(sub(j, dy), size))))
            return f
        run('scale_lanczos', 'scale_lanczos(any size)', anysize, a4=size)
        for n in (1, 2, 3, 5):
            run('scale_lanczos', 'scale_lanczos(size %d)' % n, taps(1 - n, n + 1, lambda v, n=n: lan(v, num(n))), a4=num(n))
    each(ctx, one, ['scale', 'scale_lanczos'])
    weights(ctx)


def weights(ctx):
    """the weighting functions themselves, and that they are even"""
    x, a = var('x', 'real'), var('a', 'real')
    pa = (mk_not(le0r(a)),)
    pos = lambda v: t_.power(t_.mk_max(v, ZERO), 3)
    PI = num(Fraction('3.1415927'))
    sinc = lambda v: mk_ite(t_.eq0(v), ONE, mul(t_.mk_fn('sin', mul(PI, v)), inv(mul(PI, v))))
    spline = lambda p: scale(add(p(add(x, num(2))), scale(p(add(x, ONE)), -4), scale(p(x), 6), scale(p(sub(x, ONE)), -4)), Fraction(1, 6))
    cubic = spline(pos)
    dx = {'x': lambda q: q.choice([0, Fraction(q.randint(-30, 30), 12), q.randint(-3, 3)]), 'a': lambda q: q.choice([1, 2, 3, Fraction(5, 2)])}

    def one(fn, label, spec, pre, **kw):
        def g():
            H = ctx.har('none')
            r = H.call(fn, pre, **kw)
            ctx.eq(label, r, spec, pre, dx, fn)
            from p_filter import panics
            for e in panics(H):
                ctx.sites += 1
                ctx.never('%s never panics: %s' % (fn, e.kind), e.formula(), pre, dx, fn)
            ctx.note_run(H)
        ctx.guard(label, g)
    one('cubic_weighting_fn', 'cubic_weighting_fn is the cubic B-spline', cubic, (), a1=x)
    one('sinc_norm', 'sinc_norm is the normalised sinc', sinc(x), (), a1=x)
    inside = mk_and(mk_not(le0r(add(x, a))), mk_not(le0r(sub(a, x))))
    lz = mk_ite(inside, mul(sinc(x), sinc(mul(x, inv(a)))), ZERO)
    one('lanczos_kernel', 'lanczos_kernel is the windowed sinc', lz, pa, a1=x, a2=a)
    m = {x: neg(x)}
    for k in range(-2, 2):
        on = (le0r(sub(num(k), x)), le0r(sub(x, num(k + 1))))
        one('cubic_weighting_fn', 'cubic_weighting_fn is even (%d <= x <= %d)' % (k, k + 1), t_.subst_vars(cubic, m), on, a1=x)
    one('lanczos_kernel', 'lanczos_kernel is even', t_.subst_vars(lz, m), pa, a1=x, a2=a)


# ------------------------------------------------------------------ C33
def c33(ctx):
    deg, sx, sy = var('degrees', 'real'), var('shear_x', 'real'), var('shear_y', 'real')
    dom = {'degrees': lambda q: q.choice([q.randint(-400, 400), Fraction(q.randint(-4000, 4000), 11)]), 'img.data*': lambda q: q.randint(1, 99),
           'shear_x': lambda q: Fraction(q.randint(-20, 20), q.choice([3, 7, 10])), 'shear_y': lambda q: Fraction(q.randint(-20, 20), q.choice([3, 7, 10]))}
    nat = lambda v: t_.mk_sat('u32', v)
    PI = num(Fraction('3.1415927'))
    half = num(Fraction(1, 2))

    def draw(s0, bs, at, Wo, C, D, W, guard=TRUE):
        """s0 with the pixels of the source written in row-major order at the cells at(x, y)"""
        y, x = bs[-2][0], bs[-1][0]
        X, Y = at(x, y)
        return t_.mk_scatter(s0, bs, guard, mul(add(mul(Y, Wo), X), C), t_.mk_slice(D, mul(add(mul(y, W), x), C), C))

    def finish(name, H, r, W, Ht, C, A, D, fn):
        ctx.never(name + ' is accepted', is_err(r), (), dom, fn)
        img = unwrap(r)
        info = field(img, 0)
        for i, (n, want) in enumerate((('width', W), ('height', Ht), ('channels', C), ('alpha', A))):
            ctx.eq('%s.%s' % (name, n), field(info, i), want, (), dom, fn)
        ctx.eq(name + '.pixels', field(img, 1), D, (), dom, fn)
        for e in panics(H):
            ctx.sites += 1
            ctx.never('%s never panics: %s in %s' % (name, e.kind, short(e.site[0])), e.formula(), (), dom, fn)
        ctx.note_run(H)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def shear():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('shear', (), a1=im, a2=sx, a3=sy)
            ox, oy = t_.mk_abs(mul(Ht, sx)), t_.mk_abs(mul(W, sy))
            Wo, Ho = add(W, nat(ox)), add(Ht, nat(oy))
            by, bx = fresh_bv(Ht), fresh_bv(W)
            at = lambda x, y: (nat(add(x, neg(mul(sx, y)), mk_ite(le0r(sx), ZERO, ox))), nat(add(y, neg(mul(sy, x)), mk_ite(le0r(sy), ZERO, oy))))
            d = draw(mk_fill(ZERO, mul(Wo, Ho, C)), [(by, Ht), (bx, W)], at, Wo, C, D, W)
            finish('shear' + tag, H, r, Wo, Ho, C, A, d, 'transform::shear')
        ctx.guard('shear' + tag, shear)

        def rotate():
            H = ctx.har(cfg)
            for nm, f in (('max_4', t_.mk_max), ('min_4', t_.mk_min)):      # C22
                H.override(nm, lambda I, a, st, f=f: f(*[I.snapshot(st, x) for x in a]))
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('rotate', (), a1=im, a2=deg)
            th = mul(deg, scale(PI, Fraction(1, 180)))
            s, c = t_.mk_fn('sin', th), t_.mk_fn('cos', th)
            cx, cy = t_.mk_idiv(W, num(2)), t_.mk_idiv(Ht, num(2))
            rot = lambda x, y: (sub(mul(c, x), mul(s, y)), add(mul(s, x), mul(c, y)))
            cs = [rot(x, y) for x in (neg(cx), sub(W, cx)) for y in (cy, sub(cy, Ht))]
            x0, x1 = t_.mk_min(*[p[0] for p in cs]), t_.mk_max(*[p[0] for p in cs])
            y0, y1 = t_.mk_min(*[p[1] for p in cs]), t_.mk_max(*[p[1] for p in cs])
            Wo, Ho = nat(t_.mk_round('round', sub(x1, x0))), nat(t_.mk_round('round', sub(y1, y0)))

            def place(x, y):
                u, v = rot(sub(add(x, half), cx), sub(sub(cy, y), half))
                return sub(u, x0), sub(y1, v)
            # first every pixel one cell to the left of its place, then every pixel at its place
            d = mk_fill(ZERO, mul(Wo, Ho, C))
            for off in (ONE, ZERO):
                by, bx = fresh_bv(Ht), fresh_bv(W)
                u, v = place(bx, by)
                u = sub(u, off)
                d = draw(d, [(by, Ht), (bx, W)], lambda x, y: (nat(u), nat(v)), Wo, C, D, W, le0r(neg(u)))
            finish('rotate' + tag, H, r, Wo, Ho, C, A, d, 'transform::rotate')
        ctx.guard('rotate' + tag, rotate)
    each(ctx, one, ['rotate', 'shear'])


PROPS = {
    'C33': (c33, 'proof', 'rotate and shear are interpreted for arbitrary images and parameters; the output must be the scatter normal form of the documented placement.'),
    'C09': (c09, 'proof', 'value graphs'),
    'C26': (c26, 'proof', 'value graphs'),
}
