"""C20, C21, C28, C31: morphology, thresholding, summed-area tables, bilateral filtering."""
from check import *
from terms import MONE
from p_filter import HALF, okimg, table, near


# ------------------------------------------------------------------ C20
def rect(D, W, C, c, x0, y0, x1, y1):
    nh, nw = add(sub(y1, y0), ONE), add(sub(x1, x0), ONE)
    j, i = fresh_bv(nh), fresh_bv(nw)
    return mk_sum(j, nh, mk_sum(i, nw, elem(D, px(W, C, add(x0, i), add(y0, j), c))))


def table_overrides(H):
    """summed-area tables replaced by what C28 says about them"""
    H.override('util::generate_summed_area_table', lambda I, a, st: I.snapshot(st, a[0]))

    def rs(I, a, st):
        im, x0, y0, x1, y1 = [I.snapshot(st, x) for x in a]
        W, Ht, C, A, D = img_parts(im)
        c = fresh_bv(C) if C is not ONE else ZERO
        v = rect(D, W, C, c, x0, y0, x1, y1)
        return mk_gen(c, C, v) if C is not ONE else mk('lit', v)
    H.override('util::rectangular_intensity_sum', rs)


def c20(ctx):
    r = var('radius', 'u32')
    small = (le0i(sub(r, num(2047))),)          # (2 * radius + 1)^2 * 255 fits a u32
    s = add(scale(r, 2), ONE)
    DOM = {'radius': lambda q: q.randint(0, 3), 'img.data*': lambda q, v: 255 if q.random() < v.rng('density').choice([0.06, 0.2, 0.5, 0.85, 1, 1]) else 0}

    def win(x, W):
        return t_.mk_max(ZERO, sub(x, r)), t_.mk_min(sub(W, ONE), add(x, r))

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        full = scale(mul(s, s), 255)

        def S(W, Ht, D, C):
            def f(x, y):
                x0, x1 = win(x, W)
                y0, y1 = win(y, Ht)
                return rect(D, W, C, ZERO, x0, y0, x1, y1)
            return f
        keep = lambda A, c, old, new: mk_ite(mk_eq(c, ONE), old, new) if A is TRUE else new
        dil = lambda v: le0i(sub(num(255), v))
        ero = lambda v: mk_eq(v, full)
        maj = lambda v: le0i(add(scale(mul(s, s), 255), ONE, scale(v, -2)))
        gra = lambda v: mk_not(mk_eq(dil(v), ero(v))) if False else mk_or(mk_and(dil(v), mk_not(ero(v))), mk_and(ero(v), mk_not(dil(v))))
        kinds = ((ONE, FALSE, ''), (num(2), TRUE, ' (gray+alpha)'))
        for nm, dec in (('erode', ero), ('dilate', dil), ('majority', maj), ('gradient', gra)):
            for C, A, lb in kinds:
                def g(nm=nm, dec=dec, C=C, A=A, lb=lb):
                    H = ctx.har(cfg)
                    table_overrides(H)
                    im = H.image('img', 'u8', C=C, A=A)
                    W, Ht, C, A, D = img_parts(im)
                    q = H.call(nm, small, a1=im, a2=r)
                    sm = S(W, Ht, D, C)
                    okimg(ctx, nm + lb + tag, H, q, W, Ht, C, A,
                          lambda x, y, c: keep(A, c, elem(D, px(W, C, x, y, c)), mk_ite(dec(sm(x, y)), num(255), ZERO)), small, DOM, 'morphology::' + nm)
                ctx.guard(nm + lb + tag, g)
        for nm, first, second in (('open', 'erode', 'dilate'), ('close', 'dilate', 'erode')):
            def g(nm=nm, first=first, second=second):
                for fail in (None, first, second):
                    H = ctx.har(cfg)
                    im = H.image('img', 'u8', C=ONE, A=FALSE)
                    W, Ht, C, A, D = img_parts(im)
                    mk_ = {}

                    def ov(which):
                        def f(I, a, st):
                            i = I.snapshot(st, a[0])
                            d = field(i, 1)
                            n = length(d)
                            b = fresh_bv(n)
                            if fail == which:
                                return agg('core::result::Result', 1, agg('crate::error::ImgProcError', 0, mk('lit')))
                            return agg('core::result::Result', 0, agg(IMAGE, 0, field(i, 0), mk_gen(b, n, mk('app', which, 'u8', elem(d, b), I.snapshot(st, a[1])))))
                        return f
                    H.override('morphology::erode', ov('erode'))
                    H.override('morphology::dilate', ov('dilate'))
                    q = H.call('morphology::' + nm, a1=im, a2=r)
                    if not H.I.override_hits:
                        ctx.add(nm + tag, 'undecided', 'morphology::' + nm, 'does not call erode and dilate')
                        return
                    if fail is None:
                        okimg(ctx, nm + tag + ' composes', H, q, W, Ht, C, A,
                              lambda x, y, c: mk('app', second, 'u8', mk('app', first, 'u8', elem(D, px(W, C, x, y, c)), r), r), (), DOM, 'morphology::' + nm)
                    else:
                        ctx.eq('%s%s fails when %s fails' % (nm, tag, fail), is_err(q), TRUE, (), DOM, 'morphology::' + nm)
            ctx.guard(nm + tag, g)
    each(ctx, one, ['erode', 'dilate', 'majority', 'gradient', 'morphology::open', 'morphology::close'])


# ------------------------------------------------------------------ C21
def c21(ctx):
    tt, mx = var('threshold', 'real'), var('max', 'real')

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for m, hi, lo in (('Binary', lambda v: mx, lambda v: ZERO), ('BinaryInv', lambda v: ZERO, lambda v: mx), ('Trunc', lambda v: tt, lambda v: v),
                          ('ToZero', lambda v: v, lambda v: ZERO), ('ToZeroInv', lambda v: ZERO, lambda v: v)):
            for C, A in ((ONE, FALSE), (num(2), TRUE)):
                def g(m=m, hi=hi, lo=lo, C=C, A=A):
                    H = ctx.har(cfg)
                    im = H.image('img', 'real', C=C, A=A)
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call('threshold', a1=im, a2=tt, a3=mx, a4=enum(ctx.world(cfg), 'Thresh', m))

                    def f(x, y, c):
                        v = elem(D, px(W, C, x, y, c))
                        q = mk_ite(le0r(sub(v, tt)), lo(v), hi(v))
                        return mk_ite(mk_eq(c, ONE), v, q) if A is TRUE else q
                    dom = {'threshold': lambda q: q.randint(-3, 6), 'max': lambda q: q.choice([1, 7, 255]), 'img.data*': lambda q: q.randint(-3, 6)}
                    okimg(ctx, 'threshold(%s, %s)%s' % (m, 'gray+alpha' if A is TRUE else 'gray', tag), H, r, W, Ht, C, A, f, (), dom, 'filter::threshold')
                ctx.guard('threshold(%s)%s' % (m, tag), g)
    each(ctx, one, ['threshold'])


# ------------------------------------------------------------------ C28
def row_major_fold(d):
    """body, outer index, inner index and carried sequence of a table filled pixel by pixel in row-major order"""
    if d.op != 'fold' or len(d.a[3]) != 1:
        return None
    inner = d.a[5][0]
    if inner.op != 'fold' or len(inner.a[3]) != 1 or inner.a[4][0] is not d.a[3][0]:
        return None
    return d.a[0], d.a[1], inner.a[0], inner.a[1], inner.a[3][0], inner.a[5][0], d.a[4][0]


def c28(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def tab():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('generate_summed_area_table', a1=im)
            site = 'util::generate_summed_area_table'
            info = field(r, 0)
            for i, (n, want) in enumerate((('width', W), ('height', Ht), ('channels', C), ('alpha', A))):
                ctx.eq('table.%s%s' % (n, tag), field(info, i), want, (), None, site)
            for e in panics(H):
                ctx.never('table never panics: %s%s' % (e.kind, tag), e.formula(), (), None, site)
            ctx.note_run(H)
            d = field(r, 1)
            ctx.eq('table.len' + tag, length(d), mul(W, Ht, C), (), None, site)
            q = row_major_fold(d)
            done = False
            if q is not None:
                by, ny, bx, nx, phi, body, init = q
                fr = ((by, Ht), (bx, W))
                facts = tuple(c for b, n in fr for c in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
                c = fresh_bv(C)
                facts += (le0i(neg(c)), le0i(sub(add(c, ONE), C)))
                at = lambda x, y: elem(phi, px(W, C, x, y, c), facts)
                up = mk_ite(mk_eq(by, ZERO), ZERO, at(bx, sub(by, ONE)))
                left = mk_ite(mk_eq(bx, ZERO), ZERO, at(sub(bx, ONE), by))
                diag = mk_ite(mk_or(mk_eq(bx, ZERO), mk_eq(by, ZERO)), ZERO, at(sub(bx, ONE), sub(by, ONE)))
                spec = add(elem(D, px(W, C, bx, by, c)), up, left, neg(diag))
                new = elem(body, px(W, C, bx, by, c), facts)
                i = fresh_bv(mul(W, Ht, C))
                base = px(W, C, bx, by, ZERO)
                out = (le0i(neg(i)), le0i(sub(add(i, ONE), mul(W, Ht, C))))
                # the step leaves every other entry alone
                keep = all(prove_eq(elem(body, i, facts + out + (g,)), elem(phi, i, facts + out + (g,)), facts + out + (g,))
                           for g in (le0i(sub(add(i, ONE), base)), le0i(sub(add(base, C), i))))
                zero = prove_eq(elem(init, i, out), ZERO, out)
                done = prove_eq(ny, Ht) and prove_eq(nx, W) and prove_eq(new, spec, facts) and keep and zero
            if done:
                ctx.add('table entry = input + above + left - diagonal, for every pixel%s' % tag, 'proved', site)
            else:
                by, bx, bc = fresh_bv(Ht), fresh_bv(W), fresh_bv(C)
                ny, nx = add(by, ONE), add(bx, ONE)
                j, i = fresh_bv(ny), fresh_bv(nx)
                closed = mk_sum(j, ny, mk_sum(i, nx, elem(D, px(W, C, i, j, bc))))
                fr = ((by, Ht), (bx, W), (bc, C))
                facts = tuple(c for b, n in fr for c in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
                ctx.eq('table entry = input + above + left - diagonal, for every pixel%s' % tag, elem(d, px(W, C, bx, by, bc), facts), closed, (), None, site, fr)
        ctx.guard('generate_summed_area_table' + tag, tab)

        def rs():
            H = ctx.har(cfg)
            im = H.image('tab', 'real')
            W, Ht, C, A, D = img_parts(im)
            x0, y0, x1, y1 = (var(n, 'u16') for n in ('x0', 'y0', 'x1', 'y1'))
            pre = (inr(x1, W), inr(y1, Ht), le0i(sub(x0, x1)), le0i(sub(y0, y1)))
            dom = {n: (lambda q: q.randint(0, 4)) for n in ('x0', 'y0', 'x1', 'y1')}
            r = H.call('rectangular_intensity_sum', pre, a1=im, a2=x0, a3=y0, a4=x1, a5=y1)
            site = 'util::rectangular_intensity_sum'
            ctx.eq('rectangle sum has one entry per channel' + tag, length(r), C, pre, dom, site)
            for e in panics(H):
                ctx.never('rectangle sum never panics: %s%s' % (e.kind, tag), e.formula(), pre, dom, site)
            c = fresh_bv(C)
            at = lambda x, y: elem(D, px(W, C, x, y, c))
            zx, zy = mk_eq(x0, ZERO), mk_eq(y0, ZERO)
            spec = add(at(x1, y1), neg(mk_ite(zy, ZERO, at(x1, sub(y0, ONE)))), neg(mk_ite(zx, ZERO, at(sub(x0, ONE), y1))),
                       mk_ite(mk_or(zx, zy), ZERO, at(sub(x0, ONE), sub(y0, ONE))))
            ctx.eq('rectangle sum = inclusion-exclusion' + tag, elem(r, c), spec, pre, dom, site, ((c, C),))
            ctx.note_run(H)
        ctx.guard('rectangular_intensity_sum' + tag, rs)
    each(ctx, one, ['generate_summed_area_table', 'rectangular_intensity_sum'])


# ------------------------------------------------------------------ C31
def c31(ctx):
    rg, sp = var('range', 'real'), var('spatial', 'real')
    pre = (mk_not(le0r(rg)), mk_not(le0r(sp)))
    dom = {'range': lambda q: Fraction(q.randint(1, 8), 2), 'spatial': lambda q: Fraction(q.randint(1, 4), 4), 'lab*': lambda q: q.randint(0, 6), 'mat*': lambda q: q.randint(1, 5)}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def g():
            H = ctx.har(cfg)
            im = H.image('img', 'u8')
            W, Ht, C, A, D = img_parts(im)
            mats, labs, outs = [], [], []

            def mat(I, a, st):
                n, s = (I.snapshot(st, x) for x in a)
                mats.append((n, s))
                return agg('core::result::Result', 0, svar('mat', mul(n, n), 'real'))

            def lab(I, a, st):
                labs.append(tup(*[I.snapshot(st, x) for x in a]))
                return agg(IMAGE, 0, field(im, 0), svar('lab', mul(W, Ht, C), 'real'))

            def rgb(I, a, st):
                i, wh = (I.snapshot(st, x) for x in a)
                outs.append(tup(i, wh))
                n = length(field(i, 1))
                b = fresh_bv(n)
                return agg(IMAGE, 0, field(i, 0), mk_gen(b, n, mk('app', 'to_srgb', 'u8', elem(field(i, 1), b))))
            H.override('util::generate_spatial_mat', mat)
            H.override('colorspace::srgb_to_lab_f32', lab)
            H.override('colorspace::lab_to_srgb_f32', rgb)
            r = H.call('bilateral_filter', pre, a1=im, a2=rg, a3=sp, a4=enum(ctx.world(cfg), 'Bilateral', 'Direct'))
            site = 'filter::bilateral::bilateral_filter'
            ctx.note_run(H)
            if not (mats and labs and outs):
                ctx.add('bilateral filter' + tag, 'undecided', site, 'does not use the Lab conversions and generate_spatial_mat')
                return
            n = mats[0][0]
            for m, s in mats:
                ctx.eq('spatial weights have an odd size' + tag, mk_mod(m, num(2)), ONE, pre, dom, site)
                ctx.eq('spatial weights use the spatial parameter' + tag, s, sp, pre, dom, site)
            wh = enum(ctx.world(cfg), 'White', 'D65')
            for q in labs:
                ctx.eq('converts the input to Lab' + tag, q, tup(im, wh), pre, dom, site)
            if len(outs) != 1:
                ctx.add('bilateral filter' + tag, 'undecided', site, 'converts back %d times' % len(outs))
                return
            ctx.eq('converts back with the same reference white' + tag, field(outs[0], 1), wh, pre, dom, site)
            L = svar('lab', mul(W, Ht, C), 'real')
            M = svar('mat', mul(n, n), 'real')
            h = mk_idiv(n, num(2))

            def f(x, y, c):
                me = elem(L, px(W, C, x, y, c))

                def total(val):
                    b = fresh_bv(mul(n, n))
                    bx, by = mk_mod(b, n), mk_idiv(b, n)
                    q = elem(L, px(W, C, clampi(sub(add(x, bx), h), W), clampi(sub(add(y, by), h), Ht), c))
                    d = sub(me, q)
                    gauss = mul(inv(mul(num(2), num(Fraction('3.1415927')), t_.power(rg, 2))), t_.mk_fn('exp', scale(mul(t_.power(d, 2), t_.power(inv(rg), 2)), Fraction(-1, 2))))
                    w = mul(elem(M, b), gauss)
                    return mk_sum(b, mul(n, n), mul(w, q) if val else w)
                return mul(total(True), inv(total(False)))
            okimg(ctx, 'filtered Lab image' + tag, H, agg('core::result::Result', 0, field(outs[0], 0)), W, Ht, C, A, f, pre, dom, site)
            ctx.never('valid parameters are accepted' + tag, is_err(r), pre, dom, site)
            okd = field(field(outs[0], 0), 1)
            m = length(okd)
            b = fresh_bv(m)
            ctx.eq('returns the converted image' + tag, elem(field(unwrap(r), 1), b), mk('app', 'to_srgb', 'u8', elem(okd, b)), pre, dom, site, ((b, m),))
        ctx.guard('bilateral_filter' + tag, g)
    each(ctx, one, ['bilateral_filter'])


PROPS = {
    'C28': (c28, 'proof', 'value graphs'),
    'C31': (c31, 'proof', 'value graphs'),
    'C20': (c20, 'proof', 'value graphs'),
    'C21': (c21, 'proof', 'value graphs'),
}
