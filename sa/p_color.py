"""C06, C22, C23, C24, C25, C27: tone, colour spaces, conversions, orderings."""
from check import *
from terms import MONE
from p_filter import okimg

R = lambda *a: num(Fraction(*a))


def f32(x):
    """the f32 constant nearest to x"""
    import struct
    return num(Fraction(struct.unpack('f', struct.pack('f', x))[0]))


def accepted(ctx, name, H, r, pre, dom, site):
    ctx.never(name + ' is accepted', is_err(r), pre, dom, site)
    return unwrap(r)


def nopanic(ctx, name, H, pre, dom, site, skip=()):
    for e in panics(H):
        if any(s in short(e.site[0]) for s in skip):
            continue
        ctx.sites += 1
        ctx.never('%s never panics: %s in %s' % (name, e.kind, short(e.site[0])), e.formula(), pre, dom, site)
    ctx.note_run(H)


def same(v):
    return v


# ------------------------------------------------------------------ C06
def c06(ctx):
    u8f = {'img.data*': lambda q: q.choice([0, 1, 9, 10, 11, 77, 128, 254, 255])}
    unit = {'img.data*': lambda q: Fraction(q.randint(0, 8), 8)}
    d255 = lambda v: mul(v, R(1, 255))
    x255 = lambda v: t_.mk_sat('u8', t_.mk_round('round', scale(v, 255)))
    rnd = lambda v: t_.mk_sat('u8', t_.mk_round('round', v))

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)
        wp = lambda H: enum(wd, 'White', 'D50')

        def case(fn, ety, conv, dom, C=None, ok=False, pre=(), **kw):
            def g():
                for Cn in ([C] if C else [num(2), num(3), num(4)]):
                    H = ctx.har(cfg)
                    H.stubs = None
                    im = H.image('img', ety, C=Cn, A=TRUE)
                    W, Ht, C_, A, D = img_parts(im)
                    prep(H)
                    r = H.call(fn, pre, a1=im, **kw)
                    ctx.note_run(H)
                    if ok:
                        r = unwrap(r)
                    C2, A2, D2 = field(field(r, 0), 2), field(field(r, 0), 3), field(r, 1)
                    by, bx = fresh_bv(Ht), fresh_bv(W)
                    fr = ((by, Ht), (bx, W))
                    facts = tuple(pre) + tuple(q for b, n in fr for q in (le0i(neg(b)), le0i(sub(add(b, ONE), n))))
                    nm = '%s(%s channels)%s' % (fn, Cn.a[0], tag)
                    ctx.eq(nm + ' keeps the alpha flag', A2, TRUE, pre, dom, fn)
                    i = px(W, C2, bx, by, sub(C2, ONE))
                    v = elem(D, px(W, C_, bx, by, sub(C_, ONE)))
                    ctx.eq(nm + ' keeps alpha values', elem(D2, i, facts), conv(v), pre, dom, fn, fr)
            ctx.guard(fn + tag, g)

        def prep(H):
            pass
        bias = var('bias', 'i16')
        gain = var('gain', 'real')
        bp = (le0i(sub(neg(bias), num(255))), le0i(sub(bias, num(255))))
        gp = (le0r(neg(gain)), le0r(sub(gain, ONE)))
        u8f.update({'bias': lambda q: q.randint(-255, 255), 'gain': lambda q: Fraction(q.randint(0, 4), 4)})
        for fn in ('brightness_rgb_norm',):
            case(fn, 'u8', same, u8f, pre=bp, a2=bias)
        case('contrast', 'u8', same, u8f, ok=True, pre=gp, a2=gain)
        gm = var('gamma', 'real')
        case('gamma', 'u8', same, u8f, ok=True, pre=(le0r(neg(gm)),), a2=gm, a3=var('max', 'u8'))
        case('rgb_to_grayscale_norm', 'u8', same, u8f)
        case('rgb_to_grayscale_f32', 'real', same, unit)
        case('linearize_srgb_f32', 'u8', same, u8f)
        case('unlinearize_srgb_f32', 'real', rnd, unit)
        for fn in ('srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32'):
            case(fn, 'real', same, unit, num(4))
        for fn in ('xyz_to_lab_f32', 'lab_to_xyz_f32'):
            case(fn, 'real', same, unit, num(4), a2=wp(None))
        case('rgb_to_hsv', 'u8', same, u8f, num(4))
        case('hsv_to_rgb', 'u8', same, u8f, num(4))
        case('rgb_to_hsv_f32', 'u8', d255, u8f, num(4))
        case('hsv_to_rgb_f32', 'real', x255, unit, num(4))
        case('srgb_to_xyz_f32', 'u8', same, u8f, num(4))
        case('srgb_to_lab_f32', 'u8', same, u8f, num(4), a2=wp(None))
        case('xyz_to_srgb_f32', 'real', rnd, unit, num(4))
        case('lab_to_srgb_f32', 'real', rnd, unit, num(4), a2=wp(None))
        case('brightness_lab', 'u8', same, u8f, num(4), ok=True, pre=bp, a2=bias)
        case('contrast_lab', 'u8', same, u8f, num(4), ok=True, pre=gp, a2=gain)
        if cfg in ('none', 'par'):
            case('brightness', 'u8', same, u8f, ok=True, pre=bp, a2=bias)
            case('saturation', 'u8', same, u8f, num(4), ok=True, pre=bp, a2=bias)
            case('rgb_to_grayscale', 'u8', same, u8f)
        tt, mx = var('threshold', 'real'), var('max', 'real')
        for m in ('Binary', 'BinaryInv', 'Trunc', 'ToZero', 'ToZeroInv'):
            case('threshold', 'real', same, unit, num(2), ok=True, a2=tt, a3=mx, a4=enum(wd, 'Thresh', m))
    each(ctx, one, ['brightness', 'contrast', 'gamma', 'srgb_to_lab_f32', 'lab_to_srgb_f32', 'saturation', 'threshold', 'hsv_to_rgb_f32', 'rgb_to_hsv_f32'], ['none', 'simdpar'])


# ------------------------------------------------------------------ C22
def c22(ctx):
    vs = [var(n, 'real') for n in 'wxyz']
    dom = {n: (lambda q: q.randint(0, 3)) for n in 'wxyz'}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for fn, op in (('max_3', t_.mk_max), ('min_3', t_.mk_min), ('max_4', t_.mk_max), ('min_4', t_.mk_min)):
            def g(fn=fn, op=op):
                n = int(fn[-1])
                a = vs[4 - n:]
                want = a[0]
                for b in a[1:]:
                    want = op(want, b)
                # one obligation per weak ordering of the arguments
                for o in weak_orders(n):
                    pre = []
                    for i in range(n):
                        for j in range(n):
                            if o[i] < o[j]:
                                pre.append(mk_not(le0r(sub(a[j], a[i]))))
                            elif o[i] == o[j] and i < j:
                                pre.append(le0r(sub(a[i], a[j])))
                                pre.append(le0r(sub(a[j], a[i])))
                    lvl = max(o) if op is t_.mk_max else 0
                    k = [i for i in range(n) if o[i] == lvl]
                    H = ctx.har(cfg)
                    r = H.call(fn, tuple(pre), **{'a%d' % (i + 1): a[i] for i in range(n)})
                    ctx.note_run(H)
                    od = {str(v.a[0]): (lambda q, z=o[i]: z) for i, v in enumerate(a)}
                    ctx.eq('%s%s for the ordering %s%s' % (fn, tuple(str(v.a[0]) for v in a), o, tag), r, a[k[0]], tuple(pre), od, 'util::math::' + fn)
            ctx.guard(fn + tag, g)

        def cz():
            for lab, pre, want in (('negative', (mk_not(le0r(neg(vs[1]))),), None), ('all', (), None)):
                H = ctx.har(cfg)
                r = H.call('clamp_zero', (), a1=vs[1])
                ctx.note_run(H)
                ctx.eq('clamp_zero' + tag, r, t_.mk_max(ZERO, vs[1]), (), {'x': lambda q: Fraction(q.randint(-6, 6), 2)}, 'util::math::clamp_zero')
                break
        ctx.guard('clamp_zero' + tag, cz)
    each(ctx, one, ['max_3', 'max_4', 'min_3', 'min_4', 'clamp_zero'])


def weak_orders(n):
    import itertools
    out = []
    for o in itertools.product(range(n), repeat=n):
        if set(o) == set(range(max(o) + 1)):
            out.append(o)
    return out


# ------------------------------------------------------------------ C25
FROM = [('u8', 'f32'), ('u8', 'f64'), ('u16', 'f64'), ('u32', 'f64'), ('u64', 'f64'), ('u128', 'f64'), ('usize', 'f64'), ('f32', 'f64')]


def c25(ctx):
    sat8 = lambda v: t_.mk_sat('u8', t_.mk_round('round', v))
    dom = {'img.data*': lambda q: q.choice([0, 1, 2, 127, 128, 200, 254, 255])}
    fdom = {'img.data*': lambda q: Fraction(q.randint(-40, 1100), 4)}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def g():
            for s, d in FROM + [('f32', 'u8'), ('f64', 'u8')]:
                def h(s=s, d=d):
                    H = ctx.har(cfg)
                    im = H.image('img', 'real' if s[0] == 'f' else s)
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call('Image<%s>::From<Image<%s>>::from' % (d, s), a1=im)
                    nm = 'Image<%s> from Image<%s>%s' % (d, s, tag)
                    f = (lambda x, y, c: elem(D, px(W, C, x, y, c))) if d != 'u8' else (lambda x, y, c: sat8(elem(D, px(W, C, x, y, c))))
                    ctx.image_eq(nm, r, W, Ht, C, A, f, (), dom if d != 'u8' else fdom, 'image::from_impl')
                    nopanic(ctx, nm, H, (), dom, 'image::from_impl')
                ctx.guard('from %s to %s%s' % (s, d, tag), h)
        g()

        def sc():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            cm, sm, cM, sM = [var(n, 'real') for n in ('current_min', 'scaled_min', 'current_max', 'scaled_max')]
            pre = (mk_not(mk_eq(cm, cM)),)
            d = {n: (lambda q: Fraction(q.randint(-9, 9), 2)) for n in ('current_min', 'scaled_min', 'current_max', 'scaled_max')}
            d.update(fdom)
            r = H.call('scale_channels', pre, a1=im, a2=cm, a3=sm, a4=cM, a5=sM)
            f = lambda x, y, c: add(mul(sub(elem(D, px(W, C, x, y, c)), cm), inv(sub(cM, cm)), sub(sM, sm)), sm)
            okimg(ctx, 'scale_channels' + tag, H, r, W, Ht, C, A, f, pre, d, 'convert::scale_channels')
            # the ends of the range
            for lab, v, w in (('minimum', cm, sm), ('maximum', cM, sM)):
                H = ctx.har(cfg)
                im = H.image('img', 'real', data=mk_gen(fresh_bv(mul(W, Ht, C)), mul(W, Ht, C), v))
                r = H.call('scale_channels', pre, a1=im, a2=cm, a3=sm, a4=cM, a5=sM)
                okimg(ctx, 'scale_channels maps the given %s%s' % (lab, tag), H, r, W, Ht, C, A, lambda x, y, c: w, pre, d, 'convert::scale_channels')
        ctx.guard('scale_channels' + tag, sc)

        s = var('scale', 'u32')
        pre = (le0i(sub(ONE, s)),)
        sd = {'scale': lambda q: q.choice([1, 2, 100, 255, 1000])}

        def a():
            H = ctx.har(cfg)
            im = H.image('img', 'real')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('f32_to_u8_scale', pre, a1=im, a2=s)
            d = dict(sd)
            d['img.data*'] = lambda q: Fraction(q.randint(-8, 4200), 4)
            ctx.image_eq('f32_to_u8_scale' + tag, r, W, Ht, C, A, lambda x, y, c: sat8(scale(mul(elem(D, px(W, C, x, y, c)), inv(s)), 255)), pre, d, 'convert::f32_to_u8_scale')
            nopanic(ctx, 'f32_to_u8_scale' + tag, H, pre, d, 'convert::f32_to_u8_scale')
        ctx.guard('f32_to_u8_scale' + tag, a)

        def b():
            H = ctx.har(cfg)
            im = H.image('img', 'u8')
            W, Ht, C, A, D = img_parts(im)
            r = H.call('u8_to_f32_scale', pre, a1=im, a2=s)
            d = dict(sd)
            d.update(dom)
            ctx.image_eq('u8_to_f32_scale' + tag, r, W, Ht, C, A, lambda x, y, c: mul(elem(D, px(W, C, x, y, c)), R(1, 255), s), pre, d, 'convert::u8_to_f32_scale')
            nopanic(ctx, 'u8_to_f32_scale' + tag, H, pre, d, 'convert::u8_to_f32_scale')
            # and back
            H2 = ctx.har(cfg)
            q = H2.call('f32_to_u8_scale', pre, a1=r, a2=s)
            ctx.image_eq('f32_to_u8_scale undoes u8_to_f32_scale' + tag, q, W, Ht, C, A, lambda x, y, c: elem(D, px(W, C, x, y, c)), pre, d, 'convert')
        ctx.guard('u8_to_f32_scale' + tag, b)
    each(ctx, one, ['scale_channels', 'f32_to_u8_scale', 'u8_to_f32_scale'] + ['Image<%s>::From<Image<%s>>::from' % (d, s) for s, d in FROM + [('f32', 'u8'), ('f64', 'u8')]])


# ------------------------------------------------------------------ C38
def c38(ctx):
    dom = {'img.data*': lambda q: Fraction(q.randint(-60, 60), 4), 'img.w': lambda q: q.randint(2, 6)}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def g():
            H = ctx.har(cfg)
            im = H.image('img', 'real', C=ONE, A=FALSE)
            W, Ht, C, A, D = img_parts(im)
            n = mul(W, Ht)
            b = fresh_bv(n)
            lo = t_.mk_foldm('min', b, n, elem(D, b), elem(D, ZERO))
            hi = t_.mk_foldm('max', b, n, elem(D, b), elem(D, ZERO))
            p = (mk_not(mk_eq(lo, hi)),)
            r = H.call('normalize_laplacian', p, a1=im)
            f = lambda x, y, c: t_.mk_sat('u8', t_.mk_round('round', scale(mul(sub(elem(D, px(W, C, x, y, c)), lo), inv(sub(hi, lo))), 255)))
            okimg(ctx, 'normalize_laplacian' + tag, H, r, W, Ht, C, A, f, p, dom, 'filter::edge::normalize_laplacian')
        ctx.guard('normalize_laplacian' + tag, g)
    each(ctx, one, ['normalize_laplacian'])


# ------------------------------------------------------------------ C27
def c27(ctx):
    u8f = {'img.data*': lambda q: q.choice([0, 1, 9, 10, 11, 77, 128, 200, 254, 255]), 'bias': lambda q: q.choice([-255, -128, -3, 0, 1, 90, 255]), 'gain': lambda q: Fraction(q.randint(0, 8), 8),
           'max': lambda q: q.choice([1, 3, 100, 255]), 'gamma': lambda q: q.randint(0, 3)}
    cl = lambda v: t_.mk_max(ZERO, t_.mk_min(v, num(255)))
    bias, gain, gm, mx = var('bias', 'i16'), var('gain', 'real'), var('gamma', 'real'), var('max', 'u8')
    bp = (le0i(sub(neg(bias), num(255))), le0i(sub(bias, num(255))))
    gp = (le0r(neg(gain)), le0r(sub(gain, ONE)))

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def case(fn, val, pre, ok, chans=None, skip=(), **kw):
            def g():
                for al in (FALSE, TRUE):
                    H = ctx.har(cfg)
                    im = H.image('img', 'u8', A=al)
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call(fn, pre, a1=im, **kw)
                    nm = '%s(%s)%s' % (fn, 'alpha' if al is TRUE else 'no alpha', tag)
                    if ok:
                        ctx.never(nm + ' is accepted', is_err(r), pre, u8f, fn)
                        r = unwrap(r)

                    def f(x, y, c):
                        v = elem(D, px(W, C, x, y, c))
                        return val(v) if al is FALSE else mk_ite(mk_eq(c, sub(C, ONE)), v, val(v))
                    ctx.image_eq(nm, r, W, Ht, C, A, f, pre, u8f, 'tone::' + fn)
                    nopanic(ctx, nm, H, pre, u8f, 'tone::' + fn)
            ctx.guard(fn + tag, g)
        case('brightness_rgb_norm', lambda v: cl(add(v, bias)), bp, False, a2=bias)
        case('contrast', lambda v: cl(t_.mk_round('round', mul(v, gain))), gp, True, a2=gain)
        gpre = (le0r(neg(gm)), le0i(sub(ONE, mx)))
        case('gamma', lambda v: t_.mk_sat('u8', t_.mk_round('round', mul(mx, t_.mk_pow(mul(v, inv(mx)), gm)))), gpre, True, a2=gm, a3=mx)

        def sn():
            for C in (num(3), num(4)):
                H = ctx.har(cfg)
                im = H.image('img', 'u8', C=C, A=TRUE if C.a[0] == 4 else FALSE)
                W, Ht, C, A, D = img_parts(im)
                H.call('saturation_norm', bp, a1=im, a2=bias)
                o = H.out('a1')
                nm = 'saturation_norm(%d channels)%s' % (C.a[0], tag)

                def f(x, y, c):
                    v = elem(D, px(W, C, x, y, c))
                    return cl(add(v, bias)) if c is ONE else v
                ctx.image_eq(nm, o, W, Ht, C, A, f, bp, u8f, 'tone::saturation_norm')
                nopanic(ctx, nm, H, bp, u8f, 'tone::saturation_norm')
        ctx.guard('saturation_norm' + tag, sn)
        if cfg in ('none', 'par'):
            case('brightness', lambda v: cl(add(v, bias)), bp, True, a2=bias)

            def sat():
                for C in (num(3), num(4)):
                    H = ctx.har(cfg)

                    def cnv(nm):
                        def f(I, a, st):
                            i = I.snapshot(st, a[0])
                            d = field(i, 1)
                            n = length(d)
                            b = fresh_bv(n)
                            return agg(IMAGE, 0, field(i, 0), mk_gen(b, n, mk('app', nm, 'u8', elem(d, b), b)))
                        return f
                    H.override('colorspace::rgb_to_hsv', cnv('hsv'))
                    H.override('colorspace::hsv_to_rgb', cnv('rgb'))
                    im = H.image('img', 'u8', C=C, A=TRUE if C.a[0] == 4 else FALSE)
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call('saturation', bp, a1=im, a2=bias)
                    nm = 'saturation(%d channels)%s' % (C.a[0], tag)

                    def f(x, y, c):
                        p = px(W, C, x, y, c)
                        v = mk('app', 'hsv', 'u8', elem(D, p), p)
                        return mk('app', 'rgb', 'u8', cl(add(v, bias)) if c is ONE else v, p)
                    okimg(ctx, nm, H, r, W, Ht, C, A, f, bp, u8f, 'tone::saturation')
            ctx.guard('saturation' + tag, sat)

        def lut():
            H = ctx.har(cfg, T='u8')
            fn = H.fn('f', 'u8')
            tb = mk_gen(fresh_bv(num(256)), num(256), ZERO)
            H.call('generate_lookup_table', (), a1=tb, a2=fn)
            o = H.out('a1')
            b = fresh_bv(num(256))
            ctx.eq('generate_lookup_table' + tag, elem(o, b), mk('app', 'f', 'u8', b), (), {}, 'util::generate_lookup_table', ((b, num(256)),))
            ctx.eq('generate_lookup_table length' + tag, length(o), num(256), (), {}, 'util::generate_lookup_table')
            ctx.note_run(H)
        ctx.guard('lookup table' + tag, lut)
    each(ctx, one, ['brightness', 'contrast', 'gamma', 'saturation', 'brightness_rgb_norm', 'saturation_norm', 'generate_lookup_table'])


# ------------------------------------------------------------------ C24
def opaque(H, path, nm, ety='real'):
    """a conversion replaced by an arbitrary per-channel function of its input and its other arguments"""
    def f(I, a, st):
        i = I.snapshot(st, a[0])
        d = field(i, 1)
        n = length(d)
        b = fresh_bv(n)
        rest = [t_.discr(I.snapshot(st, x)) for x in a[1:]]
        return agg(IMAGE, 0, field(i, 0), mk_gen(b, n, mk('app', nm, ety, elem(d, b), b, *rest)))
    H.override(path, f)


def c24(ctx):
    u8f = {'img.data*': lambda q: q.choice([0, 1, 9, 10, 11, 77, 128, 200, 254, 255]), 'bias': lambda q: q.choice([-255, -128, -3, 0, 1, 90, 255]), 'gain': lambda q: Fraction(q.randint(0, 8), 8)}
    unit = {'img.data*': lambda q: Fraction(q.randint(0, 8), 8)}
    bias, gain = var('bias', 'i16'), var('gain', 'real')
    bp = (le0i(sub(neg(bias), num(255))), le0i(sub(bias, num(255))))
    gp = (le0r(neg(gain)), le0r(sub(gain, ONE)))
    LIN, UNLIN, TOX, FROMX, TOLAB, FROMLAB = ('linearize_srgb_f32', 'unlinearize_srgb_f32', 'srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32', 'xyz_to_lab_f32', 'lab_to_xyz_f32')
    steps = {LIN: 'real', UNLIN: 'u8', TOX: 'real', FROMX: 'real', TOLAB: 'real', FROMLAB: 'real'}
    chains = {'srgb_to_xyz_f32': ('u8', [LIN, TOX], False), 'xyz_to_srgb_f32': ('real', [FROMX, UNLIN], False),
              'srgb_to_lab_f32': ('u8', [LIN, TOX, TOLAB], True), 'lab_to_srgb_f32': ('real', [FROMLAB, FROMX, UNLIN], True)}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)
        for fn, (ety, chain, white) in chains.items():
            def g(fn=fn, ety=ety, chain=chain, white=white):
                for al in (FALSE, TRUE):
                    for wh in (('D50', 'D65') if white else (None,)):
                        nm = '%s(%s%s)%s' % (fn, 'alpha' if al is TRUE else 'no alpha', ', ' + wh if wh else '', tag)
                        Cn = num(4 if al is TRUE else 3)
                        dom = u8f if ety == 'u8' else unit
                        H = ctx.har(cfg)
                        for p, e in steps.items():
                            opaque(H, 'colorspace::' + p, p, e)
                        im = H.image('img', ety, A=al, C=Cn)
                        W, Ht, C, A, D = img_parts(im)
                        kw = {'a2': enum(wd, 'White', wh)} if wh else {}
                        r = H.call(fn, (), a1=im, **kw)

                        def f(x, y, c):
                            p = px(W, C, x, y, c)
                            v = elem(D, p)
                            for s in chain:
                                v = mk('app', s, steps[s], v, p, *([t_.discr(kw['a2'])] if s in (TOLAB, FROMLAB) else []))
                            return v
                        ctx.image_eq(nm, r, W, Ht, C, A, f, (), dom, 'colorspace::' + fn)
                        nopanic(ctx, nm, H, (), dom, 'colorspace::' + fn)
                        # the same with every step analysed
                        H = ctx.har(cfg)
                        im = H.image('img', ety, A=al, C=Cn)
                        r = H.call(fn, (), a1=im, **kw)
                        v = im
                        for s in chain:
                            H2 = ctx.har(cfg)
                            v = H2.call(s, (), a1=v, **(kw if s in (TOLAB, FROMLAB) else {}))
                        ctx.image_eq(nm + ' with the steps inlined', r, W, Ht, C, A, lambda x, y, c: elem(field(v, 1), px(W, C, x, y, c), fr_(x, y, c, W, Ht, C)), (), dom, 'colorspace::' + fn)
                        ctx.note_run(H)
            ctx.guard(fn + tag, g)
        for fn, val, pre, arg in (('brightness_lab', lambda v: add(v, mul(bias, R(100, 255))), bp, bias), ('contrast_lab', lambda v: mul(v, gain), gp, gain)):
            def g(fn=fn, val=val, pre=pre, arg=arg):
                for al in (FALSE, TRUE):
                    nm = '%s(%s)%s' % (fn, 'alpha' if al is TRUE else 'no alpha', tag)
                    H = ctx.har(cfg)
                    opaque(H, 'colorspace::srgb_to_lab_f32', 'lab', 'real')
                    opaque(H, 'colorspace::lab_to_srgb_f32', 'srgb', 'u8')
                    im = H.image('img', 'u8', A=al, C=num(4 if al is TRUE else 3))
                    W, Ht, C, A, D = img_parts(im)
                    r = H.call(fn, pre, a1=im, a2=arg)
                    wh = t_.discr(enum(wd, 'White', 'D50'))

                    def f(x, y, c):
                        p = px(W, C, x, y, c)
                        v = mk('app', 'lab', 'real', elem(D, p), p, wh)
                        return mk('app', 'srgb', 'u8', val(v) if c is ZERO else v, p, wh)
                    okimg(ctx, nm, H, r, W, Ht, C, A, f, pre, u8f, 'tone::' + fn)
            ctx.guard(fn + tag, g)
    each(ctx, one, list(chains) + ['brightness_lab', 'contrast_lab', 'histogram_equalization'])


def fr_(x, y, c, W, Ht, C):
    return tuple(q for b, n in ((x, W), (y, Ht), (c, C)) for q in (le0i(neg(b)), le0i(sub(add(b, ONE), n))) if q is not TRUE)


# ------------------------------------------------------------------ C23
def c23(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        # XYZ -> Lab -> XYZ: the input is written as the cube of an arbitrary non-negative value, which reaches every non-negative colour
        def lab(wname):
            for wh in ('D50', 'D65'):
                H = ctx.har(cfg)
                n = mul(var('img.w', 'nat1'), var('img.h', 'nat1'), num(3))
                z = svar('root', n, 'nnreal')
                b = fresh_bv(n)
                im = H.image('img', 'real', C=num(3), A=FALSE, data=mk_gen(b, n, power(elem(z, b), 3)))
                W, Ht, C, A, D = img_parts(im)
                w = enum(wd, 'White', wh)
                dom = {'root*': lambda q: Fraction(q.randint(0, 20), 20)}
                l = H.call('xyz_to_lab_f32', (), a1=im, a2=w)
                ctx.note_run(H)
                H2 = ctx.har(cfg)
                r = H2.call('lab_to_xyz_f32', (), a1=l, a2=w)
                ctx.note_run(H2)
                ctx.image_eq('lab_to_xyz_f32 undoes xyz_to_lab_f32 (%s)%s' % (wh, tag), r, W, Ht, C, A, lambda x, y, c: elem(D, px(W, C, x, y, c)), (), dom, 'colorspace')
        ctx.guard('Lab' + tag, lambda: lab(0))

        def mats():
            for first, second in (('srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32'), ('xyz_to_srgb_lin_f32', 'srgb_lin_to_xyz_f32')):
                v = [var(n, 'real') for n in ('r', 'g', 'b')]
                H = ctx.har(cfg)
                im = H.image('img', 'real', C=num(3), A=FALSE, W=ONE, H=ONE, data=mk('lit', *v))
                l = H.call(first, (), a1=im)
                H2 = ctx.har(cfg)
                r = H2.call(second, (), a1=l)
                ctx.note_run(H)
                ctx.note_run(H2)
                dom = {n: (lambda q: Fraction(q.randint(0, 8), 8)) for n in ('r', 'g', 'b')}
                for c in range(3):
                    nm = '%s undoes %s up to 1e-5, channel %d%s' % (second, first, c, tag)
                    d = sub(elem(field(r, 1), num(c)), v[c])
                    p = pdict(d)
                    if all(len(m) == 1 and m[0][1] == 1 and m[0][0] in v for m in p):
                        # linear in the colour: the coefficients of the product matrix decide
                        bad = [(m[0][0].a[0], float(k)) for m, k in p.items() if abs(k) > Fraction(1, 10 ** 5)]
                        ctx.rule(nm, not bad, 'colorspace::' + second, 'product of the two matrices differs from the identity: %s' % bad)
                    else:
                        ctx.eq(nm, t_.mk_round('round', scale(add(d, v[c]), 100)), t_.mk_round('round', scale(v[c], 100)), (), dom, 'colorspace::' + second)
        ctx.guard('matrices' + tag, mats)

        # f32 HSV: one obligation per weak ordering of the three colour values
        m, d, u = var('min', 'real'), var('range', 'real'), var('middle', 'real')

        def hsv():
            for o in weak_orders(3):
                k = max(o)
                lev = {0: m, k: add(m, d)} if k else {0: m}
                if k == 2:
                    lev = {0: m, 1: add(m, mul(u, d)), 2: add(m, d)}
                pre = (le0r(neg(m)), mk_not(le0r(d)), le0r(sub(add(m, d), num(255))), mk_not(le0r(u)), mk_not(le0r(sub(ONE, u))))
                dom = {'min': lambda q: q.randint(0, 120), 'range': lambda q: q.randint(1, 135), 'middle': lambda q: Fraction(q.randint(1, 9), 10)}
                v = [lev[j] for j in o]
                H = ctx.har(cfg)
                im = H.image('img', 'u8', C=num(3), A=FALSE, W=ONE, H=ONE, data=mk('lit', *v))
                l = H.call('rgb_to_hsv_f32', pre, a1=im)
                H2 = ctx.har(cfg)
                r = H2.call('hsv_to_rgb_f32', pre, a1=l)
                ctx.note_run(H)
                ctx.note_run(H2)
                for c in range(3):
                    ctx.eq('hsv_to_rgb_f32 undoes rgb_to_hsv_f32 for the ordering %s, channel %d%s' % (o, c, tag), elem(field(r, 1), num(c)), t_.mk_sat('u8', v[c]), pre, dom, 'colorspace')
        ctx.guard('HSV' + tag, hsv)

        def lin():
            H = ctx.har(cfg)
            im = H.image('img', 'u8', C=ONE, A=FALSE, W=num(256), H=ONE, data=mk('lit', *[num(j) for j in range(256)]))
            l = H.call('linearize_srgb_f32', (), a1=im)
            H2 = ctx.har(cfg)
            r = H2.call('unlinearize_srgb_f32', (), a1=l)
            ctx.note_run(H)
            ctx.note_run(H2)
            for j in range(256):
                ctx.eq('unlinearize_srgb_f32 undoes linearize_srgb_f32 for the value %d%s' % (j, tag), elem(field(r, 1), num(j)), num(j), (), {}, 'colorspace')
        ctx.guard('linearisation' + tag, lin)
    each(ctx, one, ['linearize_srgb_f32', 'unlinearize_srgb_f32', 'srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32', 'xyz_to_lab_f32', 'lab_to_xyz_f32', 'rgb_to_hsv_f32', 'hsv_to_rgb_f32'])


# ------------------------------------------------------------------ C36
D_ = lambda s: num(norm_num(Fraction(s)))
TO_XYZ = ['0.4124564', '0.3575761', '0.1804375', '0.2126729', '0.7151522', '0.0721750', '0.0193339', '0.1191920', '0.9503041']
FROM_XYZ = ['3.2404542', '-1.5371385', '-0.4985314', '-0.9692660', '1.8760108', '0.0415560', '0.0556434', '-0.2040259', '1.0572252']
WHITES = {'D50': ['96.4212', '100', '82.5188'], 'D65': ['95.0489', '100', '108.8840']}


def c36(ctx):
    u8f = {'img.data*': lambda q, v: v.rng('pal').choice([[0, 255], [0, 1, 9, 10, 11, 77], [10, 128, 200, 254, 255], list(range(256)), list(range(256))])[0] if q.random() < 0.05 else q.choice([0, 255, 128, q.randint(0, 255), q.randint(0, 255), q.randint(0, 12)])}
    unit = {'img.data*': lambda q: Fraction(q.choice([0, 24, 1, q.randint(0, 24), q.randint(0, 24)]), 24)}
    fine = {'img.data*': lambda q: Fraction(q.choice([0, 1, 2, 3, 4, 5, 100, 500, 999, 1000]), 1000)}
    labd = {'img.data*': lambda q: q.randint(-60, 100)}
    sat8 = lambda v: t_.mk_sat('u8', v)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        def case(fn, label, ety, pixel, dom, chans=3, outc=None, skip=(), **kw):
            """pixel(list of colour channel terms) -> list of output colour channel terms"""
            def g():
                H = ctx.har(cfg)
                im = H.image('img', ety, C=num(chans), A=FALSE)
                W, Ht, C, A, D = img_parts(im)
                r = H.call(fn, (), a1=im, **kw)
                nm = fn + label + tag

                def f(x, y, c):
                    v = [elem(D, px(W, C, x, y, num(j))) for j in range(chans)]
                    return pixel(v)[c.a[0]]
                ctx.image_eq(nm, r, W, Ht, num(outc) if outc else C, A, f, (), dom, 'colorspace::' + fn)
                nopanic(ctx, nm, H, (), dom, 'colorspace::' + fn)
            ctx.guard(fn + label + tag, g)

        def lin():
            H = ctx.har(cfg)
            im = H.image('img', 'u8', C=ONE, A=FALSE, W=num(256), H=ONE, data=mk('lit', *[num(j) for j in range(256)]))
            r = H.call('linearize_srgb_f32', (), a1=im)
            ctx.note_run(H)
            for j in range(256):
                want = D_(Fraction(j) / Fraction('3294.6')) if j <= 10 else t_.mk_pow(D_((j + Fraction('14.025')) / Fraction('269.025')), D_('2.2'))
                ctx.eq('linearize_srgb_f32 of %d%s' % (j, tag), elem(field(r, 1), num(j)), want, (), {}, 'colorspace::linearize_srgb_f32')
        ctx.guard('linearize_srgb_f32' + tag, lin)
        case('unlinearize_srgb_f32', '', 'real', lambda v: [mk_ite(le0r(sub(q, D_('0.0031308'))), sat8(mul(q, D_('3294.6'))), sat8(sub(mul(D_('269.025'), t_.mk_pow(q, D_(Fraction(5, 11)))), D_('14.025')))) for q in v], fine)
        mat = lambda M: lambda v: [add(*[mul(D_(M[3 * i + j]), v[j]) for j in range(3)]) for i in range(3)]
        case('srgb_lin_to_xyz_f32', '', 'real', mat(TO_XYZ), unit)
        case('xyz_to_srgb_lin_f32', '', 'real', mat(FROM_XYZ), unit)
        d = Fraction(6, 29)
        for wh in ('D50', 'D65'):
            wn = [D_(x) for x in WHITES[wh]]

            def fwd(v, wn=wn):
                f = []
                for q, w in zip(v, wn):
                    t = mul(q, num(100), inv(w))
                    f.append(mk_ite(le0r(sub(t, D_(d ** 3))), add(mul(t, D_(1 / (3 * d * d))), D_(Fraction(4, 29))), t_.mk_pow(t, D_(Fraction(1, 3)))))
                return [sub(scale(f[1], 116), num(16)), scale(sub(f[0], f[1]), 500), scale(sub(f[1], f[2]), 200)]

            def bwd(v, wn=wn):
                n = mul(add(v[0], num(16)), R(1, 116))
                o = []
                for t, w in zip((add(n, mul(v[1], R(1, 500))), n, sub(n, mul(v[2], R(1, 200)))), wn):
                    o.append(mul(w, R(1, 100), mk_ite(le0r(sub(t, D_(d))), scale(sub(t, D_(Fraction(4, 29))), norm_num(3 * d * d)), power(t, 3))))
                return o
            w = enum(wd, 'White', wh)
            case('xyz_to_lab_f32', '(%s)' % wh, 'real', fwd, unit, a2=w)
            case('lab_to_xyz_f32', '(%s)' % wh, 'real', bwd, labd, a2=w)

        def hsv8(v):
            r, g, b = v
            mx, mn = t_.mk_max(t_.mk_max(r, g), b), t_.mk_min(t_.mk_min(r, g), b)
            rg = sub(mx, mn)
            s = mk_ite(mk_eq(mx, ZERO), ZERO, t_.mk_idiv(scale(rg, 255), mx))
            q = lambda off, a, c: add(num(off), t_.mk_idiv(scale(sub(a, c), 43), rg))
            h = mk_ite(mk_eq(rg, ZERO), ZERO, mk_ite(mk_eq(mx, r), q(0, g, b), mk_ite(mk_eq(mx, g), q(85, b, r), q(170, r, g))))
            h = mk_ite(le0i(add(h, ONE)), add(h, num(255)), mk_ite(le0i(sub(num(256), h)), sub(h, num(255)), h))
            return [h, s, mx]

        def rgb8(v):
            h, s, val = v
            i = t_.mk_idiv(h, num(43))
            f = scale(sub(h, scale(i, 43)), 6)
            dv = lambda e: t_.mk_idiv(e, num(255))
            p = dv(mul(val, sub(num(255), s)))
            q = dv(mul(val, sub(num(255), dv(mul(s, f)))))
            t = dv(mul(val, sub(num(255), dv(mul(s, sub(num(255), f))))))
            tab = [(val, t, p), (q, val, p), (p, val, t), (p, q, val), (t, p, val), (val, p, q)]
            out = []
            for c in range(3):
                e = tab[5][c]
                for k in (4, 3, 2, 1, 0):
                    e = mk_ite(mk_eq(i, num(k)), t_.mk_wrap('u8', tab[k][c]), e if k < 4 else t_.mk_wrap('u8', e))
                out.append(mk_ite(mk_eq(s, ZERO), val, e))
            return out

        def hsvf(v):
            r, g, b = v
            mx, mn = t_.mk_max(t_.mk_max(r, g), b), t_.mk_min(t_.mk_min(r, g), b)
            rg = sub(mx, mn)
            s = mk_ite(mk_eq(mx, ZERO), ZERO, mul(rg, inv(mx)))
            q = lambda off, a, c: mul(add(num(off), mul(sub(a, c), inv(rg))), R(1, 6))
            h = mk_ite(mk_eq(rg, ZERO), ZERO, mk_ite(mk_eq(mx, r), q(0, g, b), mk_ite(mk_eq(mx, g), q(2, b, r), q(4, r, g))))
            h = mk_ite(t_.lt0r(h), add(h, ONE), h)
            return [h, s, mul(mx, R(1, 255))]

        def rgbf(v):
            h, s, val = v
            h6 = scale(h, 6)
            i = t_.mk_round('floor', h6)
            f = sub(h6, i)
            z = lambda e: sat8(scale(e, 255))
            p = z(mul(val, sub(ONE, s)))
            q = z(mul(val, sub(ONE, mul(s, f))))
            t = z(mul(val, sub(ONE, mul(s, sub(ONE, f)))))
            V = z(val)
            tab = [(V, t, p), (q, V, p), (p, V, t), (p, q, V), (t, p, V), (V, p, q)]
            out = []
            for c in range(3):
                e = tab[5][c]
                # a hue of 1 is a full turn, the same as a hue of 0
                for k in (6, 4, 3, 2, 1, 0):
                    e = mk_ite(mk_eq(sat8(i), num(k)), tab[k % 6][c], e)
                out.append(mk_ite(mk_eq(s, ZERO), V, e))
            return out
        # the encoders: one obligation per weak ordering of the three colour values
        lo, st1, st2 = var('min', 'u8'), var('step1', 'u8'), var('step2', 'u8')
        for fn, spec in (('rgb_to_hsv', hsv8), ('rgb_to_hsv_f32', hsvf)):
            def g(fn=fn, spec=spec):
                for o in weak_orders(3):
                    lev = [lo, add(lo, st1), add(lo, st1, st2)]
                    top = lev[max(o)]
                    pre = (le0i(sub(ONE, st1)), le0i(sub(ONE, st2)), le0i(sub(top, num(255))))
                    dom = {'min': lambda q: q.choice([0, q.randint(0, 150)]), 'step1': lambda q: q.randint(1, 50), 'step2': lambda q: q.randint(1, 50)}
                    v = [lev[j] for j in o]
                    H = ctx.har(cfg)
                    im = H.image('img', 'u8', C=num(3), A=FALSE, W=ONE, H=ONE, data=mk('lit', *v))
                    r = H.call(fn, pre, a1=im)
                    w = spec(v)
                    for c in range(3):
                        ctx.eq('%s for the ordering %s, channel %d%s' % (fn, o, c, tag), elem(field(r, 1), num(c)), w[c], pre, dom, 'colorspace::' + fn)
                    nopanic(ctx, '%s for the ordering %s%s' % (fn, o, tag), H, pre, dom, 'colorspace::' + fn)
            ctx.guard(fn + tag, g)
        case('rgb_to_hsv', '', 'u8', hsv8, u8f)
        case('hsv_to_rgb', '', 'u8', rgb8, u8f)
        case('rgb_to_hsv_f32', '', 'u8', hsvf, u8f)
        case('hsv_to_rgb_f32', '', 'real', rgbf, unit)
        case('rgb_to_grayscale_norm', '', 'u8', lambda v: [t_.mk_idiv(add(*v), num(3))], u8f, outc=1)
        case('rgb_to_grayscale_f32', '', 'real', lambda v: [mul(add(*v), R(1, 3))], unit, outc=1)
        if cfg in ('none', 'par'):
            case('rgb_to_grayscale', '', 'u8', lambda v: [t_.mk_idiv(add(*v), num(3))], u8f, outc=1)
        for wh in WHITES:
            def ws(wh=wh):
                H = ctx.har(cfg)
                r = H.call('xyz_tristimulus_vals', (), a1=enum(wd, 'White', wh))
                ctx.note_run(H)
                for j, w in enumerate(WHITES[wh]):
                    ctx.eq('tristimulus value %d of %s%s' % (j, wh, tag), field(r, j), D_(w), (), {}, 'util::xyz_tristimulus_vals')
            ctx.guard('whites' + tag, ws)
    each(ctx, one, ['linearize_srgb_f32', 'unlinearize_srgb_f32', 'srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32', 'xyz_to_lab_f32', 'lab_to_xyz_f32', 'rgb_to_hsv_f32', 'hsv_to_rgb_f32', 'rgb_to_hsv', 'hsv_to_rgb',
                    'rgb_to_grayscale', 'rgb_to_grayscale_f32', 'xyz_tristimulus_vals'])


PROPS = {
    'C38': (c38, 'proof', 'normalize_laplacian is interpreted for an arbitrary non-constant gray image; every output pixel must be the rounded linear image of its input, smallest value to 0 and largest to 255.'),
    'C06': (c06, 'proof', 'The output of every tone, colour-space and threshold operation on images with alpha is interpreted to a term; its last channel must equal the (re-encoded) last channel of the input.'),
    'C22': (c22, 'proof', 'max_3, min_3, max_4, min_4 and clamp_zero are interpreted under every weak ordering of their arguments; the resulting term must equal the largest/smallest argument.'),
    'C23': (c23, 'proof', 'Encoder and decoder are interpreted one after the other; the resulting term must be the input (matrix pairs: coefficients of the product within 1e-5 of the identity).'),
    'C36': (c36, 'proof', 'Every single colour-space step is interpreted for an arbitrary pixel and compared with the standard formula.'),
    'C24': (c24, 'proof', 'Every composite conversion is interpreted with its steps replaced by arbitrary functions (and again with the steps inlined); the term must be the documented composition with one reference white.'),
    'C25': (c25, 'proof', 'Every From impl and scaling function is interpreted to a term per channel and compared with the documented formula.'),
    'C27': (c27, 'proof', 'Every 8-bit tone function is interpreted for all values and parameters; the per-channel term must equal the saturating formula.'),
}
