"""C07, C08: argument validation and result shapes of the public operations."""
from check import *
from terms import MONE
import p_median

OKV = lambda v: agg('core::result::Result', 0, v)


def stub(H, *names):
    """named functions return some well-typed value and change nothing; error results stay possible only where the checks are"""
    for name in names:
        try:
            key = find(H.w, name)
        except Missing:
            continue
        t = H.w.bodies[key]['locals'][0]

        def f(I, a, st, t=t, name=name):
            def val(t):
                k = t.get('k')
                if k == 'tuple' and not t.get('a'):
                    return tup()
                if k == 'adt' and t['n'].endswith('Result'):
                    return OKV(val(t['a'][0]))
                if k == 'adt' and t['n'].endswith('Option'):
                    return NONE
                return H.value(t, 'stub.' + name.split('::')[-1])
            return val(t)
        H.I.overrides[key] = f


SHAPE_STUBS = ['process_cols_med', 'process_cols_mean', 'interpolate_nearest_neighbor', 'interpolate_bilinear', 'interpolate_bicubic', 'interpolate_lanczos',
               'scale_nearest_neighbor', 'scale_bilinear', 'scale_bicubic', 'scale_lanczos_resampling', 'separate_kernel',
               'adds_256_u8', 'adds_n_256_u8', 'srgb_to_lab_f32', 'lab_to_srgb_f32', 'rgb_to_hsv', 'hsv_to_rgb', 'bilateral_direct_pixel',
               'generate_histogram_percentiles', 'generate_summed_area_table', 'brightness_rgb_norm', 'saturation_norm',
               'rectangular_intensity_sum', 'filter::bilateral::bilateral_direct_pixel']


def c07(ctx):
    k = var('half', 'u8')
    ev = scale(k, 2)
    od = add(ev, ONE)
    real = lambda n: var(n, 'real')
    i16 = lambda n: var(n, 'i16')
    neg_ = lambda v: mk_not(le0r(neg(v)))
    nonneg = lambda v: le0r(neg(v))
    seq = lambda n, nm='kernel': svar(nm, n, 'real')
    gt = lambda a, b: mk_not(le0r(sub(a, b)))
    dom0 = {'half': lambda q: q.randint(0, 3)}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def case(fn, label, args, good, pre=(), stubs=(), dom=None, img=None):
            def g():
                H = ctx.har(cfg)
                stub(H, *(set(SHAPE_STUBS) | set(stubs)))
                kw = {}
                for n, v in args.items():
                    kw[n] = v(H) if callable(v) else v
                p = pre(kw) if callable(pre) else pre
                r = H.call(fn, p, **kw)
                ctx.note_run(H)
                d = dict(dom0)
                d.update(dom or {})
                if good:
                    ctx.never('%s accepts %s%s' % (fn, label, tag), is_err(r), p, d, fn)
                else:
                    ctx.eq('%s rejects %s%s' % (fn, label, tag), is_err(r) if r is not None else FALSE, TRUE, p, d, fn)
            ctx.guard('%s %s%s' % (fn, label, tag), g)
        img = lambda ety='real', **kw: (lambda H: H.image('img', ety, **kw))
        gray = lambda ety='real': img(ety, C=ONE, A=FALSE)
        # kernels
        case('filter_1d', 'an even kernel', {'a1': img(), 'a2': seq(ev)}, False)
        case('filter_1d', 'an odd kernel', {'a1': img(), 'a2': seq(od)}, True)
        k2 = var('half2', 'u8')
        od2 = add(scale(k2, 2), ONE)
        st1 = ('filter_1d',)
        case('separable_filter', 'an even vertical kernel', {'a1': img(), 'a2': seq(ev, 'v'), 'a3': seq(od2, 'h')}, False, (), st1)
        case('separable_filter', 'an even horizontal kernel', {'a1': img(), 'a2': seq(od2, 'v'), 'a3': seq(ev, 'h')}, False, (), st1)
        case('separable_filter', 'kernels of different length', {'a1': img(), 'a2': seq(od, 'v'), 'a3': seq(od2, 'h')}, False, (mk_not(mk_eq(k, k2)),), st1,
             {'half2': lambda q: q.randint(0, 3)})
        case('separable_filter', 'odd kernels of equal length', {'a1': img(), 'a2': seq(od, 'v'), 'a3': seq(od, 'h')}, True, (), st1)
        for fn, st in (('unseparable_filter', ()), ('linear_filter', ('separable_filter', 'unseparable_filter'))):
            case(fn, 'an even kernel', {'a1': img(), 'a2': seq(ev)}, False, (), st)
            for n in (3, 5, 7, 11, 15, 21, 27, 45, 75):
                case(fn, 'a kernel of %d entries' % n, {'a1': img(), 'a2': seq(num(n))}, False, (), st)
            for n in (1, 9, 25, 49, 81, 121):
                case(fn, 'a kernel of %d entries' % n, {'a1': img(), 'a2': seq(num(n))}, True, (), st)
        for fn in ('box_filter', 'weighted_avg_filter'):
            st = ('separable_filter', 'unseparable_filter')
            case(fn, 'an even size', {'a1': img(), 'a2': ev}, False, (), st)
            case(fn, 'an odd size', {'a1': img(), 'a2': od}, True, (), st)
        sg = real('sigma')
        sd = {'sigma': lambda q: Fraction(q.choice([-3, -1, 0, 1, 2, 9]), 4)}
        for fn in ('gaussian_blur', 'laplacian_of_gaussian'):
            st = ('linear_filter', 'unseparable_filter')
            case(fn, 'an even size', {'a1': img(), 'a2': ev, 'a3': sg}, False, (), st, sd)
            for n in (1, 3, 5, 7, 11):
                case(fn, 'size %d and a positive sigma' % n, {'a1': img(), 'a2': num(n), 'a3': sg}, True, (gt(sg, ZERO),), st, sd)
            case(fn, 'an odd size and a positive sigma', {'a1': img(), 'a2': od, 'a3': sg}, True, (gt(sg, ZERO),), st, sd)
        for fn in ('generate_gaussian_kernel', 'generate_log_kernel', 'generate_spatial_mat'):
            case(fn, 'an even size', {'a1': ev, 'a2': sg}, False, (), (), sd)
            for n in (1, 3, 5, 7, 11):
                if fn == 'generate_spatial_mat':
                    case(fn, 'a negative sigma (size %d)' % n, {'a1': num(n), 'a2': sg}, False, (neg_(sg),), (), sd)
                case(fn, 'size %d and a positive sigma' % n, {'a1': num(n), 'a2': sg}, True, (gt(sg, ZERO),), (), sd)
            if fn == 'generate_spatial_mat':
                case(fn, 'an odd size and a negative sigma', {'a1': od, 'a2': sg}, False, (neg_(sg),), (), sd)
            case(fn, 'an odd size and a positive sigma', {'a1': od, 'a2': sg}, True, (gt(sg, ZERO),), (), sd)
        case('gaussian_fn', 'a negative sigma', {'a1': real('x'), 'a2': sg}, False, (neg_(sg),), (), sd)
        case('gaussian_fn', 'a positive sigma', {'a1': real('x'), 'a2': sg}, True, (gt(sg, ZERO),), (), sd)
        # grayscale only
        gs = [('threshold', {'a2': real('threshold'), 'a3': real('max')}, 'real'), ('erode', {'a2': k}, 'u8'), ('dilate', {'a2': k}, 'u8'), ('majority', {'a2': k}, 'u8'),
              ('gradient', {'a2': k}, 'u8'), ('morphology::open', {'a2': k}, 'u8'), ('morphology::close', {'a2': k}, 'u8'),
              ('derivative_mask', {'a2': seq(od, 'v'), 'a3': seq(od, 'h')}, 'real'), ('prewitt', {}, 'real'), ('sobel', {}, 'real'), ('sobel_weighted', {'a2': k}, 'real'),
              ('normalize_laplacian', {}, 'real')]
        for fn, kw, ety in gs:
            st = ('separable_filter',)
            for label, C, A in (('three channels', num(3), FALSE), ('colour with alpha', num(4), TRUE), ('two channels without alpha', num(2), FALSE), ('a lone alpha channel', ONE, TRUE)):
                case(fn, label, dict(kw, a1=img(ety, C=C, A=A)), False, (), st)
            case(fn, 'any other layout', dict(kw, a1=img(ety)), False, lambda q: (mk_not(mk_eq(field(field(q['a1'], 0), 2), ONE)), mk_not(mk_eq(field(field(q['a1'], 0), 2), num(2)))), st)
            case(fn, 'a grayscale image', dict(kw, a1=gray(ety)), True, (), st)
        case('threshold', 'a grayscale image with alpha', {'a1': img(C=num(2), A=TRUE)}, True)
        # ranges
        rgn, sp = real('range'), real('spatial')
        st = ('generate_spatial_mat',)
        case('bilateral_filter', 'a negative range', {'a1': img('u8'), 'a2': rgn, 'a3': sp}, False, (neg_(rgn),), st)
        case('bilateral_filter', 'a negative spatial value', {'a1': img('u8'), 'a2': rgn, 'a3': sp}, False, (neg_(sp),), st)
        case('bilateral_filter', 'positive parameters', {'a1': img('u8'), 'a2': rgn, 'a3': sp}, True, (gt(rgn, ZERO), gt(sp, ZERO)), st)
        for fn, nm in (('brightness', 'bias'), ('brightness_lab', 'bias'), ('saturation', 'saturation')):
            b = i16(nm)
            case(fn, nm + ' above 255', {'a1': img('u8', C=num(3), A=FALSE), 'a2': b}, False, (le0i(sub(num(256), b)),))
            case(fn, nm + ' below -255', {'a1': img('u8', C=num(3), A=FALSE), 'a2': b}, False, (le0i(add(b, num(256))),))
            case(fn, nm + ' between -255 and 255', {'a1': img('u8', C=num(3), A=FALSE), 'a2': b}, True, (le0i(sub(b, num(255))), le0i(sub(num(-255), b))))
        for fn in ('contrast', 'contrast_lab'):
            b = real('gain')
            u = {'gain': lambda q: Fraction(q.choice([-5, -1, 0, 1, 2, 4, 5, 9]), 4)}
            case(fn, 'a gain above 1', {'a1': img('u8'), 'a2': b}, False, (gt(b, ONE),), (), u)
            case(fn, 'a negative gain', {'a1': img('u8'), 'a2': b}, False, (neg_(b),), (), u)
            case(fn, 'a gain from 0 to 1', {'a1': img('u8'), 'a2': b}, True, (nonneg(b), le0r(sub(b, ONE))), (), u)
        g_ = real('gamma')
        case('gamma', 'a negative gamma', {'a1': img('u8'), 'a2': g_}, False, (neg_(g_),))
        case('gamma', 'a non-negative gamma', {'a1': img('u8'), 'a2': g_}, True, (nonneg(g_),))
        al, pr = real('alpha'), real('precision')
        u = {'alpha': lambda q: Fraction(q.choice([-5, -1, 0, 1, 2, 4, 5, 9]), 4), 'precision': lambda q: q.randint(-3, 3)}
        inside = (nonneg(al), le0r(sub(al, ONE)))
        for label, p in (('an equalisation amount above 1', (gt(al, ONE),)), ('a negative equalisation amount', (neg_(al),)), ('a negative precision', (neg_(pr),))):
            case('histogram_equalization', label, {'a1': img('u8'), 'a2': al, 'a4': pr}, False, p, (), u)
        case('histogram_equalization', 'valid parameters', {'a1': img('u8'), 'a2': al, 'a4': pr}, True, inside + (nonneg(pr),), (), u)
        two = {'a1': lambda H: H.image('back'), 'a2': lambda H: H.image('front')}
        same = {'a1': lambda H: H.image('back'), 'a2': lambda H: H.image('front', C=var('back.c', 'chan'))}
        xy = {'a3': var('x', 'u16'), 'a4': var('y', 'u16')}
        ch = (mk_not(mk_eq(var('back.c', 'chan'), var('front.c', 'chan'))),)
        case('superimpose', 'different channel counts', dict(two, **xy, a5=al), False, ch, (), u)
        case('superimpose', 'a weight above 1', dict(same, **xy, a5=al), False, (gt(al, ONE),), (), u)
        case('superimpose', 'a negative weight', dict(same, **xy, a5=al), False, (neg_(al),), (), u)
        case('superimpose', 'equal channels and a weight from 0 to 1', dict(same, **xy, a5=al), True, inside, (), u)
        case('overlay', 'different channel counts', dict(two, **xy), False, ch)
        case('overlay', 'equal channel counts', dict(same, **xy), True)
        info = lambda q, i, j: field(field(q['a%d' % i], 0), j)
        ab = {'a1': lambda H: H.image('original'), 'a2': lambda H: H.image('filtered')}
        for j, nm in enumerate(('widths', 'heights', 'channel counts', 'alpha flags')):
            case('residual', 'different ' + nm, ab, False, lambda q, j=j: (mk_not(mk_eq(info(q, 1, j), info(q, 2, j))),))
        o = [var('original.' + x, t) for x, t in (('w', 'nat1'), ('h', 'nat1'), ('c', 'chan'), ('alpha', 'bool'))]
        case('residual', 'images of equal shape', {'a1': lambda H: H.image('original'), 'a2': lambda H: H.image('filtered', W=o[0], H=o[1], C=o[2], A=o[3])}, True)
        # trim count
        rad, tr = var('radius', 'u8'), var('trim', 'u16')
        s2 = t_.power(add(scale(rad, 2), ONE), 2)
        td = {'radius': lambda q: q.randint(0, 3), 'trim': lambda q: q.randint(0, 60)}
        case('alpha_trimmed_mean_filter', 'an odd trim count', {'a1': img('u8'), 'a2': rad, 'a3': tr}, False, (mk_eq(mk_mod(tr, num(2)), ONE),), (), td)
        case('alpha_trimmed_mean_filter', 'a trim count that leaves nothing', {'a1': img('u8'), 'a2': rad, 'a3': tr}, False, (le0i(sub(s2, tr)),), (), td)
        case('alpha_trimmed_mean_filter', 'an even trim count below the window size', {'a1': img('u8'), 'a2': rad, 'a3': tr}, True,
             (mk_eq(mk_mod(tr, num(2)), ZERO), le0i(sub(add(tr, ONE), s2))), (), td)
        # crop
        x, y, w_, h_ = (var(n, 'u16') for n in ('x', 'y', 'width', 'height'))
        cd = {n: (lambda q: q.randint(0, 5)) for n in ('x', 'y', 'width', 'height')}
        ca = {'a1': img(), 'a2': x, 'a3': y, 'a4': w_, 'a5': h_}
        W = lambda q: info(q, 1, 0)
        Hh = lambda q: info(q, 1, 1)
        case('crop', 'a rectangle leaving the right edge', ca, False, lambda q: (le0i(sub(add(W(q), ONE), add(x, w_))),), (), cd)
        case('crop', 'a rectangle leaving the bottom edge', ca, False, lambda q: (le0i(sub(add(Hh(q), ONE), add(y, h_))),), (), cd)
        case('crop', 'a rectangle inside the image', ca, True, lambda q: (le0i(sub(add(x, w_), W(q))), le0i(sub(add(y, h_), Hh(q))), le0i(sub(ONE, w_)), le0i(sub(ONE, h_))), (), cd)
        # scaling
        fx, fy = real('x_factor'), real('y_factor')
        fd = {n: (lambda q: Fraction(q.choice([-3, -1, 1, 2, 5]), 2)) for n in ('x_factor', 'y_factor')}
        for fn, kw in (('scale', {}), ('scale_lanczos', {'a4': num(3)})):
            a = dict(kw, a1=img(), a2=fx, a3=fy)
            case(fn, 'a negative horizontal factor', a, False, (neg_(fx),), (), fd)
            case(fn, 'a negative vertical factor', a, False, (neg_(fy),), (), fd)
            case(fn, 'positive factors', a, True, (gt(fx, ZERO), gt(fy, ZERO)), (), fd)
        # kernel application
        kpos = 'a3' if ctx.world(cfg).bodies[find(ctx.world(cfg), 'apply_1d_kernel')]['argc'] == 3 else 'a2'
        sub_ = lambda w, h: (lambda H: H.subimage('win', W=w, H=h))
        n, m = var('n', 'u8'), var('m', 'u8')
        kd = {'n': lambda q: q.randint(1, 9), 'm': lambda q: q.randint(1, 9)}
        one_ = (le0i(sub(ONE, n)), le0i(sub(ONE, m)))
        case('apply_1d_kernel', 'an even kernel', {'a1': sub_(n, ONE), kpos: seq(ev)}, False, one_, (), kd)
        case('apply_1d_kernel', 'a kernel of another length than the window', {'a1': sub_(n, m), kpos: seq(od)}, False, one_ + (mk_not(mk_eq(mul(n, m), od)),), (), kd)
        case('apply_1d_kernel', 'an odd kernel as long as the horizontal window', {'a1': sub_(od, ONE), kpos: seq(od)}, True)
        case('apply_1d_kernel', 'an odd kernel as long as the vertical window', {'a1': sub_(ONE, od), kpos: seq(od)}, True)
        case('apply_2d_kernel', 'an even kernel', {'a1': sub_(n, n), kpos: seq(ev)}, False, one_[:1], (), kd)
        case('apply_2d_kernel', 'a kernel of another size than the window', {'a1': sub_(n, n), kpos: seq(m)}, False, one_ + (mk_not(mk_eq(mul(n, n), m)),), (), kd)
        case('apply_2d_kernel', 'a kernel as large as its odd window', {'a1': sub_(od, od), kpos: seq(mul(od, od))}, True)
        case('vector_mul', 'a matrix that does not fit the vector', {'a1': seq(mul(n, m), 'mat'), 'a2': seq(n, 'vec')}, False, one_ + (mk_not(mk_eq(n, m)),), (), kd)
        case('vector_mul', 'a matching square matrix', {'a1': seq(mul(n, n), 'mat'), 'a2': seq(n, 'vec')}, True, one_[:1], (), kd)
        case('vector_mul_mut', 'a matrix that does not fit the vector', {'a1': seq(mul(n, m), 'mat'), 'a2': seq(n, 'vec')}, False, one_ + (mk_not(mk_eq(n, m)),), (), kd)
        case('vector_mul_mut', 'a matching square matrix', {'a1': seq(mul(n, n), 'mat'), 'a2': seq(n, 'vec')}, True, one_[:1], (), kd)
    each(ctx, one, ['filter_1d', 'separable_filter', 'unseparable_filter', 'linear_filter', 'scale', 'crop', 'bilateral_filter', 'brightness', 'saturation'])


# ------------------------------------------------------------------ C08
def simd_stubs(H):
    """vectorised kernels replaced by any image of the shape they are specified to return (their own code: C13, C14)"""
    def same(I, a, st):
        i = I.snapshot(st, a[0])
        return agg(IMAGE, 0, field(i, 0), svar('simd.out', length(field(i, 1)), 'u8'))

    def gray(I, a, st):
        W, Ht, C, A, D = img_parts(I.snapshot(st, a[0]))
        c = mk_ite(A, num(2), ONE)
        return agg(IMAGE, 0, agg(INFO, 0, W, Ht, c, A), svar('simd.out', mul(W, Ht, c), 'u8'))
    for nm, f in (('adds_256_u8', same), ('adds_n_256_u8', same), ('avg_checked_256_u8', gray), ('avg_256_u8', gray), ('avg_alpha_256_u8', gray)):
        try:
            H.override(nm, f)
        except Missing:
            pass


def conversion_stubs(H):
    """colour conversions replaced by any image of the same shape (their own shape is decided separately)"""
    for nm, ety in (('srgb_to_lab_f32', 'real'), ('lab_to_srgb_f32', 'u8'), ('rgb_to_hsv', 'u8'), ('hsv_to_rgb', 'u8')):
        def same(I, a, st, nm=nm, ety=ety):
            i = I.snapshot(st, a[0])
            return agg(IMAGE, 0, field(i, 0), svar(nm + '.out', length(field(i, 1)), ety))
        H.override(nm, same)


def c08(ctx):
    dom0 = DOM0

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        def case(fn, kw, shape='same', pre=(), stubs=(), dom=None, ety='real', C=None, A=None, result=True, label='', a1=None):
            def g():
                H = ctx.har(cfg)
                simd_stubs(H)
                if fn in ('bilateral_filter', 'brightness_lab', 'contrast_lab', 'saturation', 'histogram_equalization'):
                    conversion_stubs(H)
                stub(H, 'process_cols_med', 'process_cols_mean', 'separate_kernel', 'generate_histogram_percentiles', *stubs)
                im = a1(H) if a1 else H.image('img', ety, C=C, A=A)
                W, Ht, C_, A_, D = img_parts(im)
                args = {q: (v(H) if callable(v) else v) for q, v in kw.items()}
                p = pre(im) if callable(pre) else pre
                r = H.call(fn, p, a1=im, **args)
                ctx.note_run(H)
                if r is None:
                    ctx.add(fn + label + tag, 'undecided', fn, 'never returns')
                    return
                img = unwrap(r) if result else r
                info = field(img, 0)
                want = (W, Ht, C_, A_) if shape == 'same' else shape(W, Ht, C_, A_)
                ok = tuple(p) + ((mk_not(is_err(r)),) if result else ())
                for i, nm in enumerate(('width', 'height', 'channels', 'alpha')):
                    if want[i] is not None:
                        ctx.eq('%s%s keeps the documented %s%s' % (fn, label, nm, tag), dsimp(field(info, i), ok), want[i], p, dom or dom0, fn)
                d = field(img, 1)
                n = mul(field(info, 0), field(info, 1), field(info, 2))
                ctx.eq('%s%s stores width*height*channels values%s' % (fn, label, tag), length(d), n, p, dom or dom0, fn)
            ctx.guard(fn + label + tag, g)
        api(wd, case)
    each(ctx, one, ['filter_1d', 'linear_filter', 'scale', 'scale_lanczos', 'crop', 'bilateral_filter', 'brightness', 'saturation', 'rgb_to_grayscale'])
    # the sliding-window filters: the failure conditions of their parts under the contracts of C32 and C39
    only = OnlyFailures(ctx)
    p_median.c32(only)
    p_median.c39(only)


class OnlyFailures:
    """keeps the obligations about failures"""

    def __init__(self, ctx):
        self.__dict__['ctx'] = ctx

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def __setattr__(self, k, v):
        setattr(self.ctx, k, v)

    def eq(self, *a, **kw):
        return True

    def image_eq(self, *a, **kw):
        return True

    def add(self, name, status, *a, **kw):
        if status == 'undecided':
            self.ctx.add(name, status, *a, **kw)



DOM0 = {'half': lambda q: q.randint(0, 2), 'radius': lambda q: q.randint(0, 3), 'trim': lambda q: q.randint(0, 8), 'bias': lambda q: q.randint(-255, 255)}
for _n in ('x', 'y', 'width', 'height'):
    DOM0[_n] = lambda q: q.randint(0, 5)
for _n in ('gain', 'alpha'):
    DOM0[_n] = lambda q: Fraction(q.randint(0, 8), 8)
for _n in ('sigma', 'range', 'spatial', 'gamma', 'precision'):
    DOM0[_n] = lambda q: Fraction(q.randint(1, 6), 4)
for _n in ('x_factor', 'y_factor'):
    DOM0[_n] = lambda q: Fraction(q.randint(1, 10), 4)


def api(wd, case):
    """one case per public operation and kind of image"""
    k = var('half', 'u8')
    s = add(scale(k, 2), ONE)
    real = lambda n: var(n, 'real')
    seq = lambda n, nm='kernel': svar(nm, n, 'real')
    gray = dict(C=ONE, A=FALSE)
    graya = dict(C=num(2), A=TRUE)
    col = dict(C=num(3), A=FALSE)
    cola = dict(C=num(4), A=TRUE)
    for v in (TRUE, FALSE):
        case('filter_1d', {'a2': seq(s), 'a3': v}, label='(vertical)' if v is TRUE else '(horizontal)')
    case('separable_filter', {'a2': seq(s, 'v'), 'a3': seq(s, 'h')})
    for fn in ('unseparable_filter', 'linear_filter'):
        case(fn, {'a2': seq(mul(s, s))})
    case('box_filter', {'a2': s})
    case('weighted_avg_filter', {'a2': s, 'a3': var('weight', 'u16')})
    for fn in ('gaussian_blur', 'laplacian_of_gaussian'):
        case(fn, {'a2': num(3), 'a3': real('sigma')})
    for fn in ('sharpen', 'unsharp_masking', 'laplacian'):
        case(fn, {})
    for m in ('Binary', 'BinaryInv', 'Trunc', 'ToZero', 'ToZeroInv'):
        for C, A in ((ONE, FALSE), (num(2), TRUE)):
            case('threshold', {'a2': real('threshold'), 'a3': real('max'), 'a4': enum(wd, 'Thresh', m)}, C=C, A=A, label='(%s)' % m)
    for fn, kw in (('derivative_mask', {'a2': seq(s, 'v'), 'a3': seq(s, 'h')}), ('prewitt', {}), ('sobel', {}), ('sobel_weighted', {'a2': var('weight', 'u16')}), ('normalize_laplacian', {})):
        case(fn, kw, **gray)
        case(fn, kw, label='(with alpha)', **graya)
    o = [var('img.' + x, t) for x, t in (('w', 'nat1'), ('h', 'nat1'), ('c', 'chan'), ('alpha', 'bool'))]
    case('residual', {'a2': lambda H: H.image('filtered', W=o[0], H=o[1], C=o[2], A=o[3])})
    case('median_filter', {'a2': var('radius', 'u8')}, ety='u8')
    tr = var('trim', 'u16')
    case('alpha_trimmed_mean_filter', {'a2': var('radius', 'u8'), 'a3': tr}, ety='u8')
    rg, sp = real('range'), real('spatial')
    case('bilateral_filter', {'a2': rg, 'a3': sp, 'a4': enum(wd, 'Bilateral', 'Direct')}, ety='u8',
         pre=(mk_not(le0r(rg)), mk_not(le0r(sp))), stubs=('generate_spatial_mat',), **col)
    for fn in ('erode', 'dilate', 'majority', 'gradient', 'morphology::open', 'morphology::close'):
        case(fn, {'a2': var('radius', 'u8')}, ety='u8', **gray)
        case(fn, {'a2': var('radius', 'u8')}, ety='u8', label='(with alpha)', **graya)
    # tone
    for fn in ('brightness', 'brightness_lab', 'saturation'):
        for q in (col, cola):
            case(fn, {'a2': var('bias', 'i16')}, ety='u8', label='(%d channels)' % q['C'].a[0], **q)
    for fn in ('contrast', 'contrast_lab'):
        for q in (col, cola):
            case(fn, {'a2': real('gain')}, ety='u8', label='(%d channels)' % q['C'].a[0], **q)
    case('gamma', {'a2': real('gamma'), 'a3': var('max', 'u8')}, ety='u8')
    case('histogram_equalization', {'a2': real('alpha'), 'a4': real('precision')}, ety='u8', **col)
    # transforms
    case('translate', {'a2': var('x', 'u16'), 'a3': var('y', 'u16')})
    for m in ('Horizontal', 'Vertical'):
        case('reflect', {'a2': enum(wd, 'Refl', m)}, label='(%s)' % m)
    fr = lambda H: H.image('front', C=var('img.c', 'chan'))
    case('overlay', {'a2': fr, 'a3': var('x', 'u16'), 'a4': var('y', 'u16')})
    case('superimpose', {'a2': fr, 'a3': var('x', 'u16'), 'a4': var('y', 'u16'), 'a5': real('alpha')})
    x, y, w_, h_ = (var(n, 'u16') for n in ('x', 'y', 'width', 'height'))
    case('crop', {'a2': x, 'a3': y, 'a4': w_, 'a5': h_}, lambda W, H, C, A: (w_, h_, C, A),
         lambda im: (le0i(sub(add(x, w_), field(field(im, 0), 0))), le0i(sub(add(y, h_), field(field(im, 0), 1))), le0i(sub(ONE, w_)), le0i(sub(ONE, h_))))
    fx, fy = real('x_factor'), real('y_factor')
    pos = (mk_not(le0r(fx)), mk_not(le0r(fy)))
    rnd = lambda n, f: t_.mk_sat('u32', t_.mk_round('round', mul(n, f)))
    sc = lambda W, H, C, A: (rnd(W, fx), rnd(H, fy), C, A)
    for m in ('NearestNeighbor', 'Bilinear', 'Bicubic', 'Lanczos'):
        case('scale', {'a2': fx, 'a3': fy, 'a4': enum(wd, 'Scale', m)}, sc, pos, label='(%s)' % m)
    case('scale_lanczos', {'a2': fx, 'a3': fy, 'a4': num(2)}, sc, pos)
    for fn, kw in (('rotate', {'a2': real('degrees')}), ('shear', {'a2': real('shear_x'), 'a3': real('shear_y')})):
        case(fn, kw, lambda W, H, C, A: (None, None, C, A))
    # colour
    gs = lambda W, H, C, A: (W, H, num(2) if A is TRUE else ONE, A)
    for C, A in ((num(3), FALSE), (num(4), TRUE), (ONE, FALSE), (num(2), TRUE)):
        lb = '(%d channels)' % C.a[0]
        case('rgb_to_grayscale', {}, gs, ety='u8', C=C, A=A, result=False, label=lb)
        case('rgb_to_grayscale_f32', {}, gs, C=C, A=A, result=False, label=lb)
    for fn, ety in (('linearize_srgb_f32', 'u8'), ('unlinearize_srgb_f32', 'real')):
        case(fn, {}, ety=ety, result=False)
    for fn, ety, wh in (('srgb_lin_to_xyz_f32', 'real', 0), ('xyz_to_srgb_lin_f32', 'real', 0), ('xyz_to_lab_f32', 'real', 1), ('lab_to_xyz_f32', 'real', 1), ('rgb_to_hsv', 'u8', 0),
                        ('hsv_to_rgb', 'u8', 0), ('rgb_to_hsv_f32', 'u8', 0), ('hsv_to_rgb_f32', 'real', 0), ('srgb_to_xyz_f32', 'u8', 0), ('xyz_to_srgb_f32', 'real', 0),
                        ('srgb_to_lab_f32', 'u8', 1), ('lab_to_srgb_f32', 'real', 1)):
        for q in (col, cola):
            case(fn, {}, ety=ety, result=False, label='(%d channels)' % q['C'].a[0], **q)
    # conversions
    case('scale_channels', {})
    case('f32_to_u8_scale', {}, result=False)
    case('u8_to_f32_scale', {}, ety='u8', result=False)
    case('generate_summed_area_table', {}, result=False)


# ------------------------------------------------------------------ C37
def c37(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        def case(fn, kw, shape='same', pre=(), stubs=(), dom=None, ety='real', C=None, A=None, result=True, label='', a1=None):
            if fn in ('median_filter', 'alpha_trimmed_mean_filter'):
                return

            def g():
                H = ctx.har(cfg)
                simd_stubs(H)
                if fn in ('bilateral_filter', 'brightness_lab', 'contrast_lab', 'saturation', 'histogram_equalization'):
                    conversion_stubs(H)
                stub(H, 'separate_kernel')
                im = a1(H) if a1 else H.image('img', ety, C=C, A=A)
                args = {q: (v(H) if callable(v) else v) for q, v in kw.items()}
                p = tuple(pre(im) if callable(pre) else pre)
                H.call(fn, p, a1=im, **args)
                ctx.note_run(H)
                for e in panics(H):
                    ctx.sites += 1
                    ctx.never('%s%s never panics: %s in %s%s' % (fn, label, e.kind, short(e.site[0]), tag), e.formula(), p, dom or DOM0, fn)
            ctx.guard(fn + label + tag, g)
        api(wd, case)
    each(ctx, one, ['filter_1d', 'linear_filter', 'scale', 'scale_lanczos', 'crop', 'bilateral_filter', 'brightness', 'saturation', 'rgb_to_grayscale'])
    # the sliding-window filters: the failure conditions of their parts under the contracts of C32 and C39
    only = OnlyFailures(ctx)
    p_median.c32(only)
    p_median.c39(only)


class OnlyFailures:
    """keeps the obligations about failures"""

    def __init__(self, ctx):
        self.__dict__['ctx'] = ctx

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def __setattr__(self, k, v):
        setattr(self.ctx, k, v)

    def eq(self, *a, **kw):
        return True

    def image_eq(self, *a, **kw):
        return True

    def add(self, name, status, *a, **kw):
        if status == 'undecided':
            self.ctx.add(name, status, *a, **kw)


PROPS = {
    'C37': (c37, 'proof', 'Every panic site reachable from a public operation is interpreted together with its path condition for an arbitrary well-formed image; the condition must be unsatisfiable by normalisation.'),
    'C08': (c08, 'proof', 'value graphs'),
    'C07': (c07, 'proof', 'value graphs'),
}
