"""C30: histogram percentiles and histogram equalisation."""
from check import *
from p_filter import okimg
from p_color import opaque, nopanic


def c30(ctx):
    pr, al, key = var('prec', 'real'), var('alpha', 'real'), var('key', 'i32')
    dom = {'prec': lambda q: q.choice([0, 1, 2, Fraction(1, 2), 3, 4]), 'key': lambda q: q.randint(-3, 12),
           'img.data*': lambda q: q.choice([0, 0, 1, 1, 2, 3, Fraction(1, 2), Fraction(3, 4), Fraction(5, 4), Fraction(8, 3), -1]),
           'alpha': lambda q: Fraction(q.randint(0, 4), 4)}
    ppos = (le0r(neg(pr)),)
    unit = (le0r(neg(al)), le0r(sub(al, ONE)))

    def kof(v):
        return t_.mk_sat('i32', t_.mk_round('round', mul(v, pr)))

    def count(im, f):
        """(some pixel has key k, number of pixels with a key up to k / number of pixels)"""
        W, Ht = field(field(im, 0), 0), field(field(im, 0), 1)
        y, x = fresh_bv(Ht), fresh_bv(W)

        def over(t, mk_):
            return mk_(y, Ht, mk_(x, W, t))
        return (lambda k: over(mk_eq(f(x, y), k), t_.mk_exists),
                lambda k: mul(add(over(mk_ite(mk_eq(f(x, y), k), ONE, ZERO), t_.mk_sum), over(mk_ite(lt(f(x, y), k, True), ONE, ZERO), t_.mk_sum)), inv(mul(W, Ht))))

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        wd = ctx.world(cfg)

        def gen():
            for Cn in (None, ONE, num(3)):
                H = ctx.har(cfg)
                im = H.image('img', 'real', **({} if Cn is None else {'C': Cn}))
                W, Ht, C, A, D = img_parts(im)
                fn = 'util::generate_histogram_percentiles'
                nm = '%s(%s channels)%s' % (fn[6:], 'any' if Cn is None else Cn.a[0], tag)
                H.call(fn, ppos, a1=im, a2=mk('agg', 'map', 0, FALSE, ZERO), a3=pr)
                out = H.out('a2')
                if out.op != 'agg' or out.a[0] != 'map':
                    ctx.add(nm, 'undecided', fn, 'the percentiles are not a map in closed form')
                    return
                has, val = count(im, lambda x, y: kof(elem(D, px(W, C, x, y, ZERO))))
                h2, v2 = t_.map_at(out.a[2], key), t_.map_at(out.a[3], key)
                ctx.eq(nm + ' has exactly the keys of the pixels', h2, has(key), ppos, dom, fn)
                ctx.eq(nm + ' gives each key its cumulative relative frequency', mk_ite(h2, v2, ZERO), mk_ite(has(key), val(key), ZERO), ppos, dom, fn)
                nopanic(ctx, nm, H, ppos, dom, fn)
        ctx.guard('generate_histogram_percentiles' + tag, gen)

        def equal():
            for A0 in (FALSE, TRUE):
                for wh in ('D50', 'D65'):
                    H = ctx.har(cfg)
                    opaque(H, 'colorspace::srgb_to_lab_f32', 'lab', 'real')
                    opaque(H, 'colorspace::lab_to_srgb_f32', 'srgb', 'u8')
                    im = H.image('img', 'u8', A=A0, C=num(4 if A0 is TRUE else 3))
                    W, Ht, C, A, D = img_parts(im)
                    w = enum(wd, 'White', wh)
                    fn = 'tone::histogram_equalization'
                    nm = 'histogram_equalization(%s, %s)%s' % ('alpha' if A0 is TRUE else 'no alpha', wh, tag)
                    pre = ppos + unit
                    r = H.call('histogram_equalization', pre, a1=im, a2=al, a3=w, a4=pr)
                    wd_ = t_.discr(w)

                    def lab(x, y, c):
                        p = px(W, C, x, y, c)
                        return mk('app', 'lab', 'real', elem(D, p), p, wd_)
                    has, val = count(im, lambda x, y: kof(lab(x, y, ZERO)))

                    def f(x, y, c):
                        v = lab(x, y, c)
                        if c is ZERO:
                            v = add(scale(mul(al, val(kof(v))), 100), mul(sub(ONE, al), v))
                        return mk('app', 'srgb', 'u8', v, px(W, C, x, y, c), wd_)
                    okimg(ctx, nm, H, r, W, Ht, C, A, f, pre, dict(dom, **{'img.data*': lambda q: q.choice([0, 1, 2, 3])}), fn)
        ctx.guard('histogram_equalization' + tag, equal)
    each(ctx, one, ['generate_histogram_percentiles', 'histogram_equalization'])


PROPS = {
    'C30': (c30, 'proof', 'generate_histogram_percentiles is interpreted with maps as functions of an arbitrary key: the set of keys and the value of every key must equal the cumulative relative frequency; histogram_equalization must replace L* by the weighted mean of it and the percentile.'),
}
