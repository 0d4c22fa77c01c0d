"""C01-C05: images, pixels, sub-images, iteration and visitors."""
from check import *

# ------------------------------------------------------------------ C01
def c01(ctx):
    names = ['Image::index', 'Image::BaseImage::get_pixel', 'Image::get_pixel_unchecked', 'Image::Index::index', 'Image::IndexMut::index_mut',
             'Image::get_pixel_mut', 'Image::get_pixel_mut_unchecked', 'Image::set_pixel', 'Image::set_pixel_indexed', 'util::get_2d_coords',
             'SubImage::BaseImage::get_pixel', 'SubImage::Index::index', 'SubImage::to_vec', 'SubImage::data', 'Image::data', 'Image::data_mut']

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for et in ('real', 'u8'):
            env = {'T': et}

            def readers(et=et, env=env):
                for nm, kind in (('Image::index', 'idx'), ('Image::BaseImage::get_pixel', 'xy'), ('Image::get_pixel_unchecked', 'xy'), ('Image::Index::index', 'lin')):
                    H = ctx.har(cfg, **env)
                    r = H.call(nm)
                    W, Ht, C, A, D = img_parts(H.a[0])
                    if kind == 'lin':
                        i = H.a[1]
                        pre = (inr(i, mul(W, Ht)),)
                        start = mul(i, C)
                    else:
                        x, y = H.a[1], H.a[2]
                        pre = (inr(x, W), inr(y, Ht))
                        start = mul(add(mul(y, W), x), C)
                    want = start if kind == 'idx' else mk_slice(D, start, C)
                    ctx.eq('%s<%s>%s addresses (y*W+x)*C' % (nm, et, tag), r, want, pre, site=nm)
                    ctx.note_run(H)
            ctx.guard('readers' + tag, readers)

            def writers(et=et, env=env):
                for nm, kind in (('Image::IndexMut::index_mut', 'lin'), ('Image::get_pixel_mut', 'xy'), ('Image::get_pixel_mut_unchecked', 'xy'),
                                 ('Image::set_pixel', 'set'), ('Image::set_pixel_indexed', 'seti')):
                    H = ctx.har(cfg, **env)
                    im = H.image('a1', et)
                    W, Ht, C, A, D = img_parts(im)
                    px = svar('px', C, et)
                    if kind in ('set', 'seti'):
                        n = 4 if kind == 'set' else 3
                        H.call(nm, a1=im, **{'a%d' % n: px})
                    else:
                        key = find(H.w, nm)
                        a = H.args(key, a1=im)
                        st = State(H.st.m, ())
                        p = H.I.inline(key, a, st)
                        H.a = a
                        ls = H.I.locs_of(p)
                        if ls is None:
                            raise Stuck('no location')
                        ctx.eq('%s<%s>%s view length' % (nm, et, tag), length(H.I.snapshot(st, p)), C, site=nm)
                        # write the whole view through the returned reference
                        for c, l in ls:
                            H.I.wr(st, (l[0], l[1], l[2] + (('s', ZERO, C),)) if not (l[2] and l[2][-1][0] == 's') else l, px)
                        H.st = st
                    out = H.out('a1')
                    if kind in ('lin', 'seti'):
                        i = H.a[1]
                        pre = (inr(i, mul(W, Ht)),)
                        start = mul(i, C)
                    else:
                        x, y = H.a[1], H.a[2]
                        pre = (inr(x, W), inr(y, Ht))
                        start = mul(add(mul(y, W), x), C)
                    want = agg(IMAGE, 0, field(im, 0), updr(D, start, px))
                    ctx.eq('%s<%s>%s writes exactly the pixel' % (nm, et, tag), out, want, pre, site=nm)
                    ctx.note_run(H)
            ctx.guard('writers' + tag, writers)

            def subimg(et=et, env=env):
                for nm in ('SubImage::BaseImage::get_pixel', 'SubImage::Index::index', 'SubImage::to_vec', 'SubImage::data'):
                    H = ctx.har(cfg, **env)
                    r = H.call(nm)
                    W, Ht, C, A, D = img_parts(H.a[0])
                    pre = ()
                    if nm.endswith('get_pixel'):
                        x, y = H.a[1], H.a[2]
                        pre = (inr(x, W), inr(y, Ht))
                        want = elem(D, add(mul(y, W), x))
                    elif nm.endswith('::index'):
                        pre = (inr(H.a[1], mul(W, Ht)),)
                        want = elem(D, H.a[1])
                    elif nm.endswith('to_vec'):
                        b = fresh_bv(mul(W, Ht))
                        want = mk_flatgen(b, mul(W, Ht), elem(D, b))
                    else:
                        want = D
                    ctx.eq('%s<%s>%s row-major' % (nm, et, tag), r, want, pre, site=nm)
                    ctx.note_run(H)
            ctx.guard('sub-image' + tag, subimg)

        def conv():
            H = ctx.har(cfg)
            r = H.call('util::get_2d_coords', a2=var('w', 'nat1'))
            i, w = H.a
            x, y = field(r, 0), field(r, 1)
            ctx.eq('get_2d_coords then index is the identity' + tag, add(mul(y, w), x), i, site='util::get_2d_coords')
            ctx.eq('get_2d_coords column in range' + tag, mk_and(le0i(neg(x)), inr(x, w)), TRUE, site='util::get_2d_coords')
            H2 = ctx.har(cfg)
            xv, yv = var('x', 'u32'), var('y', 'u32')
            r2 = H2.call('util::get_2d_coords', a1=add(mul(yv, w), xv), a2=w)
            ctx.eq('index then get_2d_coords is the identity' + tag, r2, tup(xv, yv), (inr(xv, w),), site='util::get_2d_coords')
            ctx.note_run(H)
        ctx.guard('get_2d_coords' + tag, conv)

        def data():
            for nm in ('Image::data', 'Image::data_mut'):
                H = ctx.har(cfg)
                key = find(H.w, nm)
                a = H.args(key)
                st = State(H.st.m, ())
                p = H.I.inline(key, a, st)
                im = H.I.snapshot(st, a[0])
                ctx.eq(nm + tag + ' is the whole buffer', H.I.snapshot(st, p), field(im, 1), site=nm)
        ctx.guard('data' + tag, data)
    each(ctx, one, names)


# ------------------------------------------------------------------ C02
def c02(ctx):
    names = ['Image::BaseImage::get_pixel', 'SubImage::BaseImage::get_pixel', 'Image::get_pixel_mut', 'Image::set_pixel',
             'Image::get_subimage', 'Image::get_neighborhood_1d', 'Image::get_neighborhood_2d', 'Image::set_pixel_indexed']

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for nm in names:
            def go(nm=nm):
                H = ctx.har(cfg)
                big = {}
                if 'neighborhood' in nm:
                    big = {'a4': var('size', 'nat1')}
                H.call(nm, **big)
                ret = returns(H)
                im = H.I.snapshot(H.st, H.a[0]) if H.a[0].op != 'mref' else None
                H0 = ctx.har(cfg)
                base = H.a[0] if im is not None else None
                if base is None:
                    W, Ht, C = var('a1.w', 'nat1'), var('a1.h', 'nat1'), var('a1.c', 'chan')
                else:
                    W, Ht, C, A, D = img_parts(base)
                if nm == 'Image::set_pixel_indexed':
                    L = length(H.a[2])
                    i = H.a[1]
                    ctx.never(nm + tag + ' rejects a pixel of the wrong length', mk_and(ret, mk_not(mk_eq(L, C))), site=nm)
                    ok = mk_and(mk_eq(L, C), inr(i, mul(W, Ht)))
                else:
                    x, y = H.a[1], H.a[2]
                    ctx.never(nm + tag + ' rejects x >= width', mk_and(ret, mk_not(inr(x, W))), site=nm)
                    ctx.never(nm + tag + ' rejects y >= height', mk_and(ret, mk_not(inr(y, Ht))), site=nm)
                    ok = mk_and(inr(x, W), inr(y, Ht))
                    if nm == 'Image::set_pixel':
                        L = length(H.a[3])
                        ctx.never(nm + tag + ' rejects a pixel of the wrong length', mk_and(ret, mk_not(mk_eq(L, C))), site=nm)
                        ok = mk_and(ok, mk_eq(L, C))
                    if nm == 'Image::get_subimage':
                        ok = mk_and(ok, le0i(sub(add(x, H.a[3]), W)), le0i(sub(add(y, H.a[4]), Ht)))
                for e in panics(H):
                    ctx.sites += 1
                    ctx.never('%s%s accepts valid arguments (%s in %s)' % (nm, tag, e.kind, short(e.site[0])), e.formula(),
                              ok.a if ok.op == 'and' else (ok,), site=nm)
                ctx.note_run(H)
            ctx.guard(nm + tag, go)
    each(ctx, one, names)


# ------------------------------------------------------------------ C03
def c03(ctx):
    names = ['Image::get_subimage', 'Image::get_neighborhood_1d', 'Image::get_neighborhood_2d']

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def subi():
            H = ctx.har(cfg)
            r = H.call('Image::get_subimage', a4=var('w', 'nat1'), a5=var('h', 'nat1'))
            W, Ht, C, A, D = img_parts(H.a[0])
            x, y, w, h = H.a[1:]
            pre = (inr(x, W), inr(y, Ht), le0i(sub(add(x, w), W)), le0i(sub(add(y, h), Ht)))
            grid(ctx, 'get_subimage' + tag, r, w, h, C, A, lambda i, j: mk_slice(D, mul(add(mul(add(y, j), W), x, i), C), C), pre, 'Image::get_subimage')
            ctx.note_run(H)
        ctx.guard('get_subimage' + tag, subi)
        for vert in (TRUE, FALSE):
            def n1(vert=vert):
                H = ctx.har(cfg)
                k = var('half', 'u8')
                s = add(scale(k, 2), ONE)
                r = H.call('Image::get_neighborhood_1d', a4=s, a5=vert)
                W, Ht, C, A, D = img_parts(H.a[0])
                x, y = H.a[1], H.a[2]
                pre = (inr(x, W), inr(y, Ht))
                w, h = (ONE, s) if vert is TRUE else (s, ONE)

                def px(i, j):
                    if vert is TRUE:
                        p = add(mul(clampi(sub(add(y, j), k), Ht), W), x)
                    else:
                        p = add(mul(y, W), clampi(sub(add(x, i), k), W))
                    return mk_slice(D, mul(p, C), C)
                grid(ctx, 'get_neighborhood_1d(%s)%s' % ('vertical' if vert is TRUE else 'horizontal', tag), r, w, h, C, A, px, pre, 'Image::get_neighborhood_1d',
                     {'half': lambda q: q.randint(0, 4)})
                ctx.note_run(H)
            ctx.guard('get_neighborhood_1d' + tag, n1)

        def n2():
            H = ctx.har(cfg)
            k = var('half', 'u8')
            s = add(scale(k, 2), ONE)
            r = H.call('Image::get_neighborhood_2d', a4=s)
            W, Ht, C, A, D = img_parts(H.a[0])
            x, y = H.a[1], H.a[2]
            pre = (inr(x, W), inr(y, Ht))

            def px(i, j):
                p = add(mul(clampi(sub(add(y, j), k), Ht), W), clampi(sub(add(x, i), k), W))
                return mk_slice(D, mul(p, C), C)
            grid(ctx, 'get_neighborhood_2d' + tag, r, s, s, C, A, px, pre, 'Image::get_neighborhood_2d', {'half': lambda q: q.randint(0, 3)})
            ctx.note_run(H)
        ctx.guard('get_neighborhood_2d' + tag, n2)
    each(ctx, one, names)


def grid(ctx, name, r, w, h, C, A, px, pre, site, dom=None):
    """r is a sub-image of w x h pixels with pixel px(i, j) at column i, row j"""
    info = field(r, 0)
    for i, (n, want) in enumerate((('width', w), ('height', h), ('channels', C), ('alpha', A))):
        ctx.eq('%s %s' % (name, n), field(info, i), want, pre, dom, site)
    D = field(r, 1)
    ctx.eq(name + ' pixel count', length(D), mul(w, h), pre, dom, site)
    bj, bi, bc = fresh_bv(h), fresh_bv(w), fresh_bv(C)
    bj, bi, bc = (ZERO if n is ONE else fresh_bv(n) for n in (h, w, C))
    fr = tuple((b, n) for b, n in ((bj, h), (bi, w), (bc, C)) if b is not ZERO)
    facts = tuple(pre) + tuple(c for b, n in fr for c in (le0i(neg(b)), inr(b, n)))
    p = elem(D, add(mul(bj, w), bi), facts)
    ctx.eq(name + ' pixel length', length(p), C, pre, dom, site, fr)
    ctx.eq(name + ' content', elem(p, bc, facts), elem(px(bi, bj), bc, facts), pre, dom, site, fr)


# ------------------------------------------------------------------ C04
def c04(ctx):
    names = ['&Image::IntoIterator::into_iter', 'PixelIter::Iterator::next', 'PixelIter::Iterator::size_hint', 'PixelIter::new']

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def go():
            w_ = ctx.world(cfg)
            H = ctx.har(cfg)
            im = H.image('img')
            W, Ht, C, A, D = img_parts(im)
            it0 = H.call('&Image::IntoIterator::into_iter', a1=im)
            ctx.note_run(H)
            # the iterator after n calls of next, as the loop that polls it would see it
            H2 = ctx.har(cfg)
            knext = find(w_, 'PixelIter::Iterator::next')
            khint = find(w_, 'PixelIter::Iterator::size_hint')

            def step(it):
                """next on the state it: (result, new state)"""
                Hs = ctx.har(cfg)
                r = Hs.call(knext, a1=it)
                ctx.note_run(Hs)
                return r, Hs.out('a1'), Hs

            def hint(it):
                Hs = ctx.har(cfg)
                r = Hs.call(khint, a1=it)
                ctx.note_run(Hs)
                return r

            def opt_n(n):
                return tup(n, some(n))
            # whatever the iterator's state looks like: every call on the smallest images, one by one
            for w0, h0 in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 2)):
                Hw = ctx.har(cfg)
                imw = Hw.image('img', W=num(w0), H=num(h0))
                Dw = img_parts(imw)[4]
                it = Hw.call('&Image::IntoIterator::into_iter', a1=imw)
                for i in range(w0 * h0 + 1):
                    t = 'call %d on a %dx%d image%s' % (i + 1, w0, h0, tag)
                    ctx.eq('pixels left before ' + t, hint(it), opt_n(num(w0 * h0 - i)), site='PixelIter::size_hint')
                    want = NONE
                    if i < w0 * h0:
                        want = some(tup(num(i % w0), num(i // w0), mk_slice(Dw, mul(num(i), C), C)))
                    r, it, Hs = step(it)
                    ctx.eq('pixel of ' + t, r, want, site='PixelIter::next')
                    for e in panics(Hs):
                        ctx.never('next never panics: ' + t, e.formula(), site='PixelIter::next')
            # the general case: states reached from the start. state after n yields is
            # obtained by abstracting the iterator's integer fields as functions of the position
            a, b = fresh_positions(it0, step, W, Ht, ctx, tag)
            if a is None:
                return
            state, posn = a, b
            # inductive proof: the start is position 0; next at position p yields pixel p and moves to p+1
            x, y = var('px', 'u32'), var('py', 'u32')
            n = mul(W, Ht)
            rest = (inr(y, Ht), inr(x, W))
            s0 = state(ZERO, ZERO)
            ctx.eq('iteration starts before the first pixel' + tag, it0, s0, site='PixelIter::new')
            last = mk_and(mk_eq(x, sub(W, ONE)), mk_eq(y, sub(Ht, ONE)))
            for nm, st_, pre, (cx, cy) in (('mid-row', state(x, y), rest, (x, y)),):
                r, st2, Hs = step(st_)
                ctx.eq('next yields (x, y, pixel) %s%s' % (nm, tag), r, some(tup(cx, cy, mk_slice(D, mul(add(mul(cy, W), cx), C), C))), pre, site='PixelIter::next')
                ctx.eq('next advances by one column %s%s' % (nm, tag), st2, state(add(cx, ONE), cy), pre, site='PixelIter::next')
                for e in panics(Hs):
                    ctx.never('next never panics %s%s' % (nm, tag), e.formula(), pre, site='PixelIter::next')
                ctx.eq('size_hint counts the remaining pixels %s%s' % (nm, tag), hint(st_), opt_n(sub(n, add(mul(y, W), x))), rest, site='PixelIter::size_hint')
            # row end
            pre = (inr(add(y, ONE), Ht),)
            r, st2, Hs = step(state(W, y))
            y1 = add(y, ONE)
            ctx.eq('next wraps to the next row' + tag, r, some(tup(ZERO, y1, mk_slice(D, mul(mul(y1, W), C), C))), pre, site='PixelIter::next')
            ctx.eq('next wraps to the next row (state)' + tag, st2, state(ONE, y1), pre, site='PixelIter::next')
            for e in panics(Hs):
                ctx.never('next never panics at a row end' + tag, e.formula(), pre, site='PixelIter::next')
            ctx.eq('size_hint at a row end' + tag, hint(state(W, y)), opt_n(sub(n, mul(y1, W))), pre, site='PixelIter::size_hint')
            end = state(W, sub(Ht, ONE))
            r, st2, Hs = step(end)
            ctx.eq('next ends after the last pixel' + tag, r, NONE, site='PixelIter::next')
            ctx.eq('next keeps ending' + tag, st2, end, site='PixelIter::next')
            ctx.eq('size_hint is zero at the end' + tag, hint(end), opt_n(ZERO), site='PixelIter::size_hint')
        ctx.guard('PixelIter' + tag, go)
    each(ctx, one, names)


def fresh_positions(it0, step, W, Ht, ctx, tag):
    """the iterator's state as a function of its position (x, y): the fields that change
    between the first and the second call, or on a row change, are the position"""
    r, s1, _ = step(it0)
    if it0.op != 'agg' or s1.op != 'agg':
        raise Stuck('iterator state')
    moving = [i for i in range(2, len(it0.a)) if it0.a[i] is not s1.a[i]]
    # the column field goes from 0 to 1; the row field is the one that the row-end step increments
    if len(moving) != 1 or it0.a[moving[0]] is not ZERO:
        raise Stuck('iterator state is not a (column, row) pair')
    cx = moving[0]
    cand = [i for i in range(2, len(it0.a)) if i != cx and it0.a[i] is ZERO]
    if len(cand) != 1:
        raise Stuck('iterator state is not a (column, row) pair')
    cy = cand[0]

    def state(x, y):
        a = list(it0.a)
        a[cx], a[cy] = x, y
        return mk('agg', *a)
    return state, None


# ------------------------------------------------------------------ C05
def pushfn(H, name, nout, et='real'):
    """symbolic Fn(&[T], &mut Vec<S>) that appends nout values depending on the pixel"""
    v = var(name, 'fn')

    def call(I, args, st, site):
        px = I.snapshot(st, args[0])
        old = I.snapshot(st, args[1])
        I.models.write(st, args[1], mk_concat(old, mk('sapp', name, et, nout, px)))
        return UNIT
    H.I.symfn[v] = call
    return v


def c05(ctx):
    names = ['Image::' + n for n in ('map_pixels', 'map_pixels_if_alpha', 'map_channels', 'map_channels_if_alpha', 'apply_pixels', 'apply_pixels_if_alpha',
                                     'apply_channels', 'apply_channels_if_alpha', 'edit_channel')]

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        for nm in names:
            for alpha in ((TRUE, FALSE) if 'if_alpha' in nm else (None,)):
                def go(nm=nm, alpha=alpha):
                    t = nm + tag + ('' if alpha is None else ' alpha' if alpha is TRUE else ' opaque')
                    H = ctx.har(cfg)
                    im = H.image('img', A=alpha)
                    W, Ht, C, A, D = img_parts(im)
                    n = mul(W, Ht)
                    al = alpha is TRUE
                    pixels = 'pixels' in nm
                    mapping = '::map' in nm
                    if pixels:
                        if mapping:
                            m = var('outc', 'chan')
                        else:
                            m = sub(C, ONE) if al else C
                        F = pushfn(H, 'f', m)
                    else:
                        F = H.fn('f')
                    G = H.fn('g')
                    kw = {'a1': im, 'a2': F}
                    if 'if_alpha' in nm:
                        kw['a3'] = G
                    if nm.endswith('edit_channel'):
                        k = var('chan', 'u8')
                        kw['a3'] = k
                    r = H.call(nm, **kw)
                    out = r if mapping else H.out('a1')
                    pre = ()
                    if al:
                        pre = (le0i(sub(num(2), C)),) if (pixels and not mapping) else ()
                    fapp = lambda x: mk('app', 'f', 'real', x)
                    gapp = lambda x: mk('app', 'g', 'real', x)
                    if nm.endswith('edit_channel'):
                        pre = (inr(k, C),)
                        f = lambda x, y, c: mk_ite(mk_eq(c, k), fapp(elem(D, px(W, C, x, y, c))), elem(D, px(W, C, x, y, c)))
                        OC = C
                    elif not pixels:
                        OC = C
                        f = lambda x, y, c: (mk_ite(mk_eq(c, sub(C, ONE)), gapp(elem(D, px(W, C, x, y, c))), fapp(elem(D, px(W, C, x, y, c)))) if al
                                             else fapp(elem(D, px(W, C, x, y, c))))
                    else:
                        OC = add(m, ONE) if al else m
                        cin = sub(C, ONE) if al else C

                        def f(x, y, c):
                            v = mk('sapp', 'f', 'real', m, mk_slice(D, px(W, C, x, y, ZERO), cin))
                            if al:
                                return mk_ite(mk_eq(c, m), gapp(elem(D, px(W, C, x, y, sub(C, ONE)))), elem(v, c))
                            return elem(v, c)
                    dom = {'outc': lambda q: q.choice([1, 2, 3, 4])}
                    if pixels and mapping:
                        pre = pre + (le0i(sub(OC, num(255))),)
                    ctx.image_eq(t, out, W, Ht, OC, A, f, pre, dom, nm)
                    for e in panics(H):
                        ctx.never(t + ' never panics: ' + e.kind, e.formula(), pre, dom, nm)
                    ctx.note_run(H)
                ctx.guard(nm + tag, go)
        for nm in ('map_all', 'map_alpha', 'apply', 'apply_alpha', 'alpha', 'channels_without_alpha', 'is_black', 'is_black_alpha'):
            def go(nm=nm):
                full = '[T]::Pixel::' + nm
                H = ctx.har(cfg)
                n = var('n', 'chan')
                s = svar('px', n, 'real')
                F, G = H.fn('f'), H.fn('g')
                kw = {'a1': s}
                if nm in ('map_all', 'apply'):
                    kw['a2'] = F
                elif nm in ('map_alpha', 'apply_alpha'):
                    kw['a2'], kw['a3'] = F, G
                r = H.call(full, **kw)
                fapp = lambda x: mk('app', 'f', 'real', x)
                gapp = lambda x: mk('app', 'g', 'real', x)
                b = fresh_bv(n)
                lastb = mk_eq(b, sub(n, ONE))
                want = {'map_all': mk_gen(b, n, fapp(elem(s, b))), 'apply': mk_gen(b, n, fapp(elem(s, b))),
                        'map_alpha': mk_gen(b, n, mk_ite(lastb, gapp(elem(s, b)), fapp(elem(s, b)))),
                        'apply_alpha': mk_gen(b, n, mk_ite(lastb, gapp(elem(s, b)), fapp(elem(s, b)))),
                        'alpha': elem(s, sub(n, ONE)), 'channels_without_alpha': mk_slice(s, ZERO, sub(n, ONE)),
                        'is_black': mk_not(mk_exists(b, n, mk_not(eq0(elem(s, b))))),
                        'is_black_alpha': None}[nm]
                if nm == 'is_black_alpha':
                    b2 = fresh_bv(sub(n, ONE))
                    want = mk_not(mk_exists(b2, sub(n, ONE), mk_not(eq0(elem(s, b2)))))
                got = H.out('a1') if nm.startswith('apply') else r
                ctx.eq('Pixel::%s%s' % (nm, tag), got, want, (), {'px': lambda q: q.choice([0, 0, 0, 1, 2])}, full)
                for e in panics(H):
                    ctx.never('Pixel::%s%s never panics' % (nm, tag), e.formula(), (), None, full)
                ctx.note_run(H)
            ctx.guard('Pixel::' + nm + tag, go)
    each(ctx, one, names)


VG = ('gated value-graph normal forms of the MIR bodies, compared with the specification term; every listed obligation is one function, '
      'configuration and output component (or one panic site), for all inputs of its type')

PROPS = {
    'C01': (c01, 'proof', VG),
    'C02': (c02, 'proof', VG),
    'C03': (c03, 'proof', VG),
    'C04': (c04, 'proof', VG + '; iteration is proved by induction over the iterator state'),
    'C05': (c05, 'proof', VG),
}
