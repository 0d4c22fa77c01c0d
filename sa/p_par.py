"""C12: the parallel build computes what the serial build computes."""
from check import *
from terms import MONE
from p_filter import HALF
from rules import *

# rayon adaptors whose result does not depend on how the work is scheduled
ORDERED = ('into_par_iter', 'par_iter', 'par_iter_mut', 'par_chunks', 'par_chunks_exact', 'par_chunks_mut', 'par_chunks_exact_mut', 'map', 'map_init', 'enumerate', 'zip',
           'collect', 'collect_into_vec', 'cloned', 'copied', 'rev', 'chain', 'flat_map_iter', 'flat_map', 'filter', 'filter_map', 'for_each', 'with_min_len', 'with_max_len',
           'take', 'skip', 'unzip', 'all', 'any', 'count', 'join', 'chunks', 'step_by', 'map_with', 'flatten', 'flatten_iter', 'inspect', 'all', 'max', 'min')
UNORDERED = ('par_bridge', 'find_any', 'find_map_any', 'position_any', 'take_any', 'skip_any', 'take_any_while', 'skip_any_while', 'current_thread_index', 'current_num_threads',
             'collect_vec_list')
REDUCE = ('reduce', 'reduce_with', 'sum', 'product', 'fold', 'fold_with', 'try_reduce', 'try_fold')


def exclude(c):
    """drops disjuncts `x = 0 and ... and 1 <= x * y`"""
    return t_.mk_or(*[q for q in (c.a if c.op == 'or' else (c,)) if not self_contradictory(q)])


def self_contradictory(q):
    ls = [q] if q.op != 'and' else list(q.a)
    m = {}
    for l in ls:
        if l.op == 'eq0':
            m[l.a[0]] = ZERO
    if not m:
        return False
    for l in ls:
        if l.op == 'le0i':
            r = le0i(replace(l.a[0], m))
            if r is FALSE:
                return True
    return False


def c12(ctx):
    names = ['crop', 'scale', 'scale_lanczos', 'filter_1d', 'separable_filter', 'unseparable_filter', 'linear_filter', 'box_filter', 'weighted_avg_filter',
             'gaussian_blur', 'sharpen', 'unsharp_masking', 'derivative_mask', 'prewitt', 'sobel', 'sobel_weighted', 'laplacian', 'laplacian_of_gaussian', 'bilateral_filter']
    pairs = [('none', 'par')] + ([('simd', 'simdpar')] if ctx.tier != 'quick' else [])
    k = var('half', 'u8')
    s = add(scale(k, 2), ONE)
    fx, fy = var('x_factor', 'real'), var('y_factor', 'real')
    ppos = (mk_not(le0r(fx)), mk_not(le0r(fy)))
    sdom = {n: (lambda q: Fraction(q.randint(1, 9), q.choice([2, 3, 4]))) for n in ('x_factor', 'y_factor')}
    sdom['img.data*'] = lambda q: q.randint(0, 9)
    x, y, w_, h_ = (var(n, 'u16') for n in ('x', 'y', 'width', 'height'))
    cdom = {n: (lambda q: q.randint(0, 4)) for n in ('x', 'y', 'width', 'height')}

    def same(a, b):
        wa, wb = ctx.world(a), ctx.world(b)

        def pair(label, fn, setup=None, pre=(), dom=None, good=(), img=None, post=None, **kw):
            """the two builds agree on acceptance, on panics, and (under `good`) on the image"""
            def g():
                res = []
                for cfg in (a, b):
                    H = ctx.har(cfg)
                    im = H.image('img', 'real', **(img or {}))
                    log = setup(H, im) if setup else None
                    args = {q: (v(ctx.world(cfg)) if callable(v) else v) for q, v in kw.items()}
                    r = H.call(fn, pre, a1=im, **args)
                    ctx.note_run(H)
                    res.append((H, im, r, log))
                (H1, im, r1, l1), (H2, _, r2, l2) = res
                nm = '%s: %s = %s' % (label, b, a)
                W, Ht, C, A, D = img_parts(im)
                if r1 is None or r2 is None:
                    ctx.add(nm, 'undecided', fn, 'never returns')
                    return
                p1, p2 = mk_or(*[e.formula() for e in panics(H1)]), mk_or(*[e.formula() for e in panics(H2)])
                ctx.sites += len(panics(H1)) + len(panics(H2))
                ctx.eq(nm + ' accepts the same arguments', is_err(r2), is_err(r1), tuple(pre), dom, fn)
                g_ = tuple(pre) + tuple(good)
                ctx.eq(nm + ' panics alike', exclude(p2), exclude(p1), g_, dom, fn)
                i1, i2 = unwrap(dsimp(r1, g_)), unwrap(dsimp(r2, g_))
                if post:
                    i1, i2 = post(nm, i1, l1, ctx, g_, dom), post(nm, i2, l2, ctx, g_, dom)
                    if i1 is None or i2 is None:
                        ctx.add(nm, 'undecided', fn, 'result not produced by the conversion')
                        return
                f1 = field(i1, 0)
                W1, C1, d1 = field(f1, 0), field(f1, 2), field(i1, 1)
                ctx.image_eq(nm, i2, W1, field(f1, 1), C1, field(f1, 3), lambda i, j, c: elem(d1, px(W1, C1, i, j, c)), g_, dom, fn)
            ctx.guard(label, g)

        pair('crop', 'crop', dom=cdom, a2=x, a3=y, a4=w_, a5=h_,
             good=(le0i(sub(add(x, w_), var('img.w', 'nat1'))), le0i(sub(add(y, h_), var('img.h', 'nat1'))), le0i(sub(ONE, w_)), le0i(sub(ONE, h_))))

        def kernels(H, im):
            H.override('cubic_weighting_fn', lambda I, a, st: t_.mk_app('cubic_weighting_fn', 'real', I.snapshot(st, a[0])))
            H.override('lanczos_kernel', lambda I, a, st: t_.mk_app('lanczos_kernel', 'real', I.snapshot(st, a[0]), I.snapshot(st, a[1])))
        for m in ('NearestNeighbor', 'Bilinear', 'Bicubic', 'Lanczos'):
            pair('scale(%s)' % m, 'scale', kernels, (), sdom, ppos, a2=fx, a3=fy, a4=lambda w, m=m: enum(w, 'Scale', m))
        pair('scale_lanczos(any size)', 'scale_lanczos', kernels, (), sdom, ppos, a2=fx, a3=fy, a4=var('size', 'u32'))
        for n in (1, 2, 4):
            pair('scale_lanczos(size %d)' % n, 'scale_lanczos', kernels, (), sdom, ppos, a2=fx, a3=fy, a4=num(n))

        anyker = svar('kernel', var('klen', 'u8'), 'real')
        kdom = dict(HALF, klen=lambda q: q.randint(0, 10))
        for vert in (True, False):
            pair('filter_1d(%s)' % ('vertical' if vert else 'horizontal'), 'filter_1d', dom=HALF, a2=svar('kernel', s, 'real'), a3=TRUE if vert else FALSE)
        ker2 = svar('kernel', mul(s, s), 'real')
        pair('unseparable_filter', 'unseparable_filter', dom=HALF, a2=ker2)
        pair('separable_filter', 'separable_filter', dom=HALF, a2=svar('vkernel', s, 'real'), a3=svar('hkernel', s, 'real'))

        def sepk(yes):
            def f(H, im):
                H.override('util::math::separate_kernel', lambda I, a_, st: some(tup(svar('vkernel', s, 'real'), svar('hkernel', s, 'real'))) if yes else NONE)
            return f
        pair('linear_filter(separable)', 'linear_filter', sepk(True), dom=HALF, a2=ker2)
        pair('linear_filter(inseparable)', 'linear_filter', sepk(False), dom=HALF, a2=ker2)
        # rejection of kernels of any length
        for fn, kw in (('filter_1d', {'a3': var('vert', 'bool')}), ('unseparable_filter', {}), ('separable_filter', {'a3': svar('hkernel', var('hlen', 'u8'), 'real')})):
            def rej(fn=fn, kw=kw):
                rs = []
                for cfg in (a, b):
                    H = ctx.har(cfg)
                    im = H.image('img', 'real')
                    rs.append(H.call(fn, a1=im, a2=anyker, **kw))
                    ctx.note_run(H)
                d = dict(kdom, hlen=lambda q: q.randint(0, 10))
                ctx.eq('%s: %s and %s reject the same kernels' % (fn, b, a), is_err(rs[1]), is_err(rs[0]), (), d, fn)
            ctx.guard(fn + ' rejection', rej)

        rg, sp = var('range', 'real'), var('spatial', 'real')
        bdom = {'range': lambda q: Fraction(q.randint(1, 8), 2), 'spatial': lambda q: Fraction(q.randint(1, 4), 4), 'lab*': lambda q: q.randint(0, 6), 'mat*': lambda q: q.randint(1, 5)}

        def labs(H, im):
            W, Ht, C, A, D = img_parts(im)
            log = {'lab': [], 'mat': [], 'rgb': []}

            def mat(I, a_, st):
                n, q = (I.snapshot(st, v) for v in a_)
                log['mat'].append(tup(n, q))
                return agg('core::result::Result', 0, svar('mat', mul(n, n), 'real'))

            def lab(I, a_, st):
                log['lab'].append(tup(*[I.snapshot(st, v) for v in a_]))
                return agg(IMAGE, 0, field(im, 0), svar('lab', mul(W, Ht, C), 'real'))

            def rgb(I, a_, st):
                i, wh = (I.snapshot(st, v) for v in a_)
                log['rgb'].append(tup(i, wh))
                return i
            H.override('util::generate_spatial_mat', mat)
            H.override('colorspace::srgb_to_lab_f32', lab)
            H.override('colorspace::lab_to_srgb_f32', rgb)
            return log
        logs = []

        def post(nm, i, log, ctx, g_, dom):
            logs.append(log)
            if len(logs) == 2:
                for q in ('mat', 'lab'):
                    u, v = logs[0][q], logs[1][q]
                    if len(u) != 1 or len(v) != 1:
                        ctx.add('%s uses one %s' % (nm, q), 'undecided', 'bilateral_filter', 'not called exactly once')
                        continue
                    ctx.eq('%s: same arguments of %s' % (nm, {'mat': 'generate_spatial_mat', 'lab': 'srgb_to_lab_f32'}[q]), v[0], u[0], g_, dom, 'bilateral_filter')
                u, v = logs[0]['rgb'], logs[1]['rgb']
                if u and v:
                    ctx.eq('%s: converts back alike' % nm, field(v[0], 1), field(u[0], 1), g_, dom, 'bilateral_filter')
                logs.clear()
            return i
        pair('bilateral_filter', 'bilateral_filter', labs, (), bdom, (mk_not(le0r(rg)), mk_not(le0r(sp))), post=post, a2=rg, a3=sp, a4=lambda w: enum(w, 'Bilateral', 'Direct'))

        # functions of the two builds that are the same code all the way down agree trivially; every other one must be covered above
        covered = set()
        for n in names:
            covered |= {n}
        ix = fn_index(wa)
        same_ = diff = 0
        for kf, bd in sorted(wb.bodies.items()):
            if bd['kind'] != 'fn' or not bd.get('pub', True) or bd.get('self'):
                continue
            nm = kf.split('::')[-1]
            if kf in wa.bodies and reach_hash(wa, kf) == reach_hash(wb, kf):
                same_ += 1
            else:
                diff += 1
        ctx.stats['functions_identical_in_%s_and_%s' % (a, b)] = same_
        ctx.stats['functions_differing_in_%s_and_%s' % (a, b)] = diff

    for a, b in pairs:
        same(a, b)

    ctx.guard('scheduling', lambda: scheduling(ctx))


def scheduling(ctx):
    """scheduling-independent combinators only"""
    w = ctx.world('par')
    n = 0
    for kf, bd in sorted(w.bodies.items()):
        for f, t, i in calls(bd):
            p = f['path']
            last = p.split('::')[-1]
            nm, site = 'scheduling of %s in %s' % (last, short(kf)), short(kf)
            if p.startswith('rayon'):
                n += 1
                if last in UNORDERED:
                    ctx.add(nm, 'violated', site, '%s at block %d depends on thread scheduling' % (p, i))
                elif last in REDUCE:
                    ctx.add(nm, 'violated' if has_float(f.get('args', [])) else 'undecided', site,
                            '%s at block %d: the order of combination depends on thread scheduling and float addition is not associative' % (p, i))
                elif last in ORDERED or 'FromParallelIterator' in p:
                    ctx.add(nm, 'holds', site)
                else:
                    ctx.add(nm, 'undecided', site, 'unknown combinator ' + p)
    ctx.stats['rayon_calls'] = n


PROPS = {
    'C12': (c12, 'proof', 'value graphs of the two builds are compared function by function'),
}
