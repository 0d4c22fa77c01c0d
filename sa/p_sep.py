"""C35: kernel separation."""
from check import *

FN = 'util::math::separate_kernel'


class Decomposed(Exception):
    pass


def har(ctx, cfg):
    H = ctx.har(cfg)
    orig = H.I.models.call

    def call(rec, args, at, dt, st, site):
        tgt = (rec.get('res') or rec)['path']
        if tgt.startswith('rulinalg::') and rec['name'] == 'svd':
            raise Decomposed(site if isinstance(site, str) else tgt)
        return orig(rec, args, at, dt, st, site)
    H.I.models.call = call
    return H


def c35(ctx):
    sizes = (1, 2, 3, 4, 5, 6, 7) if ctx.tier == 'thorough' else (1, 2, 3, 5)

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        try:
            H = har(ctx, cfg)
            H.call('separate_kernel', (), a1=mk('lit', *[var('k%d' % i, 'real') for i in range(9)]))
        except Decomposed as e:
            ctx.add('every kernel gets an answer' + tag, 'violated', FN, 'calls the singular value decomposition of the matrix library (%s), which fails on kernels of rank one '
                    '(all entries 1) and does not return on others (the Gaussian kernel of size 7 and sigma 1)' % e)
            return
        except Exception:
            pass

        def outer(r, ks, n, pre, nm, dom, want):
            """the outer product of the two kernels of the result"""
            v, h = [field(field(r, 0, 1), q) for q in (0, 1)]
            ctx.eq('the vertical kernel has one value per row: ' + nm, length(v), num(n), pre, dom, FN)
            ctx.eq('the horizontal kernel has one value per column: ' + nm, length(h), num(n), pre, dom, FN)
            for i in range(n):
                for j in range(n):
                    ctx.eq('entry (%d, %d) is the product of the two kernels: %s' % (i, j, nm), mul(elem(v, num(i)), elem(h, num(j))), want(i, j), pre, dom, FN)

        def general(n, p):
            # the first p entries are zero and the next one is not; the kernel has rank one exactly when every two-by-two
            # determinant with that entry vanishes
            nm = '%d x %d kernels with %d leading zeros%s' % (n, n, p, tag)
            H = har(ctx, cfg)
            ks = [ZERO] * p + [var('k%d' % i, 'real') for i in range(p, n * n)]
            pre = (mk_not(mk_eq(ks[p], ZERO)),) if p < n * n else ()
            r = H.call('separate_kernel', pre, a1=mk('lit', *ks))
            dom = {'k*': lambda q: q.choice([0, 0, 1, 1, 2, -1, Fraction(1, 2)]) if q.random() < 0.9 else q.randint(-5, 5)}
            if p == n * n:
                ctx.eq('a kernel is separable exactly when it has rank one: ' + nm, t_.discr(r), ZERO, (), dom, FN)
            else:
                at = lambda i, j: ks[i * n + j]
                a, b = divmod(p, n)
                rank1 = mk_and(*[mk_eq(mul(at(i, j), ks[p]), mul(at(i, b), at(a, j))) for i in range(n) for j in range(n)])
                ctx.eq('a kernel is separable exactly when it has rank one: ' + nm, t_.discr(r), mk_ite(rank1, ONE, ZERO), pre, dom, FN)
                # for rank one, the entry is determined by its row and column through the first entry
                if rank1 is not FALSE:
                    outer(r, ks, n, pre + (rank1,), nm, dom, lambda i, j: t_.div(mul(at(i, b), at(a, j)), ks[p]))
            for e in panics(H):
                ctx.sites += 1
                ctx.never('separate_kernel never panics: %s: %s' % (e.kind, nm), e.formula(), pre, dom, FN)
            ctx.note_run(H)

        def built(n):
            # kernels built as an outer product, with one entry off by a difference: values close to the decision
            nm = '%d x %d outer products%s' % (n, n, tag)
            H = har(ctx, cfg)
            us, ws = [[var('%s%d' % (c, i), 'real') for i in range(n)] for c in 'uw']
            sel, d = var('sel', 'u32'), var('d', 'real')
            pre = (le0i(sub(add(sel, ONE), num(n * n))),)
            ks = [add(mul(us[i], ws[j]), mk_ite(mk_eq(sel, num(i * n + j)), d, ZERO)) for i in range(n) for j in range(n)]
            r = H.call('separate_kernel', pre, a1=mk('lit', *ks))
            small = lambda q: q.choice([0, 0, 1, 1, 2, -1, 3, Fraction(1, 4)])
            dom = {'u*': small, 'w*': small, 'd': lambda q: q.choice([0, 0, 1, -1, Fraction(1, 1024)]), 'sel': lambda q: q.randrange(n * n)}
            minors = [mk_eq(mul(ks[i * n + j], ks[k * n + l]), mul(ks[i * n + l], ks[k * n + j]))
                      for i in range(n) for k in range(i) for j in range(n) for l in range(j)]
            rank1 = mk_and(mk_or(*[mk_not(mk_eq(k, ZERO)) for k in ks]), *minors)
            ctx.refute('a kernel is separable exactly when it has rank one: ' + nm, t_.discr(r), mk_ite(rank1, ONE, ZERO), pre, dom, FN)
            v, h = [field(field(r, 0, 1), q) for q in (0, 1)]
            i, j = var('row', 'u32'), var('col', 'u32')
            dom['row'] = dom['col'] = lambda q: q.randrange(n)
            at = ZERO
            for p in range(n * n):
                at = mk_ite(mk_and(mk_eq(i, num(p // n)), mk_eq(j, num(p % n))), ks[p], at)
            ins = (le0i(sub(add(i, ONE), num(n))), le0i(sub(add(j, ONE), num(n))))
            ctx.refute('the kernel is the outer product of the two: ' + nm, mul(elem(v, i), elem(h, j)), at, pre + ins + (rank1,), dom, FN)

        for n in sizes:
            for p in range(n * n + 1):
                if ctx.tier == 'thorough' or n <= 3 or p % 4 == 0 or p in (1, n * n - 1):
                    ctx.guard('separate_kernel %d %d%s' % (n, p, tag), lambda: general(n, p))
            if n > 1:
                ctx.guard('separate_kernel built %d%s' % (n, tag), lambda: built(n))
    each(ctx, one, [FN])


PROPS = {
    'C35': (c35, 'proof', 'separate_kernel is interpreted on square kernels of fixed sizes with symbolic entries, by the position of the first entry that is not zero: it must report a separation exactly when every two-by-two determinant '
            'through that entry vanishes, and the outer product of the two kernels must give back every entry, in exact arithmetic.'),
}
