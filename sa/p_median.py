"""C32, C39: median and trimmed mean filters, decided by the contracts of their parts."""
from check import *
from terms import MONE

ROW = 'filter::median::process_row_med'
HU = 'PartialHistograms::update'
RULE = ('Every part of the sliding-window algorithm is interpreted to a value graph for arbitrary pixels, positions and histogram contents and must equal its contract: '
        'the counts of the column histograms (for the radii and numbers of columns of SIZES), the number of values below the last median, the scan for the new median in either direction, the pixel rows '
        'that enter and leave per step (any radius, position and image), the columns handed out to process_cols_med, and the absence of panics; the contracts compose to the statement (DESIGN.md).')
RULE2 = ('As C32, for MeanHist: the counts, the mean of the sorted window without its lowest and highest alpha/2 values as a sum over cumulative counts, the rows that enter and leave, the columns, and the absence of panics.')
SIZES = ((0, 1), (1, 5), (2, 7), (3, 9), (4, 11), (5, 11), (6, 13), (1, 1), (2, 3))


LOW = evalr.open_dom(lambda q: q.randint(0, 4))


def sizes(ctx):
    return SIZES if ctx.tier == 'quick' else SIZES + ((7, 15), (8, 17), (12, 21), (3, 31))


# the parameters of the private functions: the analysis follows them when they change places
PARAMS = {
    'init_cols_med': 'input output histograms p_out radius center n_cols x',
    'process_row_med': 'output histograms p_out center n_cols x y',
    'process_cols_med': 'input output radius n_cols x',
    'init_cols_mean': 'input output histograms p_out radius n_cols x',
    'process_row_mean': 'output histograms p_out n_cols x y',
    'process_cols_mean': 'input output radius alpha n_cols x',
    'add_row_med': 'histograms p_in', 'remove_row_med': 'histograms p_in',
    'add_row_mean': 'histograms p_in', 'remove_row_mean': 'histograms p_in',
    'PartialHistograms::update': 'self p_in channel_index add',
    'MedianHist::update': 'self p_in channel_index add',
    'MeanHist::update': 'self p_in channel_index add',
    'PartialHistograms::get_count': 'self key index',
    'PartialHistograms::new': 'radius n_cols',
    'MedianHist::new': 'radius n_cols',
    'MeanHist::new': 'radius n_cols alpha',
    'MedianHist::set_pivot': 'self pivot index',
    'MedianHist::set_sum': 'self sum index',
}


def places(w, name):
    """where the parameters named in PARAMS are"""
    want = PARAMS.get(name, '').split()
    if not want:
        return None
    b = w.bodies[find(w, name)]
    have = {}
    for nm, pl in b['names']:
        if not pl[1] and 1 <= pl[0] <= b['argc']:
            have.setdefault(pl[0], nm)
    have = [have.get(i + 1) for i in range(b['argc'])]
    if have == want or sorted(map(str, have)) != sorted(want):
        return None
    return [have.index(q) for q in want]


class Har:
    """a harness that addresses parameters in the order of PARAMS"""

    def __init__(self, H):
        self.__dict__['_h'] = H

    def __getattr__(self, k):
        return getattr(self._h, k)

    def __setattr__(self, k, v):
        setattr(self._h, k, v)

    def call(self, name, pre=(), **given):
        pl = places(self._h.w, name)
        if pl is not None:
            given = {'a%d' % (pl[int(k[1:]) - 1] + 1): v for k, v in given.items()}
        return self._h.call(name, pre, **given)

    def override(self, name, f):
        pl = places(self._h.w, name)
        if pl is not None:
            return self._h.override(name, lambda I, a, st: f(I, [a[i] for i in pl], st))
        return self._h.override(name, f)


def generic(v, name, n=256):
    """v with every constant table of n entries replaced by an arbitrary one"""
    cnt = [0]

    def go(x):
        if x.op in ('fill', 'lit') and length(x) is num(n):
            cnt[0] += 1
            return svar('%s%d' % (name, cnt[0]), num(n), 'i32')
        if x.op == 'fill' and x.a[1].op == 'num':
            return mk('lit', *[go(x.a[0]) for _ in range(x.a[1].a[0])])
        if x.op == 'lit':
            return mk('lit', *[go(y) for y in x.a])
        if x.op == 'agg':
            return mk('agg', x.a[0], x.a[1], *[go(y) for y in x.a[2:]])
        return x
    return go(v), cnt


def row(r, n, C, name='p'):
    """an arbitrary row of pixels as wide as the windows of n columns"""
    return mk('lit', *[svar('%s%d' % (name, t), C, 'u8') for t in range(n + 2 * r)])


def hits(p, c, lo, size, test):
    return add(*[mk_ite(test(elem(elem(p, num(t)), c)), ONE, ZERO) for t in range(lo, lo + size)])


def parts(ctx, mean=False):
    """the histograms: adding or removing a row changes the count of every window by the row's pixels inside it"""
    C, c, V = var('channels', 'chan'), var('channel', 'u32'), var('value', 'u8')
    inC = (le0i(sub(add(c, ONE), C)),)
    dom = {'channel': lambda q, v=None: 0, 'value': LOW, 'p*': LOW}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def new(H, *a):
            H.I.unroll = 64
            return H.call('PartialHistograms::new', a1=num(a[0]), a2=num(a[1]))

        def counts():
            for r, n in sizes(ctx):
                for add_ in (TRUE, FALSE):
                    H = Har(ctx.har(cfg))
                    g0 = new(H, r, n)
                    zero = [H.call('PartialHistograms::get_count', inC, a1=g0, a2=V, a3=num(i)) for i in range(n)]
                    g, k = generic(g0, 'h')
                    cell = H.cell(g, 'self')
                    before = [H.call('PartialHistograms::get_count', inC, a1=g, a2=V, a3=num(i)) for i in range(n)]
                    p = row(r, n, C)
                    H.call(HU, inC, a1=cell, a2=p, a3=c, a4=add_)
                    g2 = H.I.snapshot(H.st, cell)
                    for i in range(n):
                        after = H.call('PartialHistograms::get_count', inC, a1=g2, a2=V, a3=num(i))
                        w = hits(p, c, i, 2 * r + 1, lambda q: mk_eq(q, V))
                        want = add(before[i], w if add_ is TRUE else neg(w))
                        ctx.eq('new histograms are empty (window %d, radius %d, %d columns)%s' % (i, r, n, tag), zero[i], ZERO, inC, dom, 'filter::median::PartialHistograms::new') if add_ is TRUE else None
                        ctx.eq('%s a row changes the count of window %d (radius %d, %d columns)%s' % ('adding' if add_ is TRUE else 'removing', i, r, n, tag), after, want, inC, dom, 'filter::median::' + HU)
                    ctx.events('counts (radius %d, %d columns)%s' % (r, n, tag), H, PANIC, inC, dom)
                    ctx.note_run(H)
        ctx.guard('window counts' + tag, counts)
    each(ctx, one, [HU, 'PartialHistograms::get_count', 'PartialHistograms::new'])


def median_hist(H, r, n, name='', sums=None):
    """a median histogram in the middle of the image: arbitrary tables, arbitrary pivots and sums"""
    H.I.unroll = 64
    g, _ = generic(H.call('MedianHist::new', a1=num(r), a2=num(n)), name + 'h')
    cell = H.cell(g, name + 'self')
    H.call('MedianHist::init_pivots', a1=cell)
    ps = [var('%spivot%d' % (name, i), 'u8') for i in range(n)]
    ss = [sums(i, ps[i]) if sums else var('%ssum%d' % (name, i), 'i32') for i in range(n)]
    for i in range(n):
        H.call('MedianHist::set_pivot', a1=cell, a2=ps[i], a3=num(i))
        H.call('MedianHist::set_sum', a1=cell, a2=ss[i], a3=num(i))
    return cell, ps, ss


def below(c, i, k):
    """how many values of window i of channel c are smaller than k"""
    if k is ZERO:
        return ZERO
    return t_.mk_app('hist_below', 'u32', var('hist.seed', 'u32'), num(c), num(i), k)


def first(c, i, t):
    """the first value such that at least t values of window i of channel c are smaller"""
    return t_.mk_app('first_ge:hist_below', 'u32', var('hist.seed', 'u32'), num(c), num(i), t)


def rows(H, cfg, Cn, n, r, new=False):
    """the histograms of a row of windows, read through the counts of their windows only"""
    H.I.unroll = 64
    if new:
        cells = [generic(H.call('MedianHist::new', a1=num(r), a2=num(n)), 'c%d.h' % c) for c in range(Cn)]
        vals = [q[0] for q in cells]
    else:
        cells = [median_hist(H, r, n, 'c%d.' % c, lambda i, p, c=c: below(c, i, p)) for c in range(Cn)]
        vals = [H.I.snapshot(H.st, q[0]) for q in cells]
    H.watch = None
    ident = {H.I.snapshot(H.st, H.call('MedianHist::data', a1=v)): c for c, v in enumerate(vals)}

    def get(I, a, st):
        c = ident[I.snapshot(st, a[0])]
        k, i = I.snapshot(st, a[1]), I.snapshot(st, a[2])
        if H.watch:
            H.watch(I, st)
        if i.op != 'num':
            raise Stuck('window')
        return sub(below(c, i.a[0], add(k, ONE)), below(c, i.a[0], k))
    H.override('PartialHistograms::get_count', get)
    return cells, H.cell(mk('lit', *vals), 'hists')


def put(I, st, ref, v):
    I.write_locs(st, I.locs_of(ref), v)


def put_data(I, st, ref, f):
    im = I.snapshot(st, ref)
    put(I, st, ref, agg(IMAGE, 0, field(im, 0), f(field(im, 1))))


def columns(ctx, cfg, tag, kind, more):
    """the windows of some columns slide down the image: one row of pixels in, one row out, replicated at the border"""
    fn = 'filter::median::process_cols_' + kind
    H = Har(ctx.har(cfg))
    r, n, x, c = var('radius', 'u16'), var('n_cols', 'u16'), var('x', 'u16'), var('channel', 'u32')
    im = H.image('img', 'u8')
    W, Ht, C, A, D = img_parts(im)
    # the rows of the output stand for whole rows of medians
    oc = H.cell(agg(IMAGE, 0, field(im, 0), svar('out.rows', Ht, 'i64')), 'output')
    h0 = mk('app', 'windows', 'i64', r, n, x)

    fresh = []

    def res(h, n_, x_, y, *more_):
        return mk('app', 'medians', 'i64', h, n_, x_, y, *more_)

    def init(I, a, st):
        if kind == 'med':
            inp, out, hs, po, r_, cen, n_, x_ = a
            m = (cen,)
        else:
            inp, out, hs, po, r_, n_, x_ = a
            m = ()
        if I.snapshot(st, inp) is not im:
            raise Stuck('other image')
        fresh.append(I.snapshot(st, hs))
        h = mk('app', 'windows', 'i64', r_, n_, x_)
        put(I, st, hs, h)
        put_data(I, st, out, lambda d: t_.upd(d, ZERO, res(h, n_, x_, ZERO, *m)))
        return UNIT

    def step(sign):
        def f(I, a, st):
            p = I.snapshot(st, a[1])
            put(I, st, a[0], add(I.snapshot(st, a[0]), scale(weigh(p, length(p), c), sign)))
            return UNIT
        return f

    def rowf(I, a, st):
        if kind == 'med':
            out, hs, po, cen, n_, x_, y = a
            m = (cen,)
        else:
            out, hs, po, n_, x_, y = a
            m = ()
        put_data(I, st, out, lambda d: t_.upd(d, y, res(I.snapshot(st, hs), n_, x_, y, *m)))
        return UNIT
    H.override('init_cols_' + kind, init)
    H.override('add_row_' + kind, step(1))
    H.override('remove_row_' + kind, step(-1))
    H.override('process_row_' + kind, rowf)
    y = var('y', 'u32')
    pre = (le0i(sub(add(x, ONE), W)), le0i(sub(add(c, ONE), C)), le0i(sub(ONE, n)))
    args = [H.cell(im, 'input'), oc, r] + list(more) + [n, x]
    H.call(fn.split('::')[-1], pre, **{'a%d' % (i + 1): v for i, v in enumerate(args)})
    size = add(scale(r, 2), ONE)
    cen = (add(t_.mk_idiv(mul(size, size), num(2)), ONE),) if kind == 'med' else ()
    j = fresh_bv(y)

    def slide(t):
        return sub(weigh_at(im, x, r, n, add(t, ONE, r), c), weigh_at(im, x, r, n, sub(t, r), c))
    h = add(h0, mk_sum(j, y, slide(j)), slide(y))
    dm = {'channel': lambda q, v=None: 0, 'y': lambda q: q.randint(0, 6), 'x': lambda q: q.randint(0, 8), 'radius': LOW, 'n_cols': lambda q: q.randint(1, 9)}
    o = H.out('output')
    new = H.call(('MedianHist' if kind == 'med' else 'MeanHist') + '::new', pre, a1=r, a2=n, **({'a3': more[0]} if more else {}))
    for f in fresh:
        ctx.eq('every channel has histograms' + tag, length(f), C, pre, dm, fn)
        ctx.eq('the histograms are fresh' + tag, elem(f, c), new, pre, dm, fn)
    ctx.eq('the first row is computed from the windows around it' + tag, elem(field(o, 1), ZERO), res(h0, n, x, ZERO, *cen), pre, dm, fn)
    ctx.eq('every further row is computed from the windows around it' + tag, elem(field(o, 1), add(y, ONE)), res(h, n, x, add(y, ONE), *cen), pre + (le0i(sub(add(y, num(2)), Ht)),), dm, fn)
    f = pre + (le0i(sub(add(y, num(3)), Ht)),)
    u, v = [elem(field(o, 1), add(y, num(k)), f) for k in (1, 2)]
    if all(q.op == 'app' and q.a[0] == 'medians' for q in (u, v)):
        nm = 'a step changes the windows by the row that enters and the row that leaves' + tag
        if prove_eq(u.a[2], h, f):    # for every y
            ctx.add(nm, 'proved', fn)
        else:
            ctx.eq(nm, sub(v.a[2], u.a[2]), slide(add(y, ONE)), f, dm, fn)
    ctx.events('columns' + tag, H, PANIC, pre, dm)
    ctx.note_run(H)


def weigh(p, m, c):
    """a row of m pixels as a number that tells rows apart"""
    b = fresh_bv(m)
    return mk_sum(b, m, mk('app', 'row', 'i64', b, elem(elem(p, b), c)))


def weigh_at(im, x, r, n, y, c):
    """the row of pixels under the windows of n columns from x on, in row y (replicated beyond the border)"""
    W, Ht, C, A, D = img_parts(im)
    m = add(n, scale(r, 2))
    b = fresh_bv(m)
    xx = mk_min(mk_max(add(x, b, neg(r)), ZERO), sub(W, ONE))
    yy = mk_min(mk_max(y, ZERO), sub(Ht, ONE))
    return mk_sum(b, m, mk('app', 'row', 'i64', b, elem(D, add(mul(add(mul(yy, W), xx), C), c))))


def row_domain(Cn, n, im, x, cen):
    W, Ht, _, A, D = img_parts(im)
    pre = (le0i(sub(add(x, ONE), W)), le0i(sub(ONE, cen)))
    for c in range(Cn):
        for i in range(n):
            f = first(c, i, cen)
            pre += (le0i(sub(ONE, f)), le0i(sub(f, num(256))))
    return pre


def write_row(ctx, H, vals, Cn, n, im, x, y, pre, lb, fn, dm):
    W, Ht, _, A, D = img_parts(im)
    d = field(H.out('output'), 1)
    for i in range(n):
        f = pre + (le0i(sub(add(x, num(i + 1)), W)),)
        o = mul(add(mul(y, W), x, num(i)), num(Cn))
        for c in range(Cn):
            ctx.eq('the value of window %d is written to its column (channel %d)%s' % (i, c, lb), elem(d, add(o, num(c)), f), vals[i][c], f, dm, fn)
    p = var('p', 'u32')
    start = mul(add(mul(y, W), x), num(Cn))
    end = mul(add(mul(y, W), mk_min(add(x, num(n)), W)), num(Cn))
    ctx.eq('the samples before the windows are kept' + lb, elem(d, p), elem(D, p), pre + (le0i(sub(add(p, ONE), start)),), dm, fn)
    f = pre + (le0i(sub(end, p)), le0i(sub(add(p, ONE), mul(W, Ht, num(Cn)))))
    ctx.eq('the samples after the windows are kept' + lb, elem(d, p), elem(D, p), f, dm, fn)
    ctx.eq('a row keeps the size of the image' + lb, length(d), length(D), pre, dm, fn)
    o2 = H.out('output')
    ctx.eq('a row changes only pixel data' + lb, field(o2, 0), field(im, 0), pre, dm, fn)


def row_result(ctx, H, Cn, n, im, x, y, cen, pre, lb, fn):
    W, Ht, _, A, D = img_parts(im)
    med = [[sub(first(c, i, cen), ONE) for c in range(Cn)] for i in range(n)]
    dm = {'p': lambda q, v=None: q.randint(0, 40), 'center': lambda q: q.choice((1, q.randint(1, 40), q.randint(1, 300))), 'x': lambda q: q.randint(0, 5), 'y': LOW}
    dm.update({k + s: lambda q: q.randint(1, 7) for k in ('img', 'out') for s in ('.w', '.h')})
    write_row(ctx, H, med, Cn, n, im, x, y, pre, lb, fn, dm)
    for c in range(Cn):
        v = elem(H.out('hists'), num(c))
        s, pv = [H.call('MedianHist::' + q, pre, a1=v) for q in ('sums', 'pivots')]
        for i in range(n):
            ctx.eq('channel %d column %d remembers its median' % (c, i) + lb, elem(pv, num(i)), med[i][c], pre, dm, fn)
            ctx.eq('channel %d column %d remembers the values below its median' % (c, i) + lb, elem(s, num(i)), below(c, i, med[i][c]), pre, dm, fn)
    ctx.events('a row' + lb, H, PANIC, pre, dm)
    ctx.note_run(H)


def rows_of(ctx, cfg, tag, name, upd_, add_):
    """a row of pixels enters or leaves the histogram of every channel"""
    for Cn in (1, 3):
        H = Har(ctx.har(cfg))
        H.I.unroll = 64
        C = num(Cn)
        h = [var('hist%d' % i, 'i64') for i in range(Cn)]
        p = row(1, 3, C)

        def up(I, a, st):
            sg = mk_ite(I.snapshot(st, a[3]), ONE, num(-1))
            put(I, st, a[0], add(I.snapshot(st, a[0]), mul(sg, weigh(I.snapshot(st, a[1]), num(5), I.snapshot(st, a[2])))))
            return UNIT
        H.override(upd_, up)
        H.call(name, (), a1=H.cell(mk('lit', *h), 'hists'), a2=p)
        for i in range(Cn):
            w = weigh(p, num(5), num(i))
            ctx.eq('%s changes channel %d of %d%s' % (name, i, Cn, tag), elem(H.out('hists'), num(i)), add(h[i], w if add_ else neg(w)), (), {}, 'filter::median::' + name)
        ctx.events(name + tag, H, PANIC)
        ctx.note_run(H)


def whole(ctx, cfg, tag, name, part, more, base=()):
    """every column of the image is in exactly one group of columns"""
    H = Har(ctx.har(cfg))
    r = var('radius', 'u16')
    im = H.image('img', 'u8')
    W, Ht, C, A, D = img_parts(im)
    ns = []

    def cols(I, a, st):
        inp, out, r_ = a[:3]
        n_, x_ = a[-2:]
        if I.snapshot(st, inp) is not im:
            raise Stuck('other image')
        ns.append(n_)
        put_data(I, st, out, lambda d: t_.upd(d, x_, mk('app', 'columns', 'u8', r_, n_, x_, *a[3:-2])))
        return UNIT
    H.override(part, cols)
    res = H.call(name, base, a1=im, a2=r, **{'a%d' % (i + 3): v for i, v in enumerate(more)})
    if not ns:
        # nothing of the input reaches the result
        d = field(im, 1)
        vs = {q for q in t_.subterms(d) if q.op == 'svar'}
        z = field(unwrap(res), 1)
        if vs and t_.discr(res) is ZERO and not any(q in vs for q in t_.subterms(z)) and not any(q.op in ('opaque', 'app') for q in t_.subterms(z)):
            ctx.add('the result is computed from the image' + tag, 'violated', 'filter::median::' + name, 'the data of the result does not depend on the data of the image: %s' % t_.show(z)[:300])
            return
    if not ns or any(q is not ns[0] for q in ns) or ns[0].fb:
        raise Stuck('groups of columns')
    n = ns[0]
    fn = 'filter::median::' + name
    for sg in (1, -1):
        cs = [x.a[0] for m in t_.pdict(n) for x, e in m if x.op == 'ite']
        fs = tuple(c if sg > 0 else mk_not(c) for c in cs)
        ctx.never('the number of columns in a group is even%s' % tag, mk_eq(t_.mk_mod(dsimp(n, fs), num(2)), ZERO), fs, {'radius': lambda q: q.randint(0, 40)}, fn)
    ctx.eq('the filter succeeds' + tag, t_.discr(res), ZERO, base, {}, fn)
    ok = unwrap(res)
    k = var('k', 'u16')
    # the width of a group may be any number
    d = t_.pdict(n)
    xs = sorted((m[0][0] for m, q in d.items() if len(m) == 1 and m[0][1] == 1 and q == 1), key=lambda q: q.op != 'ite')
    if xs:
        v = var('n_cols', 'u16')
        ok = t_.subst_vars(ok, {xs[0]: add(v, sub(xs[0], n))})
        n = v
    dm = {'n_cols': lambda q: q.randint(1, 9), 'radius': lambda q: q.randint(0, 9), 'k': lambda q: q.randint(0, 5)}
    pre = base + (le0i(sub(add(mul(n, k), ONE), W)), le0i(sub(ONE, n)))
    ctx.eq('a group of columns starts at every multiple of its width' + tag, elem(field(ok, 1), mul(n, k), pre), mk('app', 'columns', 'u8', r, n, mul(n, k), *more), pre, dm, fn)
    ctx.eq('the result has the shape of the image' + tag, field(ok, 0), field(im, 0), base, dm, fn)
    for e in H.I.events:
        if any(e.kind.startswith(q) for q in PANIC):
            fm = e.formula()
            # by the cases of the number of columns
            cs = [x.a[0] for x in t_._sub(fm) if x.op == 'ite']
            for sg in (1, -1):
                fs = tuple(c if sg > 0 else mk_not(c) for c in cs)
                ctx.never('whole image%s: %s' % (tag, e.kind), dsimp(fm, fs), base + fs, dm, fn)
                if not cs:
                    break
    ctx.note_run(H)


UNIT = tup()


JUNK = var('leftover', 'u8')


def handoff(H, J, n, im, x, y, pre, fn):
    """what a row leaves in its pixel buffer, and whether its result depends on what was there"""
    W = img_parts(im)[0]
    p, q = [field(K.out('output'), 1) for K in (H, J)]
    same = True
    for i in range(n):
        f = pre + (le0i(sub(add(x, num(i + 1)), W)),)
        o = add(mul(y, W), x, num(i))
        u, v = elem(p, o, f), elem(q, o, f)
        same = same and (u is v or prove_eq(u, v, f))
    return same, H.out('p_out'), pre, fn


def buffers(ctx, left, tag):
    """the pixel buffer handed from row to row: its content has no influence, or it is left empty"""
    same, po, pre, fn = left['row']
    if same:
        ctx.add('what the pixel buffer held before a row has no influence' + tag, 'proved', fn)
        return
    for w, t in (('a row', po), ('the first row', left['init'])):
        ctx.eq('the pixel buffer is empty after %s%s' % (w, tag), length(t), ZERO, pre, {}, fn)


def c32(ctx):
    parts(ctx)
    C, c, V = var('channels', 'chan'), var('channel', 'u32'), var('value', 'u8')
    inC = (le0i(sub(add(c, ONE), C)),)
    dom = {'channel': lambda q, v=None: 0, 'value': LOW, 'p*': LOW, 'pivot*': LOW}

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        left = {}

        def sums():
            for r, n in sizes(ctx):
                for add_ in (TRUE, FALSE):
                    verb = 'adding' if add_ is TRUE else 'removing'
                    H = Har(ctx.har(cfg))
                    cell, ps, ss = median_hist(H, r, n)
                    d0 = H.I.snapshot(H.st, H.call('MedianHist::data', inC, a1=cell))
                    p = row(r, n, C)
                    H.call('MedianHist::update', inC, a1=cell, a2=p, a3=c, a4=add_)
                    got = H.call('MedianHist::sums', inC, a1=cell)
                    piv = H.call('MedianHist::pivots', inC, a1=cell)
                    d1 = H.call('MedianHist::data', inC, a1=cell)
                    for i in range(n):
                        w = hits(p, c, i, 2 * r + 1, lambda q: le0i(sub(add(q, ONE), ps[i])))
                        lb = ' (window %d, radius %d, %d columns)%s' % (i, r, n, tag)
                        ctx.eq('%s a row counts its pixels below the previous median' % verb + lb, elem(got, num(i)), add(ss[i], w if add_ is TRUE else neg(w)), inC, dom, 'filter::median::MedianHist::update')
                        ctx.eq('%s a row keeps the previous median' % verb + lb, elem(piv, num(i)), ps[i], inC, dom, 'filter::median::MedianHist::update')
                        a, b = [H.call('PartialHistograms::get_count', inC, a1=d, a2=V, a3=num(i)) for d in (d0, d1)]
                        w = hits(p, c, i, 2 * r + 1, lambda q: mk_eq(q, V))
                        ctx.eq('%s a row updates the counts' % verb + lb, b, add(a, w if add_ is TRUE else neg(w)), inC, dom, 'filter::median::MedianHist::update')
                    ctx.events('sums (radius %d, %d columns)%s' % (r, n, tag), H, PANIC, inC, dom)
                    ctx.note_run(H)
        ctx.guard('sums' + tag, sums)

        def scan():
            for Cn in (1, 2):
                n, r = 3, 1
                H = Har(ctx.har(cfg))
                out, hs = rows(H, cfg, Cn, n, r)
                pc = H.cell(mk('lit'), 'p_out')
                x, y, cen = var('x', 'u16'), var('y', 'u16'), var('center', 'u16')
                im = H.image('out', 'u8', C=num(Cn))
                W, Ht, _, A, D = img_parts(im)
                pre = row_domain(Cn, n, im, x, cen) + (le0i(sub(add(y, ONE), Ht)),)
                oc = H.cell(im, 'output')
                H.call('process_row_med', pre, a1=oc, a2=hs, a3=pc, a4=cen, a5=num(n), a6=x, a7=y)
                if Cn == 1:
                    J = Har(ctx.har(cfg))
                    out, hj = rows(J, cfg, Cn, n, r)
                    J.call('process_row_med', pre, a1=J.cell(im, 'output'), a2=hj, a3=J.cell(mk('lit', JUNK), 'p_out'), a4=cen, a5=num(n), a6=x, a7=y)
                    left['row'] = handoff(H, J, n, im, x, y, pre, ROW)
                row_result(ctx, H, Cn, n, im, x, y, cen, pre, ' (%d channels)%s' % (Cn, tag), ROW)
        ctx.guard('scan' + tag, scan)

        def both():
            for nm, add_ in (('add_row_med', True), ('remove_row_med', False)):
                rows_of(ctx, cfg, tag, nm, 'MedianHist::update', add_)
        ctx.guard('rows' + tag, both)

        def start():
            for Cn in (1, 2):
                n = 3
                lb = ' (%d channels)%s' % (Cn, tag)
                H = Har(ctx.har(cfg))
                out, hs = rows(H, cfg, Cn, n, 1, True)
                acc = H.cell(ZERO, 'acc')
                pc = H.cell(mk('lit'), 'p_out')
                x, cen, r, c = var('x', 'u16'), var('center', 'u16'), var('radius', 'u16'), var('channel', 'u32')
                src = H.image('img', 'u8', C=num(Cn))
                W, Ht, _, A, D = img_parts(src)
                im = agg(IMAGE, 0, field(src, 0), svar('out.data', mul(W, Ht, num(Cn)), 'u8'))
                pre = row_domain(Cn, n, im, x, cen) + (le0i(sub(add(c, ONE), num(Cn))),)

                def addrow(I, a, st):
                    p = I.snapshot(st, a[1])
                    put(I, st, acc, add(I.snapshot(st, acc), weigh(p, length(p), c)))
                    return UNIT
                H.override('add_row_med', addrow)
                seen = {}
                H.watch = lambda I, st: seen.setdefault(I.snapshot(st, acc))
                oc = H.cell(im, 'output')
                H.call('init_cols_med', pre, a1=H.cell(src, 'input'), a2=oc, a3=hs, a4=pc, a5=r, a6=cen, a7=num(n), a8=x)
                left['init'] = H.out('p_out')
                m = add(scale(r, 2), ONE)
                b = fresh_bv(m)
                want = mk_sum(b, m, weigh_at(src, x, r, num(n), sub(b, r), c))
                dm = {'channel': lambda q, v=None: 0, 'radius': LOW, 'x': lambda q: q.randint(0, 5)}
                if not seen:
                    raise Stuck('no histogram was read')
                for h in seen:
                    ctx.eq('the first windows hold the rows around the first row' + lb, h, want, pre, dm, 'filter::median::init_cols_med')
                row_result(ctx, H, Cn, n, im, x, ZERO, cen, pre, lb + ' first row', 'filter::median::init_cols_med')
        ctx.guard('first row' + tag, start)

        def buf():
            buffers(ctx, left, tag)
        ctx.guard('pixel buffer' + tag, buf)

        def cols():
            columns(ctx, cfg, tag, 'med', ())
        ctx.guard('columns' + tag, cols)

        def top():
            whole(ctx, cfg, tag, 'median_filter', 'process_cols_med', ())
        ctx.guard('whole image' + tag, top)
    each(ctx, one, ['median_filter'])


def mean_hist(H, r, n, alpha, name, const=True):
    H.I.unroll = 64
    g = H.call('MeanHist::new', a1=num(r), a2=num(n), a3=alpha)
    return generic(g, name)[0]


def c39(ctx):
    parts(ctx)
    C, c, V, alpha = var('channels', 'chan'), var('channel', 'u32'), var('value', 'u8'), var('alpha', 'u16')
    inC = (le0i(sub(add(c, ONE), C)),)
    dom = {'channel': lambda q, v=None: 0, 'value': LOW, 'p*': LOW, 'alpha': lambda q: 2 * q.randint(0, 40)}
    MH = 'filter::median::MeanHist::'

    def counts_of(H, g, pre, i):
        """the count of one value in window i of a mean histogram, read through its data"""
        ds = [x for x in g.a[2:] if isinstance(x, T) and x.op == 'agg' and str(x.a[0]).endswith('PartialHistograms')]
        if len(ds) != 1:
            raise Stuck('no partial histograms')
        return H.call('PartialHistograms::get_count', pre, a1=ds[0], a2=V, a3=num(i))

    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        left = {}

        def counts():
            for r, n in sizes(ctx):
                for add_ in (TRUE, FALSE):
                    H = Har(ctx.har(cfg))
                    cell = H.cell(mean_hist(H, r, n, alpha, 'h'), 'self')
                    g0 = H.I.snapshot(H.st, cell)
                    p = row(r, n, C)
                    H.call('MeanHist::update', inC, a1=cell, a2=p, a3=c, a4=add_)
                    g1 = H.I.snapshot(H.st, cell)
                    for i in range(n):
                        a, b = counts_of(H, g0, inC, i), counts_of(H, g1, inC, i)
                        w = hits(p, c, i, 2 * r + 1, lambda q: mk_eq(q, V))
                        ctx.eq('%s a row updates the counts (window %d, radius %d, %d columns)%s' % ('adding' if add_ is TRUE else 'removing', i, r, n, tag), b, add(a, w if add_ is TRUE else neg(w)), inC, dom, MH + 'update')
                    ctx.events('counts (radius %d, %d columns)%s' % (r, n, tag), H, PANIC, inC, dom)
                    ctx.note_run(H)
        ctx.guard('mean counts' + tag, counts)

        def mean():
            for r, n, i in ((1, 3, 2), (2, 3, 1), (0, 1, 0)):
                H = Har(ctx.har(cfg))
                size = (2 * r + 1) ** 2
                trim = var('trim', 'u16')
                alpha = scale(trim, 2)
                v = mean_hist(H, r, n, alpha, 'h')

                def get(I, a, st):
                    k, j = I.snapshot(st, a[1]), I.snapshot(st, a[2])
                    if j.op != 'num':
                        raise Stuck('window')
                    return sub(below(0, j.a[0], add(k, ONE)), below(0, j.a[0], k))
                H.override('PartialHistograms::get_count', get)
                pre = (le0i(sub(add(alpha, ONE), num(size))), eq0(sub(below(0, i, num(256)), num(size))))
                got = H.call('MeanHist::get_mean', pre, a1=H.cell(v, 'self'), a2=num(i))

                def part(k):
                    return mk_min(mk_max(below(0, i, k), trim), sub(num(size), trim))
                b = fresh_bv(num(256))
                dm = {'trim': lambda q, v=None: q.randint(0, (size - 1) // 2), 'hist.seed': lambda q, v=None: 10 ** 6 * q.randint(1, 4000) + size}
                want = t_.mk_sat('u8', t_.mk_round('round', t_.div(mk_sum(b, num(256), mul(b, sub(part(add(b, ONE)), part(b)))), sub(num(size), alpha))))
                lb = ' (radius %d, window %d of %d)%s' % (r, i, n, tag)
                ctx.eq('the mean of what remains after trimming' + lb, got, want, pre, dm, MH + 'get_mean')
                ctx.events('mean' + lb, H, PANIC, pre, dm)
                ctx.note_run(H)
        ctx.guard('trimmed mean' + tag, mean)

        def both():
            for nm, add_ in (('add_row_mean', True), ('remove_row_mean', False)):
                rows_of(ctx, cfg, tag, nm, 'MeanHist::update', add_)
        ctx.guard('rows' + tag, both)

        def rowm():
            for Cn, n in ((1, 3), (2, 3)):
                means(ctx, cfg, Cn, n, ' (%d channels)%s' % (Cn, tag), False, left)
                means(ctx, cfg, Cn, n, ' (%d channels)%s' % (Cn, tag), True, left)
        ctx.guard('rows of means' + tag, rowm)

        def buf():
            buffers(ctx, left, tag)
        ctx.guard('pixel buffer' + tag, buf)

        def cols():
            columns(ctx, cfg, tag, 'mean', (alpha,))
        ctx.guard('columns' + tag, cols)

        def top():
            r = var('radius', 'u16')
            size = add(scale(r, 2), ONE)
            whole(ctx, cfg, tag, 'alpha_trimmed_mean_filter', 'process_cols_mean', (alpha,), (eq0(t_.mk_mod(alpha, num(2))), le0i(sub(add(alpha, ONE), mul(size, size)))))
        ctx.guard('whole image' + tag, top)
    each(ctx, one, ['alpha_trimmed_mean_filter'])


def means(ctx, cfg, Cn, n, lb, start, left):
    """one row of means, or the first one"""
    H = Har(ctx.har(cfg))
    H.I.unroll = 64
    vals = [generic(H.call('MeanHist::new', a1=num(1), a2=num(n), a3=num(2)), 'c%d.h' % c)[0] for c in range(Cn)]
    hs = H.cell(mk('lit', *vals), 'hists')
    acc = H.cell(ZERO, 'acc')
    pc = H.cell(mk('lit'), 'p_out')
    x, y, r, c = var('x', 'u16'), var('y', 'u16'), var('radius', 'u16'), var('channel', 'u32')
    src = H.image('img', 'u8', C=num(Cn))
    W, Ht, _, A, D = img_parts(src)
    im = agg(IMAGE, 0, field(src, 0), svar('out.data', mul(W, Ht, num(Cn)), 'u8'))
    pre = (le0i(sub(add(x, ONE), W)), le0i(sub(add(c, ONE), num(Cn))))
    seen = {}

    def get(I, a, st):
        i = I.snapshot(st, a[1])
        ch = vals.index(I.snapshot(st, a[0]))
        seen.setdefault(I.snapshot(st, acc))
        return mk('app', 'mean', 'u8', num(ch), i)

    def addrow(I, a, st):
        p = I.snapshot(st, a[1])
        put(I, st, acc, add(I.snapshot(st, acc), weigh(p, length(p), c)))
        return UNIT
    H.override('MeanHist::get_mean', get)
    H.override('add_row_mean', addrow)
    oc = H.cell(im, 'output')
    dm = {'channel': lambda q, v=None: 0, 'radius': LOW, 'x': lambda q: q.randint(0, 5), 'y': LOW, 'p': lambda q, v=None: q.randint(0, 40)}
    dm.update({'img' + s: lambda q: q.randint(1, 7) for s in ('.w', '.h')})
    if start:
        fn = 'filter::median::init_cols_mean'
        y = ZERO
        lb += ' first row'
        H.call('init_cols_mean', pre, a1=H.cell(src, 'input'), a2=oc, a3=hs, a4=pc, a5=r, a6=num(n), a7=x)
        left['init'] = H.out('p_out')
        m = add(scale(r, 2), ONE)
        b = fresh_bv(m)
        want = mk_sum(b, m, weigh_at(src, x, r, num(n), sub(b, r), c))
        if not seen:
            raise Stuck('no histogram was read')
        for h in seen:
            ctx.eq('the first windows hold the rows around the first row' + lb, h, want, pre, dm, fn)
    else:
        fn = 'filter::median::process_row_mean'
        pre += (le0i(sub(add(y, ONE), Ht)),)
        H.call('process_row_mean', pre, a1=oc, a2=hs, a3=pc, a4=num(n), a5=x, a6=y)
        if Cn == 1:
            J = Har(ctx.har(cfg))
            J.I.unroll = 64
            J.override('MeanHist::get_mean', get)
            J.call('process_row_mean', pre, a1=J.cell(im, 'output'), a2=J.cell(mk('lit', *vals), 'hists'), a3=J.cell(mk('lit', JUNK), 'p_out'), a4=num(n), a5=x, a6=y)
            left['row'] = handoff(H, J, n, im, x, y, pre, fn)
    write_row(ctx, H, [[mk('app', 'mean', 'u8', num(c), num(i)) for c in range(Cn)] for i in range(n)], Cn, n, im, x, y, pre, lb, fn, dm)
    ctx.events('a row' + lb, H, PANIC, pre, dm)
    ctx.note_run(H)


PROPS = {
    'C32': (c32, 'proof', RULE),
    'C39': (c39, 'proof', RULE2),
}
