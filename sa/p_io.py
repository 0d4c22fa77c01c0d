"""C18, C19: reading and writing files, with the image crate's calls as uninterpreted, possibly failing steps."""
from check import *

RES = 'core::result::Result'
OPT = 'core::option::Option'
CH = {'Luma': 1, 'LumaA': 2, 'Rgb': 3, 'Rgba': 4, 'Bgr': 3, 'Bgra': 4}
LAYOUT = {(1, False): 'Luma', (2, True): 'LumaA', (3, False): 'Rgb', (4, True): 'Rgba'}
BYCOLOR = {'L8': 'Luma', 'La8': 'LumaA', 'Rgb8': 'Rgb', 'Rgba8': 'Rgba', 'Bgr8': 'Bgr', 'Bgra8': 'Bgra'}


class Env:
    """the outside world: every fallible step may fail, and a failure carries its own error value"""

    def __init__(self, H):
        self.H = H
        self.log = []
        self.unknown = []
        I = H.I
        orig = I.models.call

        def call(rec, args, at, dt, st, site):
            r = self.step(rec, args, at, dt, st, site)
            if r is not NotImplemented:
                return r
            return orig(rec, args, at, dt, st, site)
        I.models.call = call

    def result(self, nm, args, ety):
        good = mk('app', nm + '.ok', 'bool', *args)
        return mk_ite(good, agg(RES, 0, mk('opaque', nm + '.value', *args)), agg(RES, 1, mk('opaque', nm + '.error:' + ety, *args))), good

    def step(self, rec, args, at, dt, st, site):
        path = rec['path']
        tgt = (rec.get('res') or rec)['path']
        name = rec['name']
        I = self.H.I
        if not (path.startswith(('image::', 'std::fs', 'std::io', 'std::path', 'std::env', 'std::process')) or tgt.startswith(('image::', 'std::fs', 'std::path'))):
            return NotImplemented
        vs = [I.snapshot(st, a) for a in args]
        if tgt.startswith('std::path'):
            if name in ('new', 'to_path_buf', 'as_ref', 'deref', 'to_owned', 'from', 'into', 'as_path', 'borrow', 'clone'):
                return vs[0]
            return NotImplemented
        if name == 'dimensions':
            return tup(var('decoded.width', 'nat1'), var('decoded.height', 'nat1'))
        if name in ('width', 'height') and len(vs) == 1:
            return var('decoded.' + name, 'nat1')
        if name == 'color' and len(vs) == 1:
            vs = self.H.w.adts['image::color::ColorType']['variants']
            r = agg('image::color::ColorType', len(vs) - 1)
            for i in reversed(range(len(vs) - 1)):
                r = mk_ite(mk_eq(var('decoded.color.tag', 'u8'), num(i)), agg('image::color::ColorType', i), r)
            return r
        if name in ('as_bytes', 'to_bytes', 'into_bytes') and len(vs) == 1:
            return svar('decoded.bytes', var('decoded.len', 'usize'), 'u8')
        if name == 'from_raw':
            w, h, d = vs
            p = I.gsub((rec.get('res') or rec)['args'][0])
            if p.get('k') != 'adt' or p['n'].split('::')[-1] not in CH:
                raise Stuck('pixel type of from_raw')
            px_ = p['n'].split('::')[-1]
            c8 = p.get('a') and p['a'][0].get('n')
            n = mul(w, h, num(CH[px_]))
            return mk_ite(le0i(sub(n, length(d))), some(mk('opaque', 'buffer:%s<%s>' % (px_, c8), w, h, d)), NONE)
        if name == 'save' and len(vs) == 2:
            r, good = self.result('save', vs, 'image')
            self.log.append(('save', mk_and(*st.path), vs[0], vs[1], good))
            return mk_ite(good, agg(RES, 0, UNIT), field_err(r))
        if name == 'save_buffer' and len(vs) == 5:
            w, h, col = vs[2], vs[3], vs[4]
            a = self.H.w.adts['image::color::ColorType']
            if col.op != 'agg' or a['variants'][col.a[1]]['name'] not in BYCOLOR:
                raise Stuck('colour type of save_buffer')
            px_ = BYCOLOR[a['variants'][col.a[1]]['name']]
            I.event(st, 'assert', mk_not(mk_eq(length(vs[1]), mul(w, h, num(CH[px_])))), site)
            b = mk('opaque', 'buffer:%s<u8>' % px_, w, h, vs[1])
            r, good = self.result('save', [b, vs[0]], 'image')
            self.log.append(('save', mk_and(*st.path), b, vs[0], good))
            return mk_ite(good, agg(RES, 0, UNIT), field_err(r))
        if dt and dt.get('k') == 'adt' and dt['n'] == RES:
            e = dt['a'][1]
            ety = 'image' if 'image::error' in e.get('n', '') else 'io'
            r, good = self.result(tgt, vs, ety)
            self.log.append((name, mk_and(*st.path), vs, ety, good))
            return r
        self.unknown.append(path)
        return NotImplemented


def field_err(r):
    return r.a[2]


def variant(w, n):
    a = w.adts['crate::error::ImgIoError']
    for i, v in enumerate(a['variants']):
        if v['name'] == n:
            return i
    raise Missing('ImgIoError::' + n)


def is_var(r, i):
    """r is Err(variant i)"""
    return mk_and(is_err(r), mk_eq(t_.discr(field(r, 0, 1)), num(i)))


def reading(ctx, cfg='none'):
    H = ctx.har(cfg)
    E = Env(H)
    p = mk('var', 'filename', 'opaque:str')
    r = H.call('io::read', a1=p)
    ctx.note_run(H)
    steps = [x for x in E.log if isinstance(x[2], list)]
    return H, E, p, r, steps


def writing(ctx, cfg, C=None, A=None, data=None):
    H = ctx.har(cfg)
    E = Env(H)
    p = mk('var', 'filename', 'opaque:str')
    im = H.image('img', 'u8', C=C, A=A, data=data)
    r = H.call('io::write', a1=im, a2=p)
    ctx.note_run(H)
    return H, E, p, im, r, [x for x in E.log if x[0] == 'save'], [x for x in E.log if x[0] != 'save']


def c18(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg
        w = ctx.world(cfg)
        IO, IMG, COL, WR = (variant(w, n) for n in ('IoError', 'ImageReaderError', 'UnsupportedColorTypeError', 'ImageWriteError'))

        def rd():
            H, E, p, r, steps = reading(ctx, cfg)
            site = 'io::read'
            tagv = var('decoded.color.tag', 'u8')
            pre = (mk_not(mk_eq(tagv, num(8))), mk_not(mk_eq(tagv, num(9))))     # no decoder yields BGR
            dom = {'decoded.color.tag': lambda q: q.randint(0, 10), 'decoded.len': lambda q: q.randint(0, 30)}
            if not steps or r is None:
                ctx.add('read' + tag, 'undecided', site, 'no fallible step recognised')
                return
            allok = mk_and(*[s[4] for s in steps])
            sup = mk_or(*[mk_eq(tagv, num(i)) for i in range(4)])
            ctx.eq('read succeeds exactly when every step succeeded and the layout is supported' + tag, is_err(r), mk_not(mk_and(allok, sup)), pre, dom, site, key='read:success')
            before = []
            for s in steps:
                prior = tuple(pre) + tuple(before)
                bad = prior + (mk_not(s[4]),)
                ctx.eq('read reports the failure of %s%s' % (s[0], tag), is_var(r, IMG if s[3] == 'image' else IO), TRUE, bad, dom, site, key='read:error:' + s[0])
                rr = dsimp(r, bad)
                pl = field(field(rr, 0, 1), 0, IMG if s[3] == 'image' else IO)
                ctx.eq('read passes on the error of %s%s' % (s[0], tag), has_error(pl), TRUE, bad, dom, site)
                before.append(s[4])
            un = pre + (allok, mk_not(sup))
            ctx.eq('read rejects unsupported layouts as such' + tag, is_var(r, COL), TRUE, un, dom, site, key='read:layout')
            for e in panics(H):
                ctx.sites += 1
                ctx.never('read never panics: %s in %s%s' % (e.kind, short(e.site[0]), tag), e.formula(), pre, dom, short(e.site[0]), key='read:panic')
        ctx.guard('read' + tag, rd)

        def wr():
            n = var('img.len', 'usize')
            for c in (0, 1, 2, 3, 4, 5, 6, 255):
                for a in (False, True):
                    H, E, p, im, r, saves, other = writing(ctx, cfg, num(c), TRUE if a else FALSE, svar('img.data', n, 'u8'))
                    site = 'io::write'
                    W, Ht, C, A, D = img_parts(im)
                    nm = 'write(%d channel%s%s)' % (c, '' if c == 1 else 's', ', alpha' if a else '')
                    dom = {'img.len': lambda q: q.randint(0, 60), 'img.w': lambda q: q.randint(1, 4), 'img.h': lambda q: q.randint(1, 4)}
                    if other:
                        ctx.add(nm + tag, 'undecided', site, 'unrecognised steps: %s' % sorted({x[0] for x in other}))
                        continue
                    for e in panics(H):
                        ctx.sites += 1
                        ctx.never('%s never panics: %s in %s%s' % (nm, e.kind, short(e.site[0]), tag), e.formula(), (), dom, short(e.site[0]), key='write:panic:%d%s' % (c, a))
                    if (c, a) not in LAYOUT:
                        ctx.eq('%s is rejected%s' % (nm, tag), is_var(r, COL), TRUE, (), dom, site, key='write:reject:%d%s' % (c, a))
                        for s in saves:
                            ctx.never('%s saves nothing%s' % (nm, tag), s[1], (), dom, site)
                        continue
                    enough = le0i(sub(mul(W, Ht, num(c)), n))
                    if not saves:
                        ctx.add('%s saves%s' % (nm, tag), 'violated', site, 'no call that saves an image is reachable', key='write:save:%d%s' % (c, a))
                        continue
                    # Ok exactly if a save ran and succeeded
                    done = mk_or(*[mk_and(s[1], s[4]) for s in saves])
                    ctx.eq('%s reports success exactly when the image was saved%s' % (nm, tag), mk_not(is_err(r)), done, (), dom, site, key='write:success:%d%s' % (c, a))
                    ctx.eq('%s attempts to save exactly when the buffer fits%s' % (nm, tag), mk_or(*[s[1] for s in saves]), enough, (), dom, site, key='write:attempt:%d%s' % (c, a))
                    ctx.eq('%s reports a short buffer%s' % (nm, tag), is_var(r, WR), TRUE, (mk_not(enough),), dom, site, key='write:short:%d%s' % (c, a))
                    for s in saves:
                        bad = (s[1], mk_not(s[4]))
                        ctx.eq('%s reports a failed save%s' % (nm, tag), is_var(r, IMG), TRUE, bad, dom, site, key='write:failed:%d%s' % (c, a))
                        ctx.eq('%s passes on the error of save%s' % (nm, tag), has_error(field(field(dsimp(r, bad), 0, 1), 0, IMG)), TRUE, bad, dom, site)
        ctx.guard('write' + tag, wr)
    each(ctx, one, ['io::read', 'io::write'])


def has_error(t):
    """the term is the error value of a failed step"""
    if t.op == 'opaque' and '.error:' in str(t.a[0]):
        return TRUE
    if t.op == 'ite':
        return mk_ite(t.a[0], has_error(t.a[1]), has_error(t.a[2]))
    if t.op in ('opaque', 'agg', 'lit', 'str', 'num'):
        return FALSE
    return mk('opaque', 'has_error', t)


def c19(ctx):
    def one(cfg):
        tag = '' if cfg == 'none' else '@' + cfg

        def rd():
            H, E, p, r, steps = reading(ctx, cfg)
            site = 'io::read'
            tagv = var('decoded.color.tag', 'u8')
            allok = tuple(s[4] for s in steps)
            names = [v['name'] for v in ctx.world(cfg).adts['image::color::ColorType']['variants']]
            W, Ht = var('decoded.width', 'nat1'), var('decoded.height', 'nat1')
            n = var('decoded.len', 'usize')
            dom = {'decoded.len': lambda q: q.randint(1, 30)}
            for i, nm in enumerate(names):
                if nm in ('Bgr8', 'Bgra8'):
                    continue
                pre = allok + (mk_eq(tagv, num(i)),)
                d = dict(dom)
                d['decoded.color.tag'] = lambda q, i=i: i
                lay = [k for k, v in LAYOUT.items() if BYCOLOR.get(nm) == v]
                rr = dsimp(r, pre)
                if not lay:
                    ctx.eq('read rejects %s%s' % (nm, tag), is_err(rr), TRUE, pre, d, site, key='read:' + nm)
                    continue
                c, a = lay[0]
                ctx.eq('read accepts %s%s' % (nm, tag), is_err(rr), FALSE, pre, d, site, key='read:' + nm)
                im = unwrap(rr)
                inf = field(im, 0)
                for j, (q, want) in enumerate((('width', W), ('height', Ht), ('channels', num(c)), ('alpha', TRUE if a else FALSE))):
                    ctx.eq('read %s: %s%s' % (nm, q, tag), field(inf, j), want, pre, d, site, key='read:%s:%s' % (nm, q))
                dd = field(im, 1)
                b = fresh_bv(n)
                ctx.eq('read %s: all samples%s' % (nm, tag), length(dd), n, pre, d, site)
                ctx.eq('read %s: samples unchanged%s' % (nm, tag), elem(dd, b), elem(svar('decoded.bytes', n, 'u8'), b), pre, d, site, ((b, n),), key='read:%s:samples' % nm)
        ctx.guard('read' + tag, rd)

        def wr():
            for (c, a), px_ in sorted(LAYOUT.items()):
                H, E, p, im, r, saves, other = writing(ctx, cfg, num(c), TRUE if a else FALSE)
                W, Ht, C, A, D = img_parts(im)
                nm = 'write(%s)' % px_
                site = 'io::write'
                if other or not saves:
                    ctx.add(nm + tag, 'undecided', site, 'no recognised call that saves')
                    continue
                for s in saves:
                    ctx.eq('%s encodes the image as %s<u8> with its own size and samples%s' % (nm, px_, tag), s[2], mk('opaque', 'buffer:%s<u8>' % px_, W, Ht, D), (s[1],), None, site, key='write:' + px_)
                    ctx.eq('%s saves to the given path%s' % (nm, tag), s[3], p, (s[1],), None, site, key='write:path:' + px_)
                ctx.eq('%s saves once%s' % (nm, tag), add(*[mk_ite(s[1], ONE, ZERO) for s in saves]), ONE, (), None, site, key='write:once:' + px_)
            # any other layout is rejected
            H, E, p, im, r, saves, other = writing(ctx, cfg, var('img.c', 'u8'), var('img.alpha', 'bool'))
            W, Ht, C, A, D = img_parts(im)
            good = mk_or(*[mk_and(mk_eq(C, num(c)), A if a else mk_not(A)) for c, a in LAYOUT])
            dom = {'img.c': lambda q: q.randint(0, 6)}
            ctx.eq('write rejects every other layout' + tag, is_err(r), TRUE, (mk_not(good),), dom, 'io::write', key='write:other')
            for s in saves:
                ctx.never('write saves nothing for any other layout' + tag, mk_and(s[1], mk_not(good)), (), dom, 'io::write', key='write:other')
        ctx.guard('write' + tag, wr)
    each(ctx, one, ['io::read', 'io::write'])


PROPS = {
    'C18': (c18, 'proof', 'value graphs with every step of the image crate as an uninterpreted, possibly failing function'),
    'C19': (c19, 'proof', 'value graphs with the image crate as uninterpreted functions; one case per colour type and layout'),
}
