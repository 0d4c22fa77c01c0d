"""C15, C16, C17: call-graph, dataflow and effect rules over the MIR."""
from check import *
from rules import *
import p_par

SIMDCFG = ('simd', 'simdpar')
ALLF = frozenset(['*'])
IMPL = {
    'avx2': ['avx2', 'avx', 'sse', 'sse2', 'sse3', 'sse4.1', 'sse4.2', 'ssse3'],
    'avx': ['avx', 'sse', 'sse2', 'sse3', 'sse4.1', 'sse4.2', 'ssse3'],
    'sse4.2': ['sse', 'sse2', 'sse3', 'sse4.1', 'sse4.2', 'ssse3'], 'sse4.1': ['sse', 'sse2', 'sse3', 'sse4.1', 'ssse3'], 'ssse3': ['sse', 'sse2', 'sse3', 'ssse3'],
    'sse3': ['sse', 'sse2', 'sse3'],
}
BASE = frozenset(['sse', 'sse2', 'fxsr', 'x87', 'crt-static'])


def implied(f):
    return frozenset(IMPL.get(f, [f]))


def fmeet(a, b):
    return b if a == ALLF else a if b == ALLF else a & b


def fjoin(a, b):
    return ALLF if ALLF in (a, b) else a | b


class Features:
    """forward dataflow: CPU features known to be present at each block, and what booleans say about them"""

    def __init__(self, w):
        self.w = w
        self.req = {k: {} for k in w.bodies}       # feature -> (block, line, callee)
        self.ret = {k: (frozenset(), frozenset()) for k in w.bodies}
        self.opaque = set()
        self.checks = 0
        self.sites = []
        for rnd in range(20):
            self.changed = False
            self.sites = []
            for k in w.bodies:
                self.body(k)
            if not self.changed:
                break

    def opval(self, o, vals, known):
        c = o.get('c')
        if isinstance(c, dict):
            b = (c.get('val') or {}).get('bool')
            if b is True:
                return (known, ALLF)
            if b is False:
                return (ALLF, known)
            return (known, known)
        p = o.get('p')
        if p is not None and not p[1]:
            v = vals.get(p[0])
            if v:
                return (fjoin(v[0], known), fjoin(v[1], known))
        return (known, known)

    def body(self, k):
        b = self.w.bodies[k]
        own = frozenset(b.get('tf') or ())
        start = (own | BASE, {}, False)
        inn = {0: start}
        work = [0]
        n = 0
        while work and n < 20000:
            n += 1
            i = work.pop()
            known, vals, op = inn[i]
            vals = dict(vals)
            bl = b['blocks'][i]
            for s in bl['st']:
                if s.get('s') == '=' and not s['p'][1]:
                    vals[s['p'][0]] = self.rvalue(s['rv'], vals, known)
            outs = []
            t = bl['term']
            if t['t'] == 'switch' and (t.get('ty') or {}).get('k') == 'bool':
                v = self.opval(t['d'], vals, known)
                o2 = op or self.is_opaque(b, t['d'])
                for val, to in t['v']:
                    outs.append((to, fjoin(known, v[1] if val == '0' else v[0]), vals, o2))
                zero = any(val == '0' for val, to in t['v'])
                outs.append((t['else'], fjoin(known, v[0] if zero else v[1]), vals, o2))
            elif t['t'] == 'call':
                f = callee(t)
                d = t.get('d')
                if d is not None and not d[1]:
                    vals.pop(d[0], None)
                    if f:
                        p = target(f)
                        if '__is_feature_detected' in p:
                            vals[d[0]] = (implied(f['name'].replace('_', '.') if f['name'].startswith('sse4') else f['name']), frozenset())
                        elif p in self.ret and self.ret[p] != (frozenset(), frozenset()):
                            vals[d[0]] = self.ret[p]
                        elif f['name'] == 'not' and f.get('trait', '').endswith('Not'):
                            v = self.opval(t['a'][0], vals, known)
                            vals[d[0]] = (v[1], v[0])
                if t.get('to') is not None:
                    outs.append((t['to'], known, vals, op))
            else:
                for to in succs(t):
                    outs.append((to, known, vals, op))
            for to, kn, vs, o2 in outs:
                if kn == ALLF:      # contradictory: unreachable
                    continue
                old = inn.get(to)
                if old is None:
                    new = (kn, dict(vs), o2)
                else:
                    nk = fmeet(old[0], kn)
                    nv = {}
                    for x in set(old[1]) | set(vs):
                        p, q = old[1].get(x, (old[0], old[0])), vs.get(x, (kn, kn))
                        nv[x] = (fmeet(p[0], q[0]), fmeet(p[1], q[1]))
                    new = (nk, nv, old[2] and o2)
                if new != old:
                    inn[to] = new
                    work.append(to)
        # returns and requirements
        rt = None
        req = {}
        for i, (known, vals, op) in inn.items():
            bl = b['blocks'][i]
            vals = dict(vals)
            for s in bl['st']:
                if s.get('s') == '=' and not s['p'][1]:
                    vals[s['p'][0]] = self.rvalue(s['rv'], vals, known)
                for f in mentions({'blocks': s}):
                    self.need(k, i, s.get('l'), f, known, op, req)
                if s.get('s') == '=' and s['rv'].get('r') == 'agg':
                    kk = s['rv'].get('k') or s['rv'].get('kind') or {}
                    cn = kk.get('n') if isinstance(kk, dict) else None
                    if cn in self.w.bodies:
                        self.needk(k, i, s.get('l'), cn, known, op, req)
            for f in mentions({'blocks': bl['term']}):
                self.need(k, i, bl.get('l'), f, known, op, req)
            if bl['term']['t'] == 'ret':
                v = vals.get(0, (known, known))
                rt = v if rt is None else (fmeet(rt[0], v[0]), fmeet(rt[1], v[1]))
        base = own | BASE
        rt = tuple(frozenset() if x == ALLF else frozenset(x) - base for x in (rt or (frozenset(), frozenset())))
        if rt != self.ret[k]:
            self.ret[k] = rt
            self.changed = True
        if req != self.req[k]:
            self.req[k] = req
            self.changed = True

    def rvalue(self, rv, vals, known):
        r = rv.get('r')
        if r == 'use':
            return self.opval(rv['o'], vals, known)
        if r == 'un' and 'Not' in str(rv.get('op') or rv.get('k')):
            v = self.opval(rv.get('o') or rv.get('a'), vals, known)
            return (v[1], v[0])
        if r == 'bin':
            op = str(rv.get('op') or rv.get('k'))
            a, b = rv.get('a'), rv.get('b')
            if isinstance(a, dict) and isinstance(b, dict):
                x, y = self.opval(a, vals, known), self.opval(b, vals, known)
                if op == 'BitAnd':
                    return (fjoin(x[0], y[0]), fmeet(x[1], y[1]))
                if op == 'BitOr':
                    return (fmeet(x[0], y[0]), fjoin(x[1], y[1]))
        return (known, known)

    def is_opaque(self, b, d):
        """branch on a value read from a cache or an unanalysed source (could hold a detection result)"""
        p = d.get('p')
        if p is None:
            return False
        loc = p[0]
        seen = set()
        work = [loc]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for bl in b['blocks']:
                t = bl['term']
                if t['t'] == 'call' and t.get('d') and t['d'][0] == x:
                    f = callee(t)
                    p = target(f) if f else '?'
                    if any(q in p for q in ('Atomic', 'atomic', 'once', 'Once', 'lazy', 'Lazy', 'thread::local', 'static')):
                        return True
                    if f is None:
                        return True
                    if p in self.w.bodies and any('__is_feature_detected' in target(g) for kk in reach(self.w, [p])[0] for g in mentions(self.w.bodies[kk])):
                        # its summary says nothing, yet it looks at the features
                        return self.ret.get(p) == (frozenset(), frozenset())
                    work += [a['p'][0] for a in t['a'] if a.get('p')]
                for s in bl['st']:
                    if s.get('s') == '=' and s['p'][0] == x:
                        def go(y):
                            if isinstance(y, dict):
                                if 'static' in y:
                                    return True
                                if isinstance(y.get('p'), list) and y['p'] and isinstance(y['p'][0], int):
                                    work.append(y['p'][0])
                                return any(go(z) for z in y.values())
                            return isinstance(y, list) and any(go(z) for z in y)
                        if go(s['rv']):
                            return True
        return False

    def need(self, k, i, line, f, known, op, req):
        p = target(f)
        want = frozenset(f.get('tf') or ())
        if p in self.w.bodies:
            want |= frozenset(self.w.bodies[p].get('tf') or ()) | frozenset(self.req[p])
        if want - BASE:
            self.sites.append((k, i, line, p))
        for q in want - known - BASE:
            req.setdefault(q, (line, p, op))

    def needk(self, k, i, line, p, known, op, req):
        want = frozenset(self.req[p])
        for q in want - known - BASE:
            req.setdefault(q, (line, p, op))


def c15(ctx):
    def one(cfg):
        w = ctx.world(cfg)
        F = Features(w)
        ctx.analysed |= {k for k, b in w.bodies.items()}
        ctx.stats['call_sites_of_feature_gated_code'] = ctx.stats.get('call_sites_of_feature_gated_code', 0) + len(F.sites)
        det = sum(1 for k, b in w.bodies.items() for f in mentions(b) if '__is_feature_detected' in target(f))
        ctx.stats['run_time_detections'] = ctx.stats.get('run_time_detections', 0) + det
        for k, b in sorted(w.bodies.items()):
            if b['kind'] != 'fn' or b.get('unsafe') or not (b.get('pub') or b.get('trait')):
                continue
            r = F.req[k]
            if not r:
                # only report functions that can get there at all
                if any(f.get('tf') for kk in reach(w, [k])[0] for f in mentions(w.bodies[kk])):
                    ctx.add('%s detects before entering feature-gated code@%s' % (short(k), cfg), 'proved', short(k))
                continue
            q = 'avx2' if 'avx2' in r else sorted(r)[0]
            chain, kk, op = [short(k)], k, False
            while kk in F.req and q in F.req[kk] and len(chain) < 20:
                line, p, o = F.req[kk][q]
                op = op or o
                chain.append('%s (called at %s)' % (short(p), line))
                if p == kk or p not in F.req:
                    break
                kk = p
            ctx.add('%s detects before entering feature-gated code@%s' % (short(k), cfg), 'undecided' if op else 'violated', short(k),
                    'reaches code compiled for %s without a preceding successful detection: %s' % (q, ' -> '.join(chain)), key='gate:' + short(k))
        # feature-gated functions are not safe to call by accident, and exist only where detected
    for cfg in SIMDCFG:
        ctx.guard('feature gates@' + cfg, lambda cfg=cfg: one(cfg))

    def off():
        for cfg in ('none', 'par'):
            w = ctx.world(cfg)
            bad = sorted({k for k, b in w.bodies.items() if b.get('tf') or any('avx' in ' '.join(f.get('tf') or ()) for f in mentions(b))})
            ctx.rule('no feature-gated code without the simd feature@' + cfg, not bad, ', '.join(map(short, bad)), 'feature-gated code compiled in: %s' % bad)
    ctx.guard('simd feature off', off)

    # the scalar implementation takes over where detection fails: an AVX2 entry must not be the only way to a result
    def fallback():
        w = ctx.world('simd')
        for k, b in sorted(w.bodies.items()):
            if b['kind'] != 'fn' or b.get('unsafe') or not any('__is_feature_detected' in target(f) for f in mentions(b)):
                continue
            # with every detection false, a return (not a panic) must be reachable
            ok = returns_without(w, b)
            ctx.rule('%s returns without AVX2' % short(k), ok, short(k), 'no normal return of %s is reachable when detection fails' % short(k))
    ctx.guard('fallback', fallback)


def returns_without(w, b):
    """some return is reachable when every detection call yields false"""
    seen, work = set(), [(0, frozenset())]
    while work:
        i, no = work.pop()
        if (i, no) in seen or len(seen) > 5000:
            continue
        seen.add((i, no))
        bl = b['blocks'][i]
        no = set(no)
        const = {}
        for s in bl['st']:
            if s.get('s') == '=' and not s['p'][1]:
                rv = s['rv']
                x = s['p'][0]
                if rv.get('r') == 'use':
                    o = rv['o']
                    c = o.get('c')
                    if isinstance(c, dict) and (c.get('val') or {}).get('bool') is False:
                        no.add(x)
                        continue
                    if o.get('p') and not o['p'][1] and o['p'][0] in no:
                        no.add(x)
                        continue
                no.discard(x)
        t = bl['term']
        if t['t'] == 'ret':
            return True
        if t['t'] == 'switch':
            d = t['d'].get('p')
            if d and not d[1] and d[0] in no:
                work += [(to, frozenset(no)) for v, to in t['v'] if v == '0']
                continue
        if t['t'] == 'call':
            f = callee(t)
            if t.get('d') and not t['d'][1]:
                no.discard(t['d'][0])
                if f and '__is_feature_detected' in target(f):
                    no.add(t['d'][0])
        for to in succs(t):
            work.append((to, frozenset(no)))
    return False


# ------------------------------------------------------------------ C16
AMBIENT = (('std::time::', 'reads the clock'), ('std::env::', 'reads the environment'), ('core::time::instant', 'reads the clock'), ('rand::', 'random'), ('getrandom', 'random'), ('fastrand', 'random'),
           ('std::thread::current', 'thread identity'), ('std::thread::available_parallelism', 'number of processors'), ('std::thread::functions::', 'thread state'),
           ('rayon::current_', 'thread pool state'), ('rayon_core::current_', 'thread pool state'), ('rayon_core::thread_pool', 'thread pool state'), ('std::process::id', 'process identity'),
           ('std::process::', 'process state'), ('std::hash::random', 'random hash keys'), ('std::collections::hash::map::RandomState', 'random hash keys'), ('core::arch::x86_64::_rdtsc', 'clock'), ('core::core_arch::x86::rdtsc', 'clock'),
           ('core::core_arch::x86::rdrand', 'random'), ('std::panic::location', None))
HASHITER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'into_keys', 'into_values', 'retain')
ORDERFREE = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'count', 'all', 'any', 'len')
INTERIOR = ('core::cell::', 'core::sync::atomic', 'std::sync::mutex', 'std::sync::rwlock', 'std::sync::poison', 'std::thread::local', 'std::sync::once_lock', 'std::sync::lazy_lock', 'std::sync::mpsc', 'std::sync::reentrant',
            'std::sync::nonpoison', 'core::cell::once', 'core::cell::lazy')
READS = ('load', 'lock', 'read', 'borrow', 'borrow_mut', 'get', 'with', 'with_borrow', 'with_borrow_mut', 'try_with', 'swap', 'take', 'replace', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_max', 'fetch_min',
         'compare_exchange', 'compare_exchange_weak', 'fetch_update', 'try_lock', 'get_mut', 'update')


def c16(ctx):
    cfgs_ = ('none', 'simdpar') if ctx.tier == 'quick' else ('none', 'simd', 'par', 'simdpar')

    def one(cfg):
        w = ctx.world(cfg)
        roots = [k for k, b in w.bodies.items() if b['kind'] == 'fn' and (b.get('pub') or b.get('trait')) and not k.startswith('crate::io::')]
        R, par = reach(w, roots)
        ctx.analysed |= R
        tag = '@' + cfg
        n = 0
        for k in sorted(R):
            b = w.bodies[k]
            bad = []
            for f, line in mentions_lines(b):
                n += 1
                p, q = target(f), f['path']
                for pre, why in AMBIENT:
                    if why and (p.startswith(pre) or q.startswith(pre)):
                        bad.append((line, '%s (%s)' % (q, why), 'violated'))
                if f['name'] in HASHITER and hash_self(f):
                    free = any(g['name'] in ORDERFREE for g, _ in mentions_lines(b)) or any('btree' in target(g).lower() for g, _ in mentions_lines(b))
                    bad.append((line, '%s iterates a hash map in unspecified order' % q, 'undecided' if free else 'violated'))
                if any(p.startswith(x) or q.startswith(x) for x in INTERIOR):
                    if f['name'] in READS and uses_static(w, b, par, k):
                        bad.append((line, '%s reads shared mutable state' % q, 'violated'))
                    elif f['name'] in ('get_or_init', 'get_or_insert_with', 'force', 'deref', 'new', 'default', 'store', 'set'):
                        pass
                if f['name'] in ('set_len', 'assume_init', 'assume_init_ref', 'assume_init_mut', 'uninit_array', 'uninitialized') and 'box' not in q and 'boxed' not in q:
                    bad.append((line, '%s may expose uninitialised memory' % q, 'undecided'))
            for g, line in statics(b):
                gi = w.globals.get(g)
                if gi and gi.get('kind') == 'static' and gi.get('mut'):
                    bad.append((line, 'static mut %s' % short(g), 'violated'))
                elif gi and gi.get('kind') == 'static' and (gi.get('tl') or not gi.get('freeze')):
                    ro = once_type(gi)
                    bad.append((line, 'static %s holds mutable state' % short(g), 'holds' if ro else 'violated' if reads_any(w, b) else 'undecided'))
                elif gi is None:
                    pass
            for line, why in addr_casts(b):
                bad.append((line, why, 'undecided'))
            for line, why in const_writes(b):
                bad.append((line, why, 'violated'))
            st = 'violated' if any(x[2] == 'violated' for x in bad) else 'undecided' if any(x[2] == 'undecided' for x in bad) else 'holds'
            ctx.add('%s depends on its arguments only%s' % (short(k), tag), st, short(k),
                    '; '.join('%s at %s' % (x[1], x[0]) for x in bad if x[2] != 'holds') + '  [%s]' % path_to(par, k), key='ambient:' + short(k))
        ctx.stats['calls_classified' + tag] = n
        # shared references to images cannot be used to change them
        for n_, a in sorted(w.adts.items()):
            if not n_.startswith('crate::'):
                continue
            bad = [f for v in a['variants'] for f in v['fields'] if interior(f)]
            ctx.rule('%s has no interior mutability or shared ownership%s' % (short(n_), tag), not bad, short(n_), 'fields: %s' % str(bad)[:300])
        for k in roots:
            b = w.bodies[k]
            for i in range(1, b['argc'] + 1):
                t = b['locals'][i]
                if t.get('k') == 'ref' and t.get('mut') and t['t'].get('k') == 'adt' and t['t']['n'].endswith('::Image') and not (b.get('self') or b.get('trait')):
                    ctx.stats['functions_editing_in_place' + tag] = ctx.stats.get('functions_editing_in_place' + tag, 0) + 1
    for cfg in cfgs_:
        ctx.guard('determinism@' + cfg, lambda cfg=cfg: one(cfg))
    ctx.guard('scheduling', lambda: p_par.scheduling(ctx))


def mentions_lines(b):
    out = []
    for bl in b['blocks']:
        for s in bl['st']:
            out += [(f, s.get('l')) for f in mentions({'blocks': s})]
        out += [(f, bl.get('l')) for f in mentions({'blocks': bl['term']})]
    return out


def statics(b):
    out = []

    def go(x, l):
        if isinstance(x, dict):
            if isinstance(x.get('static'), str):
                out.append((x['static'], l))
            if x.get('r') == 'tls':
                out.append((x.get('n'), l))
            for y in x.values():
                go(y, l)
        elif isinstance(x, list):
            for y in x:
                go(y, l)
    for bl in b['blocks']:
        for s in bl['st']:
            go(s, s.get('l'))
        go(bl['term'], bl.get('l'))
    return out


def once_type(g):
    s = json.dumps(g.get('ty'))
    return any(x in s for x in ('OnceLock', 'LazyLock', 'OnceCell', 'LazyCell', 'once_lock', 'lazy_lock')) and not any(x in s for x in ('Mutex', 'Atomic', 'RwLock', 'RefCell'))


def uses_static(w, b, par, k):
    """the body, or a body on the path to it, names a static"""
    while True:
        for g, _ in statics(w.bodies[k]):
            gi = w.globals.get(g)
            if gi and gi.get('kind') == 'static' and not gi.get('freeze', True) and not once_type(gi):
                return True
        if k not in par:
            return any('thread::local' in target(f) for f, _ in mentions_lines(b))
        k = par.pop(k) if False else par[k]
        if k in getattr(uses_static, 'seen', ()):
            return False
        if len(path_to(par, k)) > 4000:
            return False


def reads_any(w, b):
    return any(f['name'] in READS for f, _ in mentions_lines(b))


def hash_self(f):
    s = json.dumps(f.get('args') or []) + f['path'] + target(f)
    return 'collections::hash' in s or 'hashbrown' in s


def interior(t):
    s = json.dumps(t)
    return any(x in s for x in ('core::cell::', 'sync::atomic', 'alloc::rc::', 'alloc::sync::', 'std::sync::', '"k": "ptr"', '"k":"ptr"'))


def addr_casts(b):
    for bl in b['blocks']:
        for s in bl['st']:
            if s.get('s') == '=' and s['rv'].get('r') == 'cast' and 'ExposeProvenance' in s['rv']['k'] and 'Pointer' in s['rv']['k']:
                yield s.get('l'), 'an address is turned into a number'


def const_writes(b):
    """casts that turn a pointer to shared data into a mutable one"""
    for bl in b['blocks']:
        for s in bl['st']:
            if s.get('s') == '=' and s['rv'].get('r') == 'cast' and 'PtrToPtr' in s['rv']['k'] and s['rv']['t'].get('k') == 'ptr' and s['rv']['t'].get('mut'):
                o = s['rv']['o'].get('p')
                if o and not o[1]:
                    src = b['locals'][o[0]]
                    if src.get('k') == 'ptr' and not src.get('mut'):
                        yield s.get('l'), 'a *const pointer is cast to *mut'
        f = callee(bl['term'])
        if f and f['name'] == 'cast_mut' and 'ptr' in f['path']:
            yield bl.get('l'), 'a *const pointer is cast to *mut'


# ------------------------------------------------------------------ C17
EFFECTS = (('std::fs::', 'file system'), ('std::net::', 'network'), ('std::process::', 'process'), ('std::env::set', 'environment'), ('std::env::remove', 'environment'), ('std::env::', 'environment'),
           ('std::io::stdio', 'standard streams'), ('std::io::_print', 'standard streams'), ('std::io::copy', 'i/o'), ('std::thread::spawn', 'thread'), ('std::thread::builder', 'thread'), ('std::thread::Builder', 'thread'), ('std::thread::functions::spawn', 'thread'),
           ('std::thread::scoped', None), ('rayon_core::spawn', 'detached task'), ('rayon_core::scope', None), ('std::os::', 'operating system'), ('std::sys::', 'operating system'), ('libc::', 'operating system'), ('image::io::', 'file system'),
           ('image::dynimage::open', 'file system'), ('image::dynimage::save', 'file system'), ('image::dynimage::image_dimensions', 'file system'), ('image::io::free_functions', 'file system'),
           ('std::panic::set_hook', 'panic hook'), ('std::panicking::set_hook', 'panic hook'), ('core::intrinsics::abort', 'process'), ('std::alloc::set', 'allocator'), ('std::macros', 'standard streams'))
SAVES = ('save', 'save_with_format', 'save_buffer', 'save_buffer_with_format')
READERS = ('image::io::reader::', 'image::dynimage::open', 'image::io::free_functions::load', 'image::io::free_functions::open', 'image::io::free_functions::image_dimensions', 'image::dynimage::image_dimensions')
READFS = ('open', 'read', 'metadata', 'exists', 'try_exists', 'canonicalize', 'file_type', 'len', 'is_file', 'symlink_metadata')
PURE = ('core::', 'alloc::', 'rayon::', 'rulinalg::', 'std::collections::', 'std::f32::', 'std::f64::', 'std_detect::', 'std::sync::', 'std::hash::', 'hashbrown::', 'std::ascii', 'std::num', 'std::ffi', 'std::path', 'std::error', 'std::panicking::begin_panic',
        'image::buffer_::', 'image::color::', 'image::image::', 'image::math::', 'image::imageops::', 'image::error', 'image::traits', 'image::dynimage::', 'std::panicking', 'std::time::', 'std::thread::local', 'std::thread::current')


def effect(f):
    """kind of the outside effect of a function outside the crate; None if it has none, '?' if unknown"""
    for p in (target(f), f['path']):
        if f['name'] in SAVES and p.startswith('image::'):
            return 'write file'
        for pre, why in EFFECTS:
            if p.startswith(pre):
                if why is None:
                    return None
                if p.startswith(READERS) or p.startswith('image::io::reader'):
                    return 'read file'
                if p.startswith('std::fs::'):
                    return 'read file' if f['name'] in READFS and 'OpenOptions' not in json.dumps(f.get('args')) and 'dir' not in f['name'] else 'write file'
                return why
    p = target(f)
    if p.startswith(PURE) or f['path'].startswith(PURE):
        return None
    return '?'


def c17(ctx):
    cfgs_ = ('none', 'simdpar') if ctx.tier == 'quick' else ('none', 'simd', 'par', 'simdpar')

    def one(cfg):
        w = ctx.world(cfg)
        tag = '@' + cfg
        rd, wr = 'crate::io::read', 'crate::io::write'
        ext = 0
        eff = {}
        for k, b in sorted(w.bodies.items()):
            for f, line in mentions_lines(b):
                if target(f) in w.bodies:
                    continue
                ext += 1
                e = effect(f)
                if e is not None:
                    eff.setdefault(k, []).append((e, f['path'], line))
            for bl in b['blocks']:
                if bl['term']['t'] == 'other' and 'sm' in bl['term'].get('s', '')[:12]:
                    eff.setdefault(k, []).append(('inline assembly', 'asm!', bl.get('l')))
        ctx.stats['external_calls_classified' + tag] = ext
        for k, b in sorted(w.bodies.items()):
            if b['kind'] != 'fn' or not (b.get('pub') or b.get('trait')):
                continue
            R, par = reach(w, [k])
            ctx.analysed |= R
            bad = []
            for q in sorted(R):
                for e, p, line in eff.get(q, ()):
                    if k == rd and e == 'read file' or k == wr and e == 'write file':
                        continue
                    bad.append((e, '%s (%s) at %s via %s' % (p, e, line, path_to(par, q))))
            st = 'violated' if any(e != '?' for e, _ in bad) else 'undecided' if bad else 'holds'
            ctx.add('%s has no effect outside memory%s' % (short(k), tag) if k not in (rd, wr) else '%s only %s' % (short(k), 'reads' if k == rd else 'writes') + tag, st, short(k),
                    '; '.join(x for _, x in bad[:4]), key='effect:' + short(k))
        # the path that is opened or written is the one that was given
        for k in (rd, wr):
            if k not in w.bodies:
                ctx.add('%s exists%s' % (short(k), tag), 'undecided', short(k))
                continue
            R, par = reach(w, [k])
            for q in sorted(R):
                b = w.bodies[q]
                for bl in b['blocks']:
                    f = callee(bl['term'])
                    if not f or target(f) in w.bodies or effect(f) not in ('read file', 'write file'):
                        continue
                    a = [(o, t) for o, t in zip(bl['term']['a'], bl['term']['at']) if stringy(t)]
                    for o, t in a[:1] if f['name'] in ('open', 'create', 'create_new', 'write') else a[-1:]:
                        v = origin(b, o)
                        st = 'holds' if v == 'param' else 'violated' if v == 'derived' else 'undecided'
                        ctx.add('%s uses the given path in %s%s' % (short(q), f['name'], tag), st, short(q), '%s at %s is given %s' % (f['path'], bl.get('l'), v), key='path:%s:%s' % (short(q), f['name']))
    for cfg in cfgs_:
        ctx.guard('effects@' + cfg, lambda cfg=cfg: one(cfg))


def stringy(t):
    s = json.dumps(t)
    return any(x in s for x in ('"str"', 'std::path::Path', 'alloc::string::String', 'std::ffi', '"k": "param"'))


SAME = ('must_use', 'as_ref', 'to_string', 'to_owned', 'into', 'from', 'new', 'clone', 'deref', 'borrow', 'as_str', 'to_path_buf', 'as_path', 'as_os_str', 'as_mut', 'to_str', 'unwrap')
CHANGE = ('format', 'join', 'push', 'with_extension', 'set_extension', 'with_file_name', 'push_str', 'replace', 'concat', 'to_lowercase', 'to_uppercase', 'trim', 'parent', 'set_file_name', 'add', 'to_ascii_lowercase', 'insert_str', 'truncate', 'split_at',
          'trim_end_matches', 'trim_start', 'trim_end', 'strip_suffix', 'strip_prefix', 'replacen', 'repeat', 'canonicalize', 'index', 'temp_dir')


def origin(b, o, depth=0, seen=None):
    """'param' when the operand is a parameter up to copies and reference conversions"""
    seen = seen or set()
    if depth > 40:
        return 'unknown'
    c = o.get('c')
    if isinstance(c, dict):
        return 'derived'
    p = o.get('p')
    if p is None:
        return 'unknown'
    x = p[0]
    if x in seen:
        return 'unknown'
    seen = seen | {x}
    out = set()
    if 1 <= x <= b['argc']:
        out.add('param')
    for bl in b['blocks']:
        for s in bl['st']:
            if s.get('s') == '=' and s['p'][0] == x:
                rv = s['rv']
                if rv['r'] in ('use', 'cast'):
                    out.add(origin(b, rv['o'], depth + 1, seen))
                elif rv['r'] in ('ref', 'addr', 'rawptr'):
                    out.add(origin(b, {'p': rv['p']}, depth + 1, seen))
                else:
                    out.add('unknown')
        t = bl['term']
        if t['t'] == 'call' and t.get('d') and t['d'][0] == x:
            f = callee(t)
            if f and f['name'] in SAME and t['a']:
                out.add(origin(b, t['a'][0], depth + 1, seen))
            elif f and f['name'] in CHANGE:
                out.add('derived')
            else:
                out.add('unknown')
        if t['t'] == 'call' and t['a']:
            # mutated through a reference
            f = callee(t)
            if f and f['name'] in CHANGE and f['name'] not in ('format', 'add', 'index'):
                a0 = t['a'][0].get('p')
                if a0 and ref_of(b, a0[0]) == x:
                    out.add('derived')
    if 'derived' in out:
        return 'derived'
    if out == {'param'}:
        return 'param'
    return 'unknown'


def ref_of(b, x):
    for bl in b['blocks']:
        for s in bl['st']:
            if s.get('s') == '=' and s['p'][0] == x and s['rv']['r'] in ('ref', 'addr'):
                return s['rv']['p'][0]
    return None


PROPS = {
    'C15': (c15, 'proof', 'interprocedural dataflow: CPU features known at every call of feature-gated code'),
    'C16': (c16, 'proof', 'classification of every call, static, cast and type reachable from the public functions'),
    'C17': (c17, 'proof', 'effect classification of every external call reachable from the public functions; origin of path arguments'),
}
