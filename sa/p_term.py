"""C40: every operation finishes.  A termination analysis over the MIR of every function."""
import time
import rules
from rules import callee, target, succs, path_to
from interp import Cfg


def short(k):
    return str(k).replace('crate::', '')

UNB = {'RangeFrom', 'Repeat', 'RepeatWith', 'Cycle', 'Successors', 'FromFn'}
SAME = {'Enumerate', 'Rev', 'StepBy', 'Map', 'Filter', 'FilterMap', 'Inspect', 'Peekable', 'Skip', 'Copied', 'Cloned', 'Fuse', 'SkipWhile', 'ByRefSized', 'Intersperse'}
CUT = {'TakeWhile', 'MapWhile', 'Scan'}
FIN = {'Range', 'RangeInclusive', 'Iter', 'IterMut', 'IntoIter', 'Chunks', 'ChunksMut', 'ChunksExact', 'ChunksExactMut', 'RChunks', 'Windows', 'Take', 'Once', 'Empty', 'Drain', 'Keys', 'Values', 'ValuesMut', 'IntoKeys', 'IntoValues',
       'Chars', 'CharIndices', 'Bytes', 'Split', 'Lines', 'SplitN', 'ArrayChunks', 'RepeatN', 'Pixels', 'EnumeratePixels', 'Rows', 'ArrayWindows', 'Option', 'EscapeDebug', 'PixelIter', 'SplitWhitespace'}
EAT = {'count', 'sum', 'product', 'collect', 'for_each', 'fold', 'last', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'extend', 'from_iter', 'unzip', 'partition', 'reduce', 'rev', 'nth_back'}
WAIT = {'std::thread::park': 'waits to be unparked', 'std::io::stdio::stdin': 'waits for input', 'core::hint::spin_loop': None}
CMPS = {'Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'}
FLIP = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Ne': 'Ne', 'Eq': 'Eq'}
NOT = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Ne': 'Eq', 'Eq': 'Ne'}
LIM = {'u8': (0, 255), 'u16': (0, 65535), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
       'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1)}


def nm(t):
    return t['n'].split('::')[-1]


def finite(t, depth=0):
    """whether every iterator of this type ends: True, False, or None when the type does not tell"""
    if depth > 12:
        return None
    if t.get('k') == 'ref':
        return finite(t['t'], depth + 1)
    if t.get('k') != 'adt':
        return None
    n = nm(t)
    sub = [finite(a, depth + 1) if isinstance(a, dict) else None for a in t.get('a', [])]
    if n in UNB:
        return False
    if n in SAME:
        return sub[0] if sub else None
    if n == 'Zip':
        return True if True in sub[:2] else False if sub[:2] == [False, False] else None
    if n == 'Chain':
        return True if sub[:2] == [True, True] else False if False in sub[:2] else None
    if n in CUT:
        return True if sub and sub[0] else None
    if n in FIN:
        return True
    return None


class Body:
    def __init__(self, w, key, b):
        self.w, self.key, self.b = w, key, b
        self.B = b['blocks']
        self.cfg = Cfg(b)
        self.defs = {}          # local -> [(block, index or None, rvalue or None)]
        self.refd = {}          # local -> [(block, reference local)] borrowed mutably
        for i in self.cfg.order:
            bl = self.B[i]
            for j, s in enumerate(bl['st']):
                if s['s'] in ('=', 'setd'):
                    self.defs.setdefault(s['p'][0], []).append((i, j, s['rv'] if s['s'] == '=' and not s['p'][1] else None))
                if s['s'] == '=' and s['rv']['r'] in ('ref', 'rawptr', 'reborrow', 'addr') and s['rv'].get('mut', True) and 'p' in s['rv']:
                    self.refd.setdefault(s['rv']['p'][0], []).append((i, s['p'][0]))
            t = bl['term']
            if t['t'] == 'call':
                self.defs.setdefault(t['d'][0], []).append((i, None, None))

    # ------------------------------------------------------------------ values
    def inside(self, x, L):
        return [d for d in self.defs.get(x, ()) if d[0] in L]

    def touched(self, x, L):
        """the blocks of L in which the value of local x may change"""
        out = {d[0] for d in self.inside(x, L)}
        for i, r in self.refd.get(x, ()):
            # a borrow taken before the loop may be used in the loop
            out |= {i} if i in L else {j for j in L if r in uses(self.B[j])}
            # the reference may travel through copies: every block of L with a call using a copy
            out |= {j for j in L for q in self.copies(r) if q in uses(self.B[j])}
        return out & L

    def copies(self, r):
        """locals through which the memory behind reference r may be changed"""
        out, st = {r}, [r]
        while st:
            x = st.pop()
            for y, ds in self.defs.items():
                if y in out:
                    continue
                for i, j, rv in ds:
                    if rv is not None and rv['r'] == 'ref' and not rv.get('mut'):
                        continue        # nothing is changed through a shared reference
                    if rv is not None and rv['r'] in ('use', 'ref', 'reborrow', 'cast', 'rawptr', 'addr', 'agg') and x in operands(rv):
                        out.add(y)
                        st.append(y)
        return out

    def expand(self, o, L, carried, depth=0):
        """('n', int) | ('inv', text) | ('lin', counter, offset) | None: an operand seen inside loop L"""
        if depth > 25:
            return None
        if o.get('c') is not None:
            v = (o['c'].get('val') or {}).get('int')
            return ('n', int(v)) if v is not None else ('inv',)
        p = o.get('p')
        if p is None:
            return None
        x, proj = p
        ds = self.inside(x, L)
        if not ds and not self.touched(x, L):
            if proj and any(y == '*' for y in proj):
                return self.deref_inv(x, L)
            return ('inv', x)
        if proj and not (len(proj) == 1 and isinstance(proj[0], dict) and proj[0].get('f') == 0):
            return None
        if x in carried and not proj:
            return ('lin', x, 0)
        if len(ds) != 1 or ds[0][2] is None or self.refd.get(x):
            return None
        rv = ds[0][2]
        if rv['r'] == 'use' and not proj:
            return self.expand(rv['o'], L, carried, depth + 1)
        if rv['r'] == 'cast' and rv['k'] == 'IntToInt' and not proj:
            a = self.expand(rv['o'], L, carried, depth + 1)
            return a
        if rv['r'] == 'len' or rv['r'] == 'nullary':
            return ('inv',)
        if rv['r'] == 'un':
            a = self.expand(rv['o'] if 'o' in rv else rv['a'], L, carried, depth + 1)
            return ('inv',) if a and a[0] in ('inv', 'n') else None
        if rv['r'] in ('bin', 'cbin', 'checked') or 'op' in rv and 'b' in rv:
            op = rv['op'].replace('WithOverflow', '').replace('Unchecked', '')
            a = self.expand(rv['a'], L, carried, depth + 1)
            c = self.expand(rv['b'], L, carried, depth + 1)
            if not a or not c:
                return None
            if a[0] in ('n', 'inv') and c[0] in ('n', 'inv'):
                return ('inv',)
            if op == 'Add' and a[0] == 'lin' and c[0] in ('n', 'inv'):
                return ('lin', a[1], None)
            if op == 'Add' and c[0] == 'lin' and a[0] in ('n', 'inv'):
                return ('lin', c[1], None)
            if op == 'Sub' and a[0] == 'lin' and c[0] in ('n', 'inv'):
                return ('lin', a[1], None)
            if op == 'Mul' and a[0] == 'lin' and c[0] == 'n' and c[1] > 0:
                return ('lin', a[1], None)
        return None

    def deref_inv(self, x, L):
        """memory behind a shared reference does not change while the reference lives"""
        t = self.b['locals'][x]
        return ('inv', x) if t.get('k') == 'ref' and not t.get('mut') else None

    def lower(self, o, depth=0, seen=()):
        """a lower bound of an integer operand anywhere in the body, or None"""
        if depth > 12:
            return None
        if o.get('c') is not None:
            v = (o['c'].get('val') or {}).get('int')
            return int(v) if v is not None else None
        x, proj = o['p']
        if x in seen:
            return None
        fields = [y for y in proj if isinstance(y, dict) and 'f' in y]
        if fields and self.channels_field(x, fields):
            return 1
        if proj and not (len(proj) == 1 and fields and fields[0]['f'] == 0 and len(self.defs.get(x, ())) == 1 and self.defs[x][0][2] and 'op' in self.defs[x][0][2]):
            t = fields[-1].get('t') if fields else None
            return 0 if t and t.get('k') == 'int' and t['n'].startswith('u') else None
        t = self.b['locals'][x]
        base = 0 if t.get('k') == 'int' and t['n'].startswith('u') else None
        if x <= self.b['argc'] or self.refd.get(x) or not self.defs.get(x):
            return base
        r = []
        for i, j, rv in self.defs[x]:
            v = None
            if rv is None:
                v = None
            elif rv['r'] == 'use':
                v = self.lower(rv['o'], depth + 1, seen + (x,))
            elif rv['r'] == 'cast' and rv['k'] == 'IntToInt':
                v = self.lower(rv['o'], depth + 1, seen + (x,))
                v = v if v is not None and 0 <= v < 2**15 else None
            elif 'op' in rv and 'b' in rv:
                op = rv['op'].replace('WithOverflow', '').replace('Unchecked', '')
                a, c = self.lower(rv['a'], depth + 1, seen + (x,)), self.lower(rv['b'], depth + 1, seen + (x,))
                if a is not None and c is not None and a >= 0 and c >= 0 and op in ('Add', 'Mul'):
                    v = a + c if op == 'Add' else a * c
            r.append(base if v is None else v if base is None else max(v, base))
        return None if any(v is None for v in r) else min(r)

    def channels_field(self, x, fields):
        """the channel count of an image description (at least one in every well-formed image)"""
        t = self.b['locals'][x]
        while t.get('k') in ('ref', 'ptr'):
            t = t['t']
        for f in fields:
            if t.get('k') != 'adt':
                return False
            a = self.w.adts.get(t['n'])
            if not a or not a['variants'] or f['f'] >= len(a['variants'][0]['fields']):
                return False
            q = a['variants'][0]['fields'][f['f']]
            if f is fields[-1]:
                return q == 'channels' and t['n'].startswith('crate::image::')
            t = f.get('t') or {}
        return False

    # ------------------------------------------------------------------ loops
    def exits(self, L):
        """edges out of the loop other than by failing: [(block, target)]"""
        return [(i, s) for i in L for s in succs(self.B[i]['term']) if s not in L and self.B[s]['term']['t'] != 'unreachable']

    def cycle(self, h, L, without):
        """a path h -> h inside L that avoids the blocks of `without`"""
        if h in without:
            return None
        par, st = {}, [h]
        seen = {h}
        while st:
            x = st.pop()
            for s in succs(self.B[x]['term']):
                if s == h:
                    p = [x]
                    while p[-1] != h:
                        p.append(par[p[-1]])
                    return p[::-1]
                if s in L and s not in seen and s not in without:
                    seen.add(s)
                    par[s] = x
                    st.append(s)
        return None

    def proper(self, h, L):
        """the blocks of L outside the loops nested in it"""
        return {x for x in L if self.cfg.hdr[x] == h}

    def ends(self, h, L):
        """why loop L ends: a text, or None"""
        inner = self.proper(h, L)
        for q in inner:
            t = self.B[q]['term']
            f = callee(t)
            if f and f['name'] == 'next' and t['a'] and self.cycle(h, L, {q}) is None:
                r = self.iterator(t['a'][0], L)
                if r and finite(r[1]) is True and self.none_leaves(t, L):
                    return 'one turn per element of %s' % nm(r[1])
        for q in inner:
            t = self.B[q]['term']
            if t['t'] == 'switch' and any(s not in L for s in succs(t)) and self.cycle(h, L, {q}) is None:
                r = self.counter(q, t, h, L)
                if r:
                    return r
        return None

    def iterator(self, o, L):
        """(local, type) of the iterator advanced by next(&mut it), when it lives from before the loop"""
        p = o.get('p')
        if not p or p[1]:
            return None
        x = p[0]
        for _ in range(6):
            t = self.b['locals'][x]
            if t.get('k') == 'ref':
                ds = self.defs.get(x, [])
                if x <= self.b['argc']:
                    return None
                if len(ds) != 1 or ds[0][2] is None:
                    return None
                rv = ds[0][2]
                if rv['r'] in ('ref', 'reborrow', 'addr') and (not rv['p'][1] or rv['p'][1] == ['*']):
                    x = rv['p'][0]
                    continue
                if rv['r'] == 'use' and rv['o'].get('p') and not rv['o']['p'][1]:
                    x = rv['o']['p'][0]
                    continue
                return None
            break
        t = self.b['locals'][x]
        if t.get('k') != 'adt' or self.inside(x, L):
            return None
        # borrowed in the loop for nothing but next
        for i, r in self.refd.get(x, ()):
            if i in L:
                for q in self.copies(r):
                    for j in L:
                        g = self.B[j]['term']
                        if g['t'] == 'call' and any((a.get('p') or [None])[0] == q for a in g['a']):
                            f = callee(g)
                            if not f or f['name'] not in ('next', 'next_back', 'nth', 'size_hint', 'len', 'by_ref', 'peek'):
                                return None
        return x, t

    def none_leaves(self, t, L):
        """the result of next is examined and None leaves the loop"""
        d = t['d'][0]
        st, seen = [t['to']], set()
        while st:
            i = st.pop()
            if i is None or i in seen or i not in L:
                continue
            seen.add(i)
            disc = {s['p'][0] for s in self.B[i]['st'] if s['s'] == '=' and s['rv']['r'] in ('discr', 'disc', 'discriminant') and s['rv']['p'][0] == d}
            u = self.B[i]['term']
            if u['t'] == 'switch' and (u['d'].get('p') or [None])[0] in disc:
                to = [x for v, x in u['v'] if str(v) == '0'] or [u.get('else')]
                return to[0] not in L or not self.back(to[0], L)
            if u['t'] == 'switch':
                return False
            st += succs(u)
        return False

    def back(self, i, L):
        """block i, in loop L, may come round again"""
        h = [h for h, M in self.cfg.loops.items() if M is L][0]
        st, seen = [i], set()
        while st:
            x = st.pop()
            if x == h:
                return True
            if x in seen or x not in L:
                continue
            seen.add(x)
            st += succs(self.B[x]['term'])
        return False

    def counter(self, q, t, h, L):
        """the exit test at q compares a counter that strictly moves towards the exit"""
        d = t['d'].get('p')
        if not d or d[1]:
            return None
        x, negd = d[0], False
        rv = None
        for _ in range(8):
            ds = self.inside(x, L)
            if len(ds) != 1 or ds[0][2] is None:
                return None
            rv = ds[0][2]
            if rv['r'] == 'use' and rv['o'].get('p') and not rv['o']['p'][1]:
                x = rv['o']['p'][0]
            elif rv['r'] == 'un' and rv.get('op') == 'Not':
                y = (rv.get('o') or rv.get('a')).get('p')
                if not y or y[1]:
                    return None
                x, negd = y[0], not negd
            else:
                break
        if rv is None or rv.get('op') not in CMPS:
            return None
        zero = [s for v, s in t['v'] if str(v) == '0']
        other = [s for v, s in t['v'] if str(v) != '0'] + ([t['else']] if t.get('else') is not None else [])
        if not zero or not other:
            return None
        stay_true = zero[0] not in L
        op = rv['op']
        if negd:
            op = NOT[op]
        if not stay_true:
            op = NOT[op]          # the condition under which the loop goes on
        carried = {y for y in range(len(self.b['locals'])) if self.b['locals'][y].get('k') == 'int' and self.steps(y, L) and not self.refd.get(y)}
        a, c = self.expand(rv['a'], L, carried), self.expand(rv['b'], L, carried)
        if not a or not c:
            return None
        if c[0] == 'lin' and a[0] != 'lin':
            a, c, op = c, a, FLIP[op]
        if a[0] != 'lin' or c[0] not in ('n', 'inv'):
            return None
        i = a[1]
        st = self.steps(i, L)
        blocks = {s[0] for s in st}
        if self.cycle(h, L, blocks) is not None:
            return None
        up = all(s[1] == 'Add' for s in st)
        dn = all(s[1] == 'Sub' for s in st)
        ty = self.b['locals'][i]['n']
        if c[0] == 'n' and (op == 'Le' and c[1] >= LIM.get(ty, (0, 2**64 - 1))[1] or op == 'Ge' and c[1] <= LIM.get(ty, (0, 0))[0]):
            return None
        if up and op in ('Lt', 'Le') or dn and op in ('Gt', 'Ge'):
            return 'the counter moves by at least one towards its bound on every turn'
        if op == 'Ne' and c[0] in ('n', 'inv') and len(st) == 1 and st[0][2] == 1:
            return 'the counter passes every value'
        return None

    def steps(self, x, L):
        """[(block, 'Add'|'Sub', least step)] when every change of integer x in L is x := x +- (a positive invariant)"""
        out = []
        for i, j, rv in self.inside(x, L):
            if rv is None or not any(x == y for y in [x]):
                return None
            e = rv
            for _ in range(4):
                if e is not None and e['r'] == 'use' and e['o'].get('p'):
                    y, pr = e['o']['p']
                    if pr and not (len(pr) == 1 and isinstance(pr[0], dict) and pr[0].get('f') == 0):
                        return None
                    ds = self.inside(y, L)
                    if y == x or len(ds) != 1 or ds[0][2] is None:
                        return None
                    e = ds[0][2]
                else:
                    break
            if e is None or 'op' not in e or 'b' not in e:
                return None
            op = e['op'].replace('WithOverflow', '').replace('Unchecked', '')
            if op not in ('Add', 'Sub'):
                return None
            a, c = e['a'], e['b']
            if op == 'Add' and self.is_copy(c, x, L):
                a, c = c, a
            if not self.is_copy(a, x, L):
                return None
            v = self.expand(c, L, ())
            if not v or v[0] not in ('n', 'inv'):
                return None
            lo = v[1] if v[0] == 'n' else self.lower(c)
            if lo is None or lo < 1:
                return None
            out.append((i, op, lo if v[0] == 'n' else 2))
        return out

    def is_copy(self, o, x, L, depth=0):
        p = o.get('p')
        if not p or p[1] or depth > 4:
            return False
        if p[0] == x:
            return True
        ds = self.inside(p[0], L)
        return len(ds) == 1 and ds[0][2] is not None and ds[0][2]['r'] == 'use' and self.is_copy(ds[0][2]['o'], x, L, depth + 1)

    # ------------------------------------------------------------------ loops that cannot end
    def slice(self, L):
        """the locals on which the branches of L depend"""
        S, st = set(), []
        for i in L:
            t = self.B[i]['term']
            if t['t'] == 'switch' and t['d'].get('p'):
                st += places(t['d'])
        ext = False
        while st:
            x = st.pop()
            if x in S:
                continue
            S.add(x)
            for i, j, rv in self.inside(x, L):
                if rv is not None:
                    st += list(operands(rv))
                elif j is not None:
                    s = self.B[i]['st'][j]
                    st += list(operands(s['rv'])) if 'rv' in s else []
                else:
                    for a in self.B[i]['term']['a']:
                        st += places(a)
                    f = callee(self.B[i]['term'])
                    if f is None or not pure(target(f)):
                        ext = True
            # what a reference in the slice points to
            for y, rs in self.refd.items():
                if any(r == x for _, r in rs):
                    st.append(y)
        return S, ext

    def stuck(self, h, L):
        """a way round L that changes nothing its branches depend on"""
        S, ext = self.slice(L)
        if ext:
            return None
        prog = set()
        temps = set()
        for x in S:
            ds = self.inside(x, L)
            if ds and self.temp(x, h, L):
                temps.add(x)
                continue
            if self.b['locals'][x].get('k') in ('ref', 'ptr') and (self.b['locals'][x].get('mut') or x <= self.b['argc']):
                # memory behind it may change by any call or store in the loop
                if self.b['locals'][x].get('mut'):
                    prog |= {j for j in L for q in self.copies(x) if q in uses(self.B[j])}
            prog |= self.touched(x, L)
        return self.cycle(h, L, prog)

    def temp(self, x, h, L):
        """local x is always written before it is read on a turn of the loop"""
        st, seen = [h], set()
        while st:
            i = st.pop()
            if i in seen or i not in L:
                continue
            seen.add(i)
            bl = self.B[i]
            done = False
            for s in bl['st']:
                if s['s'] == '=' and x in operands(s['rv']):
                    return False
                if s['s'] == '=' and s['p'][0] == x:
                    if s['p'][1]:
                        return False
                    done = True
                    break
            if done:
                continue
            t = bl['term']
            if t['t'] == 'switch' and x in places(t['d']):
                return False
            if t['t'] == 'call':
                if any(x in places(a) for a in t['a']):
                    return False
                if t['d'][0] == x and not t['d'][1]:
                    continue
            st += [s for s in succs(t) if s != h]
        return not self.refd.get(x) or all(i in L for i, _ in self.refd[x])

    def line(self, i):
        return self.B[i].get('l') or (self.B[i]['st'][0].get('l') if self.B[i]['st'] else None) or self.b.get('span')


def pure(p):
    return p.startswith(('core::', 'alloc::', 'crate::')) and 'atomic' not in p and '::cell::' not in p


def places(o):
    """locals an operand reads"""
    p = o.get('p') if isinstance(o, dict) else None
    return [] if not p else [p[0]] + [y['i'] for y in p[1] if isinstance(y, dict) and isinstance(y.get('i'), int)]


def operands(rv):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get('p'), list) and x['p'] and isinstance(x['p'][0], int):
                out.update(places(x))
            for k, y in x.items():
                if k not in ('t', 'ty', 'l'):
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(rv)
    return out


def uses(bl):
    """locals whose referent a block may change: stored through, borrowed mutably, moved into a value, or given to a call"""
    r = bl.get('_uses')
    if r is None:
        r = set()
        for s in bl['st']:
            if s['s'] in ('=', 'setd'):
                if s['p'][1]:
                    r.add(s['p'][0])
                rv = s.get('rv')
                if rv and rv['r'] not in ('bin', 'cbin', 'checked', 'un', 'discr', 'len') and not (rv['r'] == 'ref' and not rv.get('mut')) and not (rv['r'] == 'use' and (rv['o'].get('p') or [0, []])[1]):
                    r |= operands(rv)
        if bl['term']['t'] == 'call':
            for a in bl['term']['a']:
                r.update(places(a))
        bl['_uses'] = r
    return r


def always_recurs(w, key, scc):
    """every way through the body calls back into its own cycle of the call graph"""
    b = w.bodies[key]
    seen, st = set(), [0]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        t = b['blocks'][i]['term']
        if t['t'] in ('ret', 'return'):
            return False
        f = callee(t)
        if f and target(f) in scc:
            continue
        st += succs(t)
    return True


def sccs(w, keys):
    idx, low, on, st, out = {}, {}, set(), [], []
    g = {k: rules.callees(w, k) for k in keys}
    for root in keys:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for u in it:
                if u not in g:
                    continue
                if u not in idx:
                    idx[u] = low[u] = len(idx)
                    st.append(u)
                    on.add(u)
                    work.append((u, iter(g[u])))
                    break
                if u in on:
                    low[v] = min(low[v], idx[u])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        u = st.pop()
                        on.discard(u)
                        c.add(u)
                        if u == v:
                            break
                    out.append((c, v in g[v]))
    return out


def c40(ctx):
    def one(cfg):
        w = ctx.world(cfg)
        tag = '@' + cfg
        keys = sorted(w.bodies)
        ctx.analysed |= set(keys)
        nl = nc = 0
        open_ = set()
        for k in keys:
            b = Body(w, k, w.bodies[k])
            for n, (h, L) in enumerate(sorted(b.cfg.loops.items())):
                nl += 1
                name = 'loop %d of %s ends%s' % (n, short(k), tag)
                key = 'loop:%s:%d' % (short(k), n)
                why = b.ends(h, L)
                if why:
                    ctx.add(name, 'proved', short(k), why, key=key)
                    continue
                ex = b.exits(L)
                if not ex:
                    ctx.add(name, 'violated', short(k), 'the loop at %s has no way out' % b.line(h), key=key)
                    continue
                unb = None
                for q in L:
                    t = b.B[q]['term']
                    f = callee(t)
                    if f and f['name'] == 'next' and t['a']:
                        r = b.iterator(t['a'][0], L)
                        if r and finite(r[1]) is False and b.none_leaves(t, L):
                            outs = [e for e in ex if not from_none(b, t, e, L)]
                            if not outs:
                                unb = nm(r[1])
                if unb:
                    ctx.add(name, 'violated', short(k), 'the loop at %s runs over the unbounded iterator %s and has no other way out' % (b.line(h), unb), key=key)
                    continue
                cyc = b.stuck(h, L)
                if cyc:
                    ctx.add(name, 'violated', short(k), 'the way round through %s changes nothing that the exits of the loop depend on' %
                            ', '.join(dict.fromkeys(str(b.line(i)) for i in cyc)), key=key)
                    continue
                ctx.add(name, 'undecided', short(k), 'no measure found for the loop at %s' % b.line(h), key=key)
                open_.add(k)
            bad = []
            for f, t, i in rules.calls(w.bodies[k]):
                nc += 1
                p = target(f)
                ty = None
                if f['name'] in EAT and t['a'] and t['a'][0].get('p') and not t['a'][0]['p'][1]:
                    ty = w.bodies[k]['locals'][t['a'][0]['p'][0]]
                if f['name'] in ('extend', 'from_iter') and t['a']:
                    a = t['a'][-1]
                    ty = w.bodies[k]['locals'][a['p'][0]] if a.get('p') and not a['p'][1] else None
                if ty and ty.get('k') == 'adt' and finite(ty) is False:
                    bad.append('%s takes every element of the unbounded iterator %s at %s' % (f['name'], nm(ty), b.line(i)))
                if 'rulinalg' in p and f['name'] == 'svd':
                    bad.append('%s at %s iterates without a bound (it does not finish for some small matrices)' % (f['path'], b.line(i)))
                for x, why in WAIT.items():
                    if why and p.startswith(x):
                        bad.append('%s at %s %s' % (f['path'], b.line(i), why))
            ctx.rule('%s calls nothing that runs without a bound%s' % (short(k), tag), not bad, short(k), '; '.join(bad), key='calls:' + short(k))
        ctx.stats['loops' + tag] = nl
        ctx.stats['calls' + tag] = nc
        for c, selfcall in sccs(w, keys):
            if len(c) == 1 and not selfcall:
                continue
            v = sorted(c)
            inf = [x for x in v if always_recurs(w, x, c)]
            nm_ = 'the recursion of %s ends%s' % (', '.join(short(x) for x in v), tag)
            direct = [x for x in v if any(f and target(f) in c for f, _, _ in rules.calls(w.bodies[x]))]
            if set(inf) == c and direct:
                ctx.add(nm_, 'violated', short(v[0]), 'every way through %s calls back into the same cycle' % ', '.join(short(x) for x in v), key='rec:' + short(v[0]))
            elif len(direct) > 0:
                ctx.add(nm_, 'undecided', short(v[0]), 'recursive', key='rec:' + short(v[0]))
        ctx.stats['functions' + tag] = len(keys)
        if open_ and cfg in ('none', 'simd'):
            hangs(ctx, cfg, w, open_)
    for cfg in ('none', 'simd', 'par', 'simdpar'):
        ctx.guard('termination@' + cfg, lambda cfg=cfg: one(cfg))


def hangs(ctx, cfg, w, open_):
    """the operations that reach a loop without a measure are interpreted: no state may repeat for ever"""
    import harn
    import p_args
    end = time.time() + 120

    def look(name, H, pre, dom, fn):
        for e in H.I.events:
            if e.kind.rstrip('?') == 'hang' and e.site[0] in open_:
                ctx.sites += 1
                ctx.never('%s: the loop in %s ends@%s' % (name, short(e.site[0]), cfg), e.formula(), pre, dom, fn, tries=600)

    def case(fn, kw, shape='same', pre=(), stubs=(), dom=None, ety='real', C=None, A=None, result=True, label='', a1=None):
        def g():
            k = harn.find(w, fn)
            if fn in ('median_filter', 'alpha_trimmed_mean_filter') or time.time() > end:
                return
            if not open_ & rules.reach(w, [k])[0]:
                return
            H = ctx.har(cfg)
            if not any(x.startswith('crate::simd::') for x in open_):
                p_args.simd_stubs(H)
            im = a1(H) if a1 else H.image('img', ety, C=C, A=A)
            args = {q: (v(H) if callable(v) else v) for q, v in kw.items()}
            p = tuple(pre(im) if callable(pre) else pre)
            H.call(fn, p, a1=im, **args)
            ctx.note_run(H)
            look(fn + label, H, p, dom or p_args.DOM0, fn)
        ctx.guard('%s%s@%s' % (fn, label, cfg), g)
    p_args.api(w, case)
    for k in sorted(open_):
        b = w.bodies[k]
        if b['kind'] == 'fn' and b.get('pub') and k.startswith('crate::simd::'):
            def g(k=k):
                H = ctx.har(cfg, T='u8', S='u8')
                H.call(k)
                ctx.note_run(H)
                look(short(k), H, (), {'a%d.c' % i: lambda q: q.randint(1, 6) for i in range(1, 5)}, short(k))
            ctx.guard('%s@%s' % (short(k), cfg), g)


def from_none(b, t, e, L):
    """edge e leaves the loop because next returned None"""
    d = t['d'][0]
    i, to = e
    disc = {s['p'][0] for s in b.B[i]['st'] if s['s'] == '=' and s['rv']['r'] in ('discr', 'disc', 'discriminant') and s['rv']['p'][0] == d}
    u = b.B[i]['term']
    return u['t'] == 'switch' and (u['d'].get('p') or [None])[0] in disc


PROPS = {
    'C40': (c40, 'proof', 'Termination of every loop and recursion of every function in every configuration: a loop runs over a finite iterator made before it, or compares a counter that moves on every way round with a bound that does not change; '
                          'a way round that changes nothing the exits depend on, an unbounded iterator without another exit, and recursion without a way out are violations.',
            'termination analysis over the control-flow and call graphs of the MIR (loop measures, progress on every cycle, recursion)',
            'Calls into std, rayon and the image crate are taken to finish, except the singular value decomposition of rulinalg, which is known not to; a loop with neither a measure nor a witness of a hang is listed as open and never alarms.'),
}
