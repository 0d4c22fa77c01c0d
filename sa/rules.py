"""Queries over the compiler's MIR and the call graph."""


def callee(t):
    """the function a terminator calls, when it is named in the MIR"""
    if t.get('t') != 'call':
        return None
    c = t['f'].get('c')
    return c.get('fn') if isinstance(c, dict) else None


def calls(b):
    """(callee, terminator, block) of the calls of a body"""
    for i, bl in enumerate(b['blocks']):
        f = callee(bl['term'])
        if f:
            yield f, bl['term'], i


def target(f):
    """path of the function a call resolves to"""
    return f['res']['path'] if f.get('res') else f['path']


def mentions(b):
    """every function named in a body (called or taken as a value): dicts as in the dump"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get('fn'), dict):
                out.append(x['fn'])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(b['blocks'])
    return out


def callees(w, key):
    """keys of bodies of the crate that a body may run: calls, closures, function values, promoteds"""
    import check
    return {k for k in check.t_callees(w.bodies[key]) if k in w.bodies}


def reach(w, roots):
    seen, st = set(), list(roots)
    par = {}
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in callees(w, k):
            if c not in seen:
                par.setdefault(c, k)
                st.append(c)
    return seen, par


def path_to(par, k):
    out = [k]
    while k in par and par[k] not in out:
        k = par[k]
        out.append(k)
    return ' <- '.join(x.replace('crate::', '') for x in out)


def succs(t):
    k = t['t']
    if k in ('goto', 'drop', 'assert', 'false'):
        return [t['to']] if t.get('to') is not None else []
    if k == 'switch':
        return [x[1] for x in t['v']] + ([t['else']] if t.get('else') is not None else [])
    if k == 'call':
        return [t['to']] if t.get('to') is not None else []
    return []


def has_float(x):
    if isinstance(x, dict):
        return x.get('k') == 'float' or any(has_float(v) for v in x.values())
    return isinstance(x, list) and any(has_float(v) for v in x)
