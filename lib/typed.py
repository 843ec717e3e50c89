"""Human-level (typed) names for PTA locations: 'plCurve.cp', 'plc_strand.vt[]', ..."""
import re
import pta
from irload import *

def strip(t):
    t = t.replace('const ', '').replace(' const', '').replace('volatile ', '')
    return t.strip()

def deref(t):
    t = strip(t)
    if t.endswith('*'): return strip(t[:-1])
    if t.endswith('[]'): return strip(t[:-2])
    return None

def base(t):
    t = strip(t)
    while t.endswith('[]'): t = strip(t[:-2])
    return re.sub(r'^(struct|union|enum) ', '', t)

def ptypes(P, fn):
    """IR parameter index -> C type spelling (None if unknown)"""
    out = {}
    d = fn.di
    if not d: return out
    ps = {n: t for (_, n, t) in d['params']}
    for a in fn.params:
        n = re.sub(r'\.coerce\d*$', '', a.name)
        if n in ps:
            t = ps[n]
            if a.idx in fn.byval: t = t + '*'
            out[a.idx] = t
    if fn.sret is not None and d['types']: out[fn.sret] = d['types'][0] + '*'
    return out

def otype(P, fn, o, pt):
    """C type of the object o (the pointee), or None"""
    if o[0] == 'P':
        t = pt.get(o[1])
        return deref(t) if t else None
    if o[0] == 'D':
        t = ltype(P, fn, (o[1], o[2]), pt)
        return deref(t) if t else None
    if o[0] == 'G':
        for m in P.mods:
            nm = o[1].split(':')[-1]
            g = m.di['gvars'].get(nm)
            if g: return g[0]
    return None

def ltype(P, fn, loc, pt):
    o, path = loc
    t = otype(P, fn, o, pt)
    for f in path:
        if t is None: return None
        b = base(t)
        names = P.fields.get(b)
        if not names or f not in names: return None
        t = P.stypes[b][names.index(f)]
    return t

def tname(P, fn, loc, pt):
    """'<struct>.<field>' of the innermost named field written, or the scalar type"""
    o, path = loc
    t = otype(P, fn, o, pt)
    last = None
    for f in path:
        if t is None: return '?.' + '.'.join(path)
        b = base(t)
        names = P.fields.get(b)
        if not names or f not in names: return '?.' + '.'.join(path)
        last = '%s.%s' % (b, f)
        t = P.stypes[b][names.index(f)]
    if last: return last
    # no field: describe via the pointer that leads here
    if o[0] == 'D' and o[2]:
        w = tname(P, fn, (o[1], o[2]), pt)
        return w + '->'
    if o[0] == 'D':
        w = tname(P, fn, (o[1], o[2]), pt)
        return '*' + w if w else '?'
    return '*' + (t or '?')

def apath(P, fn, loc):
    """access path relative to the root: ('pd', 'edge[].head'); arrays shown as [] after a dereference of a field"""
    o, path = loc
    if o[0] == 'D':
        r, s = apath(P, fn, (o[1], o[2]))
        s = s + '[]' if s else '[]'
        for f in path: s += '.' + f if s else f
        return r, s
    nm = fn.params[o[1]].name if o[0] == 'P' else '%s:%s' % (o[0], o[1])
    return nm, '.'.join(path)

def channel(P, f, k):
    """'err', 'ok' or None: parameter k of f is an error channel"""
    t = ptypes(P, f).get(k)
    if not t: return None
    n = f.params[k].name
    if strip(t) == 'int*' and n in ('err', 'error_num'): return 'err'
    if strip(t) == '_Bool*' and n == 'ok': return 'ok'
    return None
