"""C05: new objects share no storage with the objects they were made from."""
import re
import pta, typed, life
from irload import *

META = dict(
    rule='for every API function that hands out a new object (as its result or through an out-parameter): no pointer stored in the new '
         'object, at any depth, leads to memory of an argument or to library-internal static memory; a function does not return '
         'sometimes a new object and sometimes an argument; an editing function stores in the fields through which an object owns its '
         'memory only fresh memory or memory that object already owned, never the caller\'s other buffers; the symmetries of a copied curve refer to the copy',
    explanation='Reachability over the interprocedural points-to summaries of the current source (field-sensitive, context-sensitive, every '
                'path included). Struct copies are followed field by field; a field overwritten right after a struct copy does not count as copied.',
    assumptions=['back references of symmetries to their curve and constraint normals of n-dimensional curves are borrowed by design'])

REFNAMES = {f for s, f in life.REFS} | {'check_buffer', 'check_curve'}
# parameters that are documented to be kept: (function, parameter position)
KEEP = set()
# gives back its (possibly enlarged) argument
CONSUMES = {'pd_sortedbuf_insert'}

def ptrfields(P, t, depth=0):
    """(path) of the pointer fields inside a value of C type t"""
    b = typed.base(t)
    out = []
    if b in P.fields and depth < 4:
        for f, ft in zip(P.fields[b], P.stypes[b]):
            if (b, f) in life.REFS or f in REFNAMES: continue
            if ft == 'fn*': continue
            if typed.strip(ft).endswith('*') and '(' not in ft: out.append((f,))
            elif '(' not in ft: out += [(f,) + q for q in ptrfields(P, ft, depth + 1)]
    return out

def check(ctx):
    P, A = ctx.prog, ctx.pta
    own = life.owned_fields(P, A)
    ownn = {f for s, f in own}
    names = [l.split()[0] for c in ('frames.txt', 'frames_shared.txt') for l in open(os.path.join(VERIF, 'contracts', c)) if l.strip() and not l.startswith('#')]
    # the object support functions declared in the uninstalled headers follow the same rule (octrope's box pool is internal)
    names = sorted((set(names) | {k for k in P.defs if re.match(r'(pd|plc|nplc|ccode|plcl)_', k)}) - CONSUMES)
    fnptr = {f for st in P.fields for f, ft in zip(P.fields[st], P.stypes[st]) if ft == 'fn*' and not any(f == g and gt != 'fn*' for s2 in P.fields for g, gt in zip(P.fields[s2], P.stypes[s2]))}
    nobj = nedit = 0
    made = []
    for c in names:
        f = P.defs.get(c)
        if f is None: continue
        S = A.sum[f.key]
        pt = typed.ptypes(P, f)
        def explore(start, what):
            seen = set(); w = [(o, what) for o in start]
            while w:
                o, path = w.pop()
                if o in seen: continue
                seen.add(o)
                for (o2, p), ls in S.mem.items():
                    if o2 != o: continue
                    fld = p[-1] if p else ''
                    if fld in REFNAMES or fld in fnptr: continue
                    pp = path + ''.join('.' + x for x in p)
                    for l in ls:
                        if l[0][0] == 'H': w.append((l[0], pp + '[]'))
                        elif l[0][0] == 'F': pass
                        elif l[0][0] == 'G' and A._constg(l[0]): pass
                        elif l[0][0] == 'X': pass
                        elif l[0][0] == 'A': pass
                        else: yield pp, l
                for (pre, so, sp, ex) in S.copies.get(o, ()):
                    if pre and pre[-1] in REFNAMES: continue
                    pp = path + ''.join('.' + x for x in pre)
                    if so[0] in ('P', 'D', 'G'):
                        t = typed.ltype(P, f, (so, sp), pt)
                        for q in ptrfields(P, t) if t else ():
                            if any(q[:len(x)] == x for x in ex): continue
                            if pta.root(so)[0] == 'P' and pta.root(so)[1] in f.byval and so[0] == 'P': continue
                            yield pp + ''.join('.' + x for x in q), (so, sp + q)
                    else: w.append((so, pp))
        hs = {l[0] for l in S.rets if l[0][0] == 'H'}
        other = [l for l in S.rets if l[0][0] in ('P', 'D', 'G') and not (l[0][0] == 'G' and A._constg(l[0]))]
        outs = {}
        for (o, p), ls in S.mem.items():
            if o[0] == 'P' and not p:
                for l in ls:
                    if l[0][0] == 'H' and typed.deref(pt.get(o[1]) or '') not in ('void', None): outs.setdefault(o[1], set()).add(l[0])
        if hs or outs:
            nobj += 1; ctx.ok(); made.append(c)
            if hs and other:
                ctx.violation('%s/result' % c, f.file, f.line, c, 'returns a new object on some paths and %s on others' % pta.locstr(other[0], f))
            done = set()
            for start, what in [(hs, 'result')] + [(v, '*' + f.params[k].name) for k, v in outs.items() if k < len(f.params)]:
                for pp, l in explore(start, what):
                    if (pp, l) in done: continue
                    if what != 'result' and pta.root(l[0])[0] == 'P' and '*' + f.params[pta.root(l[0])[1]].name == what: continue
                    done.add((pp, l))
                    ctx.violation('%s/%s' % (c, pp), f.file, f.line, c, '%s of the new object points into %s' % (
                        pp, ('memory of the argument: ' if pta.root(l[0])[0] == 'P' else 'static memory: ') + pta.locstr(l, f)))
        # edits
        for (o, p), ls in S.mem.items():
            r = pta.root(o)
            if r[0] != 'P' or not p or p[-1] not in ownn or p[-1] in REFNAMES: continue
            nedit += 1; ctx.ok()
            for l in ls:
                q = pta.root(l[0])
                if l[0][0] in ('P', 'D') and q[0] == 'P' and q != r and (c, q[1]) not in KEEP:
                    ctx.violation('%s/%s/kept' % (c, '.'.join(p)), f.file, f.line, c, 'stores the caller\'s own memory %s in %s instead of a copy' % (
                        pta.locstr(l, f), pta.locstr((o, p), f)))
        for o, cs in S.copies.items():
            r = pta.root(o)
            if r[0] != 'P' or o in outs: continue
            for (pre, so, sp, ex) in cs:
                q = pta.root(so)
                if q[0] != 'P' or q == r or (so[0] == 'P' and q[1] in f.byval): continue
                t = typed.ltype(P, f, (so, sp), pt)
                for x in ptrfields(P, t) if t else ():
                    if any(x[:len(e)] == e for e in ex): continue
                    if x[-1] in ownn:
                        ctx.violation('%s/%s/kept' % (c, '.'.join(pre + x)), f.file, f.line, c, 'copies the pointer %s into %s without copying what it points to' % (
                            pta.locstr((so, sp + x), f), pta.locstr((o, pre + x), f)))
    # symmetries of a copied curve refer to the copy
    f = ctx.fn('plc_copy'); S = A.sum[f.key]
    hs = {l[0] for l in S.rets}
    cur = [ls for (o, p), ls in S.mem.items() if p and p[-1] == 'curve' and o[0] == 'H']
    ctx.ok()
    if cur and not any(l[0] in hs for ls in cur for l in ls):
        ctx.violation('plc_copy/curve', f.file, f.line, 'plc_copy', 'the symmetries of the copy keep referring to the original curve')
    ctx.cov.update(functions_handing_out_objects=nobj, owning_stores_in_edits=nedit, constructors=made)
    if nobj < 60: raise AnalysisError('only %d object-making functions found' % nobj)
