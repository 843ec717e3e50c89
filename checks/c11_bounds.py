"""C11: loops and index checks stay inside the arrays they are meant for."""
import os, re
import bounds, loops, cfg, typed
from bounds import *
from irload import *

META = dict(
    rule='at every array access whose array has a known extent (a fixed-size array, a block allocated in the function, or an array field with its count field), '
         'the comparisons that dominate the access bound the index inside the extent; a bound that is a constant too large (or too small at the low end) is a '
         'violation. The same for block copies and sorts, and for the size of a block stored in a counted field',
    explanation='Indices, loop limits, allocation sizes and counts are linear forms over named quantities (parameters, SSA values, field loads numbered by the stores '
                'that reach them). The dominating comparisons, the start and step of counted loops and remainders bound the difference index - extent by a constant. '
                'Accesses for which no constant bound exists (an index read from another table, for instance) are counted as undecided and not reported.',
    assumptions=['array fields have the count the contract file says', 'integer arithmetic on indices does not overflow'])

COPY = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memmove', 'memset')

def nm(s):
    s = s.lstrip('%')
    return s[7:] if s.startswith('struct.') else s

def check(ctx):
    P = ctx.prog
    con = load_contracts(os.path.join(VERIF, 'contracts', 'arrays.txt'))
    con = {(s, f): c for (s, f), c in con.items() if s in P.fields and f in P.fields[s] and (c[0][0] == '@' or c[0].split('.')[0] in P.fields[s])}
    par = load_params(os.path.join(VERIF, 'contracts', 'params.txt'))
    mem = Mem(P)
    undecided = noext = 0
    kinds = {}
    for k, fn in sorted(P.fns.items()):
        B = Bounds(P, mem, con, fn, par)
        seen = set()
        def report(i, tag, msg):
            key = '%s:%s' % (fn.name, tag)
            if (key, i.line) not in seen:
                seen.add((key, i.line))
                ctx.violation(key, fn.mod.src, i.line, fn.name, msg)
        for g, ety, idx, base, us in B.accesses():
            if not us: continue
            us = sorted(us, key=lambda u: (u.bb.id, u.pos))
            at = us[0]
            if base is None:
                e = (lconst(0), 0, lconst(P.types[g.x][1]), 'fixed', 'array of %d' % P.types[g.x][1]) if P.types[g.x][1] > 1 else None; B.alt = None
                # a trailing or flattened array
                if e and isinstance(g.ops[0], Inst) and g.ops[0].op == 'load': e = None
            else: e = B.extent(base, at, ety)
            if e is None:
                noext += 1
                if base is not None and B.odd:
                    tot, esz, what = B.odd
                    if B.grows(ladd(ladd(lmul(B.lin(idx), esz), lconst(esz)), tot, -1), at.bb, 1):
                        report(g, what, 'the block has fewer bytes than its elements of %d bytes need, by an amount that grows with the count' % esz)
                continue
            off, lo, hi, kind, what = e
            alt = B.alt
            I = ladd(B.lin(idx), off)
            ok = True
            # high end
            G = ladd(I, hi, -1)
            ku, sure = B.decide(G, at.bb, at=at, idx=I)
            if alt is not None and (ku is None or ku >= 0):
                ka, sa = B.decide(ladd(I, alt, -1), at.bb, at=at, idx=I)
                if ka is not None and ka < 0: ku = ka
                elif ka is None: sure = False
                elif ku is None or ka < ku: ku, sure = ka, sa
                else: sure = sure or sa
            if ku is None:
                ok = False
                if alt is None and kind in ('count', 'heap') and B.grows(G, at.bb):
                    report(g, what, 'the index runs past the last element of %s by an amount that grows with the count' % what)
            elif ku >= 0:
                ok = False
                if sure and not (kind == 'append' and not G[0]):
                    report(g, what, 'the index runs %d past the last element of %s (checked extent: %s)' % (ku + 1, what, kind))
            # low end
            kl, sl = B.decide(ladd(lconst(lo), I, -1), at.bb, at=at, idx=I)
            if kl is None: pass
            elif kl > 0:
                ok = False
                if sl: report(g, what, 'the index runs %d before the first element of %s' % (kl, what))
            if ok: ctx.ok(); kinds[kind] = kinds.get(kind, 0) + 1
            else: undecided += 1
            if ok and kind != 'fixed': ctx.sample('%s:%d %s' % (fn.mod.src, g.line, what))
        # block operations and sorts
        for i in fn.insts():
            if i.op != 'call' or getattr(i.x, 'ck', None) != 'func': continue
            n = i.x.v
            if n.startswith(COPY):
                nops = i.ops[:2] if 'memset' not in n else i.ops[:1]
                size = B.lin(i.ops[2])
                for o in nops: block(ctx, P, B, fn, i, o, size, 1, report, kinds)
            elif n == 'qsort':
                sz = B.lin(i.ops[2])
                if not sz[0]: block(ctx, P, B, fn, i, i.ops[0], lmul(B.lin(i.ops[1]), sz[1]), sz[1], report, kinds)
            # array arguments are as long as the callee expects
            g = P.resolve(fn, n)
            if g is None: continue
            for k, star, expr in par.get(g.name, ()):
                if k not in g.srcidx: continue
                ir = g.srcidx.index(k)
                if ir >= len(i.ops) or star: continue
                t = typed.ptypes(P, g).get(ir)
                t = irtype(P, t.strip()[:-1]) if t and t.strip().endswith('*') else None
                need = B.length(g, expr, i, i)
                if t is None or need is None: continue
                e = B.extent(i.ops[ir], i, t)
                if e is None: continue
                G = ladd(ladd(need, e[0]), e[2], -1)
                kk, sure = B.decide(G, i.bb, at=i)
                if kk is None: undecided += 1
                elif kk <= 0: ctx.ok(); kinds['argument'] = kinds.get('argument', 0) + 1
                elif sure and e[3] != 'append': report(i, '%s(%s)' % (g.name, g.params[ir].name), 'the array passed to %s as %s is %d elements shorter than %s expects' % (g.name, g.params[ir].name, kk, g.name))
        # blocks stored in counted fields
        stores = [i for i in fn.insts() if i.op == 'store']
        for d in stores:
            if d.ops[0].ty != 'ptr': continue
            key = B.akey(d.ops[1])
            if key[0] != 'f': continue
            s = nm(key[1]); fl = P.fields.get(s)
            if not fl or key[2] >= len(fl) or (s, fl[key[2]]) not in con: continue
            c = con[(s, fl[key[2]])]
            cap = c[0] if c[3] == '-' else c[3]
            if cap == '*' or '.' in cap or cap[0] == '@': continue
            ci = fl.index(cap)
            elt = elemtype(P, s, fl[key[2]])
            if elt is None: continue
            e = B.extent(d.ops[0], d, elt)
            if e is None and B.odd:
                tot, esz, what = B.odd
                if not any(c >= esz for _, c in tot[0]) and tot[0]:
                    report(d, '%s.%s' % (s, fl[key[2]]), 'the block stored in %s.%s has fewer bytes than elements of %d bytes need' % (s, fl[key[2]], esz))
                continue
            if e is None or e[3] != 'heap': continue
            # stored and then moved (vt++): the moved pointer is what counts
            if any(t is not d and t.ops[0].ty == 'ptr' and B.akey(t.ops[1]) == key and (t.bb is d.bb and t.pos > d.pos or t.bb is not d.bb) and
                   moved(t.ops[0], B, key) for t in stores): continue
            cs = [t for t in stores if t.ops[0].ty != 'ptr' and B.akey(t.ops[1]) == ('f', key[1], ci, key[3])]
            if len(cs) != 1: continue
            t = cs[0]
            if not (cfg.inst_dom(fn, t, d) or cfg.inst_dom(fn, d, t)): continue
            # legal indices of the field: low .. count+end-1, at offset e[0] in the block
            end = c[2] if c[3] == '-' else 0
            G = ladd(ladd(ladd(e[0], B.lin(t.ops[0])), lconst(end)), e[2], -1)     # must be <= 0
            kk, sure = B.decide(G, d.bb, at=d)
            low = ladd(e[0], lconst(c[1]))
            kl, sl = B.decide(lmul(low, -1), d.bb, at=d)
            what = '%s.%s' % (s, fl[key[2]])
            if kk is not None and kk > 0 and sure:
                report(d, what, 'the block stored in %s is %d elements too short for the count stored in %s' % (what, kk, cap))
            elif kl is not None and kl > 0 and sl:
                report(d, what, 'the pointer stored in %s leaves no room for index %d' % (what, c[1]))
            elif kk is not None and kk <= 0: ctx.ok(); kinds['alloc'] = kinds.get('alloc', 0) + 1
    ctx.cov['accesses_decided'] = kinds
    ctx.cov['accesses_undecided'] = undecided
    ctx.cov['accesses_to_arrays_of_unknown_extent'] = noext
    ctx.need(3000, 'array accesses')

def moved(v, B, key):
    return isinstance(v, Inst) and v.op == 'gep' and len(v.ops) == 2 and isinstance(v.ops[0], Inst) and v.ops[0].op == 'load' and B.akey(v.ops[0].ops[0]) == key

def elemtype(P, s, f):
    t = P.stypes[s][P.fields[s].index(f)].strip()
    return irtype(P, t[:-1]) if t.endswith('*') else None

def block(ctx, P, B, fn, i, p, size, unit, report, kinds):
    """`size` bytes starting at p"""
    # element type: that of the pointer's array
    ety = None; v = p
    for _ in range(3):
        if isinstance(v, Inst) and v.op == 'gep': ety = v.x if len(v.ops) == 2 else None; break
        break
    cands = [ety] if ety else ['i8', 'i32', 'i64', 'double', 'ptr', 'i16']
    if not ety and isinstance(v, Inst) and v.op == 'load':
        key = B.akey(v.ops[0])
        if key[0] == 'f':
            s = nm(key[1]); fl = P.fields.get(s)
            if fl and key[2] < len(fl):
                t = elemtype(P, s, fl[key[2]])
                if t: cands = [t]
    for t in cands:
        e = B.extent(p, i, t)
        if e is None: continue
        esz, _ = sizeof(P, t)
        # bytes from p to the end
        room = ladd(e[2], e[0], -1)
        G = ladd(size, lmul(room, esz), -1)
        k, sure = B.decide(G, i.bb, at=i)
        if B.alt is not None and (k is None or k > 0):
            ka, sa = B.decide(ladd(size, lmul(ladd(B.alt, e[0], -1), esz), -1), i.bb, at=i)
            if ka is not None and ka <= 0: k = ka
            elif ka is None: sure = False
        if k is None:
            if B.alt is None and e[3] in ('count', 'heap') and B.grows(G, i.bb, 1): report(i, e[4], 'the block operation covers more than %s holds, by an amount that grows with the count' % e[4])
            return
        if k > 0:
            if sure: report(i, e[4], 'the block operation covers %d bytes more than %s holds' % (k, e[4]))
            return
        ctx.ok(); kinds['block'] = kinds.get('block', 0) + 1
        return
