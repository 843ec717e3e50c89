"""C03: whatever a function acquires is released, returned or handed to the caller on every path to a return."""
import own, esp, loops, cfg
from irload import AnalysisError, Const, Inst

META = dict(
    rule='for every call in the library that hands its caller a fresh heap block or open file (malloc family, fopen family, GSL '
         'allocators, and every library function whose summary says its result or an out-parameter is fresh): on every feasible '
         'path from the call to a return of the function, the block is released, returned, stored where the caller or another '
         'object can reach it, or known to be NULL; the same call is not executed again while the previous block is held only locally',
    explanation='Property simulation (path-sensitive dataflow with branch-correlated value facts) over the control flow graph of '
                'every function, on top of the interprocedural points-to summaries. Paths that end in exit/abort/assertion '
                'failure are not returns. A loop that releases the elements of an array is compared with the loop that filled it (start, '
                'step, bound, early exits), one that releases a list has to go on until the list ends; a block stored into '
                'a container is owned by that container.',
    assumptions=['a releasing loop whose range is given by other quantities than the filling loop visits all elements',
                 'a function that reports failure (zero/NULL result) hands out nothing through its out-parameters'])

def elem(v):
    """index of the array element this address denotes: (base, index value, offset), if there is exactly one variable index"""
    while isinstance(v, Inst) and v.op in ('bitcast', 'freeze'): v = v.ops[0]
    if not (isinstance(v, Inst) and v.op == 'gep'): return None
    ix = [o for o in v.ops[1:] if not isinstance(o, Const)]
    if len(ix) != 1: return elem(v.ops[0]) if not ix else None
    return (v.ops[0],) + loops.affine(ix[0])

def goeson(A, f, b, seen=None):
    seen = seen if seen is not None else set()
    if b in seen: return False
    seen.add(b)
    if any(i.op == 'call' and A.noreturn(f, i) for i in b.insts): return False
    return b.insts[-1].op == 'ret' or any(goeson(A, f, x, seen) for x in b.succs)

def isnull(c): return isinstance(c, Const) and c.ck == 'null'

def nullexit(t):
    c = t.ops[0] if t.ops else None
    return isinstance(c, Inst) and c.op == 'icmp' and any(isnull(o) for o in c.ops)

def walks(ctx, A, f, S):
    """loops that release what another loop acquired, element by element"""
    C = loops.counted(f)
    by = {L.phi: L for L in C}
    n = 0
    fill = {}
    for s, (i, objs) in S.acqs.items():
        vals = {i}; w = [i]
        while w:
            v = w.pop()
            for u in cfg.uses(f).get(v, ()):
                if u.op in ('bitcast', 'freeze') and u not in vals: vals.add(u); w.append(u)
                if u.op == 'store' and u.ops[0] is v:
                    e = elem(u.ops[1])
                    if e and e[1] in by and i.bb in by[e[1]].body: fill.setdefault(s, []).append((by[e[1]], e[2]))
    rels = {}
    for b in f.blocks:
        for i in b.insts:
            if i.op != 'call': continue
            for s in S.sites(S.O.events(f, i)[1]) & set(fill): rels.setdefault(s, []).append(i)
    for s, fl in fill.items():
        if len(fl) != 1: continue
        La, ca = fl[0]
        ra = loops.range_of(La)
        if ra is None or ra[1] != 1: continue
        what = '%s (line %d)' % (S.acqs[s][0].x.v if isinstance(S.acqs[s][0].x, Const) else 'a call', S.acqs[s][0].line)
        for r in rels.get(s, ()):
            v = next((o for o in r.ops if getattr(o, 'ty', '') == 'ptr'), None)
            while isinstance(v, Inst) and v.op in ('bitcast', 'freeze'): v = v.ops[0]
            e = None
            if isinstance(v, Inst) and v.op == 'load': e = elem(v.ops[0])
            elif isinstance(v, Inst) and v.op == 'gep': e = elem(v)          # handle of the element
            if not e or e[1] not in by: continue
            Lf = by[e[1]]
            if Lf is La or r.bb in La.body: continue
            if any(q is not r and (cfg_reach(r.bb, q.bb) or cfg_reach(q.bb, r.bb)) for q in rels[s]): continue
            rf = loops.range_of(Lf)
            if rf is None: continue
            n += 1; ctx.ok()
            ia, i_f = ra[0], rf[0]
            bad = None
            if isinstance(ia, Const) and isinstance(i_f, Const) and ia.ck == i_f.ck == 'int' and i_f.v + e[2] > ia.v + ca: bad = 'starts %d elements late' % (i_f.v + e[2] - ia.v - ca)
            elif rf[1] != 1: bad = 'skips elements (step %d)' % rf[1]
            elif cfg.vn(rf[2][0]) == cfg.vn(ra[2][0]) and rf[2][1] + e[2] < ra[2][1] + ca: bad = 'ends %d elements early' % (ra[2][1] + ca - rf[2][1] - e[2])
            elif isinstance(rf[2][0], Const) and isinstance(ra[2][0], Const) and rf[2][0].ck == ra[2][0].ck == 'int' and rf[2][0].v + rf[2][1] + e[2] < ra[2][0].v + ra[2][1] + ca: bad = 'ends before the last element'
            else:
                for b in Lf.body:
                    if b is rf[4] or not any(x not in Lf.body for x in b.succs) or nullexit(b.insts[-1]): continue
                    if any(goeson(A, f, x) for x in b.succs if x not in Lf.body): bad = 'can stop (line %d) before the last element' % b.insts[-1].line; break
            if bad: ctx.violation('%s/%s/walk' % (f.name, what.split()[0]), f.file, r.line, f.name, 'the loop that releases what %s acquired for each element %s' % (what, bad))
    # lists: the released node is the walking pointer
    for h, body in cfg.loops(f).items():
        for p in h.insts:
            if p.op != 'phi': break
            if p.ty != 'ptr': continue
            back = [o for o, pb in zip(p.ops, p.x) if pb in body]
            nx = [o for o in back if islink(o, p)]
            if len(nx) != len(back):
                part = [o for o in back if isinstance(o, Inst) and o.op in ('phi', 'select') and any(islink(q, p) for q in o.ops) and any(isnull(q) for q in o.ops)]
                if not part: continue
            free = [i for b in body for i in b.insts if i.op == 'call' and p in i.ops and S.sites(S.O.events(f, i)[1]) and S.objs(p) & S.O.events(f, i)[1]]
            if not free: continue
            n += 1; ctx.ok()
            what = S.acqs[sorted(S.sites(S.O.events(f, free[0])[1]))[0]][0]
            msg = None
            if len(nx) != len(back):
                o = part[0]
                msg = not decided_null(f, o, p) and 'can be cut short'
            else:
                for b in body:
                    out = [x for x in b.succs if x not in body]
                    if not out or nullexit(b.insts[-1]) and tests(b.insts[-1].ops[0], p, nx): continue
                    if any(b is c[3] for L in C if L.header is h for c in L.conds): continue      # a counter of the nodes
                    if any(goeson(A, f, x) for x in out) and not usedafter(f, body, p, nx): msg = 'can stop (line %d) before the end of the list' % b.insts[-1].line; break
            if msg: ctx.violation('%s/list/walk' % f.name, f.file, free[0].line, f.name, 'the loop that releases the list nodes acquired at line %d %s' % (what.line, msg))
    return n

def islink(o, p):
    """o is loaded from a field of the node p"""
    while isinstance(o, Inst) and o.op in ('bitcast', 'freeze'): o = o.ops[0]
    if not (isinstance(o, Inst) and o.op == 'load'): return False
    g = o.ops[0]
    while isinstance(g, Inst) and g.op in ('gep', 'bitcast', 'freeze') and all(isinstance(x, Const) for x in g.ops[1:]): g = g.ops[0]
    return g is p

def tests(c, p, nx):
    return any(o is p or o in nx for o in c.ops)

def decided_null(f, o, p):
    """the merge that ends the walk is controlled by the link being null only"""
    if o.op == 'select':
        c = o.ops[0]
        return isinstance(c, Inst) and c.op == 'icmp' and any(isnull(x) for x in c.ops) and any(islink(x, p) for x in c.ops)
    for q, pb in zip(o.ops, o.x):
        if not isnull(q): continue
        t = pb.insts[-1]
        while len(pb.succs) == 1 and len(pb.preds) == 1: pb = pb.preds[0]; t = pb.insts[-1]
        c = t.ops[0] if t.ops else None
        if not (isinstance(c, Inst) and c.op == 'icmp' and any(isnull(x) for x in c.ops) and any(islink(x, p) for x in c.ops)): return False
    return True

def usedafter(f, body, p, nx):
    vals = {p, *nx}
    for b in f.blocks:
        if b in body: continue
        for i in b.insts:
            if any(o in vals for o in i.ops if isinstance(o, Inst)): return True
    return False

def cfg_reach(a, b):
    seen = set(); w = list(a.succs)
    while w:
        x = w.pop()
        if x is b: return True
        if x not in seen: seen.add(x); w += x.succs
    return False

def check(ctx):
    P, A = ctx.prog, ctx.pta
    O = own.Own(A)
    nf = nw = 0; byname = {}
    for k, f in P.fns.items():
        S = own.LeakSim(O, f)
        if not S.acqs: continue
        nf += 1
        S.run()
        ctx.ok(len(S.acqs))
        nw += walks(ctx, A, f, S)
        for s, (i, objs) in S.acqs.items():
            n = i.x.v if isinstance(i.x, Const) else 'indirect call'
            byname[n] = byname.get(n, 0) + 1
        for s, w in S.leaks.items():
            i = S.acqs[s][0]
            bb, prop, how = w[0]
            n = i.x.v if isinstance(i.x, Const) else 'indirect call'
            path = S.path(bb, prop)
            ctx.violation('%s/%s' % (f.name, n), f.file, i.line, f.name,
                          'what %s (line %d) acquires is %s on the path through lines %s' % (
                              n, i.line, 'lost when the same call runs again' if how == 'overwritten' else
                              'still held by this function alone when it returns', ' -> '.join(map(str, path[-16:]))))
    ctx.cov.update(functions_with_acquisitions=nf, acquisition_sites=ctx.instances - nw, releasing_loops=nw, acquisitions_by_callee=byname)
    ctx.need(600, 'acquisition sites')
