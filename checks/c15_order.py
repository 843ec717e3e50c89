"""C15: comparison functions define one consistent order, and what is searched is sorted by it."""
import re
import order, bounds, cfg, loops
from order import Eval, Facts, Undecided, X, Y, swap, name, has
from irload import *

META = dict(
    rule='every function handed to qsort/bsearch, and every pd_*_cmp function: (1) gives 0 for an object compared with itself, (2) gives opposite signs for exchanged arguments, '
         '(3) decides by the listed parts of the objects in the listed priority and direction and gives 0 only when all of them are equal - every element of an array part, '
         'from the first to the last, (4) returns no shortened difference; the element size given to qsort/bsearch is the size of what the function compares; an array that is '
         'sorted and searched in one function is sorted and searched with the same function; the constant tables that are searched are in order and complete',
    explanation='Abstract evaluation of each comparison function on two unknown objects over the domain of signs between access-path terms (closed under transitivity); '
                'a test the state does not decide splits it, a loop is entered with an unknown index and a round that goes on must have found its elements equal. '
                'The result of every abstract path is compared with that of the exchanged call in the same state and with the order contract. Tables are read from the initialisers.',
    assumptions=['orientations are positive or negative (pd_or_ok)', 'differences of two values of at most 32 bits do not overflow an int', 'no value is NaN'])

DOM = (('orient', (0, 1)),)
MAP = [('+', 'map[]', 'n')]
# comparison function -> parts in order of priority: (direction, part, count of an array part or None)
ORDER = {
 'pd_idx_cmp': [('+', '', None)], 'int_cmp': [('+', '', None)], 'pd_tag_cmp': [('+', '', None)], 'pd_or_cmp': [('-', '', None)],
 'pd_component_cmp': [('-', 'nedges', None), ('+', 'edge[]', 'nedges')],
 'pd_face_cmp': [('-', 'nedges', None), ('+', 'edge[]', 'nedges')],
 'pd_cross_cmp': [('+', 'edge[]', 4)],
 'pdint_cross_index_cmp': [('+', 'pdint_cross_index_cmp_glob.cross[].edge[]', 4)],
 'pd_cyclic_cmp': MAP, 'pd_perm_cmp': MAP,
 'pd_pcperm_cmp': [('+', 'p[]', 'pd_pcperm_cmp_glob_nelts')],
 'pd_dihedral_cmp': [('-', 'orient', None)] + MAP,
 'pd_orientation_cmp': [('-', 'orient', None)],
 'pd_edgemap_cmp': [('+', 'perm.map[]', 'n'), ('-', 'orient[]', 'n')],
 'pd_crossmap_cmp': [('-', 'orient', None), ('+', 'perm.map[]', 'n')],
 'pd_facemap_cmp': [('-', 'orient', None), ('+', 'perm.map[]', 'n')],
 'pd_iso_cmp': [('+', 'compperm.map[]', 'n'), ('+', 'edgemap.perm.map[]', 'n'), ('-', 'edgemap.orient[]', 'n'), ('-', 'crossmap.orient', None),
                ('+', 'crossmap.perm.map[]', 'n'), ('-', 'facemap.orient', None), ('+', 'facemap.perm.map[]', 'n')],
 'pd_multidx_cmp': [('+', 'obj[]', 'nobj')],
 'monomial_cmp': [('+', 'l', None), ('+', 'm', None), ('+', 'coeff', None)],
 'lmpoly_cmp': [('+', 'm', None), ('+', 'l', None)],
 'homcmp': [('+', 'homfly', None)],
 'endpoint_cmp': [('+', 'vt', None)],
 'crossing_strand_cmp': [('-', 'cmp', None), ('+', 's', None)],
 'crossing_reference_compare': [('+', 's', None)],
 'nn_cmp': [('+', 'GLOB_NN_BUFFER[].c[]', None)],
}
API = {n for n in ORDER if n.startswith('pd_') and n not in ('pd_pcperm_cmp', 'pd_tag_cmp', 'pd_or_cmp')}
SORTS = {'qsort': (0, 1, 2, 3), 'bsearch': (1, 2, 3, 4), 'lfind': (1, None, 3, 4), 'lsearch': (1, None, 3, 4), 'mergesort': (0, 1, 2, 3), 'heapsort': (0, 1, 2, 3)}

def terms(facts):
    for ab in facts.d:
        for t in ab: yield t

def partsign(E, facts, passed, part, cnt):
    """sign of X.part against Y.part on a path: -1, 0, 1, 'all' (every element was found equal), None"""
    got = None; eq = set()
    for t in terms(facts):
        if name(t) == part and has(t, X) and not has(t, Y):
            s = facts.get(t, swap(t))
            if s in (-1, 1): return s
            if s == 0: got = 0; eq.add(t)
    if cnt is not None:
        if isinstance(cnt, int) and len(eq) >= cnt: return 0         # written out element by element
        for L in passed:
            if part not in E.loopkeys.get(L, ()): continue
            R = E.looprange.get(L, {})
            ex = [e for e in passed if e[0] == 'exit' and e[1] == L]
            if R and any(e[2] not in R for e in ex): continue           # left early
            return 'all'
        if isinstance(cnt, str):
            for t in terms(facts):
                if name(t).split('.')[-1] == cnt and facts.get(t, ('c', 0)) in (-1, 0): return 'all'       # there are none
        return None
    return got

def judge(ctx, A, f, sites):
    nm = f.name
    bad = set()
    def report(kind, line, msg):
        if kind in bad: return
        bad.add(kind)
        ctx.violation('%s/%s' % (nm, kind), f.file, line, nm, msg)
    E = Eval(A, f, DOM)
    ps = [(fa, r, pa, i) for fa, r, pa, m, i in E.paths([X, Y])]
    res = []
    for fa, r, pa, i in ps:
        for s, f2 in E.sign(r, fa): res.append((f2, s, pa, i))
    npath = len(res)
    for k, (line, msg) in E.problems.items(): report(k, line, msg)
    # reflexive
    for fa, r, pa, m, i in Eval(A, f, DOM).paths([X, X]):
        for s, f2 in E.sign(r, fa):
            if s != 0: report('self', i.line, 'does not give 0 when an object is compared with itself'); break
    # exchanged arguments
    for fa, s, pa, i in res:
        E2 = Eval(A, f, DOM)
        for fb, r, pb, m, j in E2.run(f, [Y, X], fa, {}, (), frozenset()):
            for s2, f3 in E2.sign(r, fb):
                if s2 != -s: report('exchange', i.line, 'gives %d and, with the arguments exchanged, %d for the same two objects' % (s, s2))
    # tolerance
    for fa, s, pa, i in res:
        if s == 0 and any(t[0] == 'op' and t[1] == 'abs' and has(t, X) and has(t, Y) and fa.get(t[2][1], t[2][2]) != 0 for t in terms(fa) if len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) > 2):
            report('tolerance', i.line, 'gives 0 for objects that are only close: such an order is not transitive')
    C = ORDER.get(nm)
    if C:
        for fa, s, pa, i in res:
            for d, part, cnt in C:
                p = partsign(E, fa, pa, part, cnt)
                if p in (-1, 1):
                    if s != (p if d == '+' else -p): report('order/' + part, i.line, 'gives %d for objects whose %s compares %d: not the order it stands for' % (s, part or 'value', p))
                    break
                if p is None:
                    report('part/' + part, i.line, 'gives %d without having compared %s' % (s, part or 'the values')); break
        for L, keys in E.loopkeys.items():
            for d, part, cnt in C:
                if part not in keys: continue
                for i0, step, bt, off, line in E.looprange.get(L, {}).values():
                    if i0 is not None and i0 != 0: report('range/' + part, line, 'starts at element %d of %s' % (i0, part))
                    elif step != 1: report('range/' + part, line, 'skips elements of %s' % part)
                    elif off != 0 and not (isinstance(cnt, int) and bt and bt[0] == 'c'): report('range/' + part, line, 'leaves out elements of %s: the loop ends %d off its count' % (part, off))
                    elif isinstance(cnt, int) and bt and bt[0] == 'c' and bt[1] + off != cnt: report('range/' + part, line, 'compares %d of the %d elements of %s' % (bt[1] + off, cnt, part))
                    elif isinstance(cnt, str) and bt and bt[0] == 'c': report('range/' + part, line, 'compares %d elements of %s, whatever their number is' % (bt[1], part))
    return npath

def eltsize(P, A, f):
    """size of the objects a comparison function reads through its first argument"""
    a = f.params[0]; out = set()
    w = [a]; seen = set()
    while w:
        v = w.pop()
        if v in seen: continue
        seen.add(v)
        for u in cfg.uses(f).get(v, ()):
            if u.op in ('bitcast', 'freeze'): w.append(u)
            elif u.op == 'gep' and u.ops[0] is v:
                if isinstance(u.ops[1], Const) and u.ops[1].v == 0 and len(u.ops) > 2: out.add(bounds.sizeof(P, A._named(u.x, u.ops[0]))[0])
            elif u.op == 'load': out.add(bounds.sizeof(P, u.ty)[0])
            else: return None
    # a load of the first field looks like a load of a scalar
    return max(out) if out and None not in out else None

def field(P, A, v):
    """structure field an array pointer was loaded from"""
    if not (isinstance(v, Inst) and v.op == 'load'): return None
    g = v.ops[0]
    if not (isinstance(g, Inst) and g.op == 'gep' and len(g.ops) >= 3): return None
    d = P.types.get(A._named(g.x, g.ops[0]))
    if not d or d[0] != 'struct' or not isinstance(g.ops[2], Const): return None
    nm = d[1].split('.', 1)[1] if '.' in d[1] else d[1]
    st = A.gepsteps(g.x, g.ops[2:], g.ops[0])
    return (nm, '.'.join(st)) if st else None

def tables(ctx, P, A):
    n = 0
    g = next((m.globals['ktdb'] for m in P.mods if 'ktdb' in m.globals and m.globals['ktdb'].init is not None), None)
    cnt = None
    for f in P.fns.values():
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, Const) and i.x.v == 'bsearch' and isinstance(i.ops[1], Const) and i.ops[1].ck == 'global' and i.ops[1].v == 'ktdb' and isinstance(i.ops[2], Const):
                cnt = (i.ops[2].v, f, i)
                if g is None or g.init.ck != 'agg': continue
                rows = []
                for e in g.init.v[:cnt[0]]:
                    h = e.v[-1] if e.ck == 'agg' else None
                    if h is None or h.ck != 'str': rows.append(None); continue
                    s = h.v if isinstance(h.v, str) else h.v.decode('latin1')
                    rows.append(s.split('\0')[0])
                n += len(rows); ctx.ok()
                if len(g.init.v) < cnt[0]: ctx.violation('ktdb/size', f.file, i.line, f.name, 'searches %d entries of a table of %d' % (cnt[0], len(g.init.v)))
                for k in range(1, len(rows)):
                    if rows[k] is not None and rows[k - 1] is not None and rows[k - 1].encode('latin1') > rows[k].encode('latin1'):
                        ctx.violation('ktdb/order', 'homfly.h', 24 + k, 'ktdb', 'entry %d of the knot table is out of order: binary search cannot find its neighbours' % k); break
                # the last entry (the unknot, which is recognised otherwise) is not part of the sorted table
                rest = [e for e in g.init.v[cnt[0]:] if e.ck == 'agg' and e.v and e.v[-1].ck == 'str' and (e.v[-1].v if isinstance(e.v[-1].v, str) else e.v[-1].v.decode('latin1')).split('\0')[0]]
                if len(rest) > 1: ctx.violation('ktdb/rest', f.file, i.line, f.name, 'searches %d entries of the knot table, which has %d more' % (cnt[0], len(rest)))
    # permutation tables
    m = next((m for m in P.mods if 'pd_pc_perm' in m.globals and m.globals['pd_pc_perm'].init is not None), None)
    if m is not None and 'pd_n_pc_perms' in m.globals:
        cs = [c.v for c in m.globals['pd_n_pc_perms'].init.v]
        for k, c in enumerate(m.globals['pd_pc_perm'].init.v):
            if c.ck != 'global' or c.v not in m.globals: continue
            t = m.globals[c.v].init
            if t is None or t.ck != 'agg': continue
            rows = [ints(e) for e in t.v]
            n += len(rows); ctx.ok()
            fl = getattr(m, 'src', None) or 'pd_perm.c'
            if len(rows) != cs[k] or k < 13 and len(rows) != fact(k): ctx.violation('pc_perm/%d/size' % k, 'pd_permdata.h', 0, c.v, 'the table of permutations of %d has %d rows, the count says %d' % (k, len(rows), cs[k])); continue
            for q, r in enumerate(rows):
                if sorted(r[:k]) != list(range(k)): ctx.violation('pc_perm/%d/row' % k, 'pd_permdata.h', 0, c.v, 'row %d is not a permutation of %d elements' % (q, k)); break
                if q and rows[q - 1][:k] >= r[:k]: ctx.violation('pc_perm/%d/order' % k, 'pd_permdata.h', 0, c.v, 'row %d is out of order' % q); break
    return n

def fact(n):
    r = 1
    for k in range(2, n + 1): r *= k
    return r

def ints(c):
    if c.ck == 'int': return [c.v]
    if c.ck == 'agg': return [x for e in c.v for x in ints(e)]
    if c.ck == 'zero':
        m = re.match(r'\[(\d+) x i', str(c.ty))
        return [0] * int(m.group(1)) if m else [0]
    if c.ck == 'str': return [ord(x) if isinstance(x, str) else x for x in c.v]
    return []

def check(ctx):
    P, A = ctx.prog, ctx.pta
    todo = {}
    nsites = 0; fields = {}
    for f in P.fns.values():
        sorted_ = {}; bysize = {}
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, Const) or i.x.v not in SORTS: continue
            bi, ni, si, ci = SORTS[i.x.v]
            c = i.ops[ci]
            nsites += 1
            if not (isinstance(c, Const) and c.ck == 'func'): continue
            g = P.resolve(f, c.v)
            if g is None: continue
            todo.setdefault(g.key, (g, []))[1].append((f, i))
            ctx.ok()
            want = eltsize(P, A, g)
            sz = i.ops[si]
            if want and isinstance(sz, Const) and sz.ck == 'int' and sz.v != want and (want > 8 or sz.v < want):
                ctx.violation('%s/%s/size' % (f.name, g.name), f.file, i.line, f.name, '%s is told elements of %d bytes, %s compares objects of %d bytes' % (i.x.v, sz.v, g.name, want))
            if ni is not None:
                bv, off = loops.affine(i.ops[ni])
                if off < 0 and not isinstance(bv, Const): ctx.violation('%s/%s/count' % (f.name, g.name), f.file, i.line, f.name, '%s leaves out the last %d elements' % (i.x.v, -off))
            b0 = i.ops[bi]
            while isinstance(b0, Inst) and b0.op in ('bitcast', 'freeze'): b0 = b0.ops[0]
            if isinstance(b0, Inst) and b0.op == 'gep' and len(b0.ops) == 2 and isinstance(b0.ops[1], Const) and b0.ops[1].v > 0:
                ctx.violation('%s/%s/first' % (f.name, g.name), f.file, i.line, f.name, '%s leaves out the first %d elements' % (i.x.v, b0.ops[1].v))
            base = cfg.vn(i.ops[bi])
            k = field(P, A, b0)
            if k: fields.setdefault(k, []).append((g, f, i))
            if i.x.v in ('qsort', 'mergesort', 'heapsort') and isinstance(sz, Const):
                o = bysize.setdefault(sz.v, (g, i))
                if o[0] is not g and want and want > 8:
                    ctx.violation('%s/%s/two' % (f.name, g.name), f.file, i.line, f.name, 'sorts with %s what is compared with objects sorted with %s (line %d)' % (g.name, o[0].name, o[1].line))
            if i.x.v in ('qsort', 'mergesort', 'heapsort'): sorted_.setdefault(base, []).append((g, i))
            elif i.x.v == 'bsearch' and base in sorted_:
                ctx.ok()
                if all(h is not g for h, j in sorted_[base]): ctx.violation('%s/%s/other' % (f.name, g.name), f.file, i.line, f.name, 'searches with %s an array sorted with %s' % (g.name, sorted_[base][0][0].name))
    for k, us in fields.items():
        n = {}
        for g, f, i in us: n[g.name] = n.get(g.name, 0) + 1
        ctx.ok()
        if len(n) > 1:
            best = max(sorted(n), key=n.get)
            g, f, i = next(u for u in us if u[0].name != best)
            ctx.violation('%s/%s/field' % (f.name, g.name), f.file, i.line, f.name, '%s.%s is ordered by %s here and by %s elsewhere' % (k + (g.name, best)))
    for n in ORDER:
        f = ctx.fn(n, n in API)
        if f is not None: todo.setdefault(f.key, (f, []))
    und = {}; np = 0; dec = 0
    for k, (f, sites) in sorted(todo.items()):
        if len(f.params) != 2: continue
        try:
            np += judge(ctx, A, f, sites); dec += 1
            ctx.ok(3 + len(ORDER.get(f.name, ())))
        except Undecided as e: und[f.name] = str(e)
    rows = tables(ctx, P, A)
    ctx.cov.update(comparison_functions=dec, undecided=und, sort_and_search_sites=nsites, abstract_paths=np, table_rows=rows)
    ctx.need(100, 'obligations')
