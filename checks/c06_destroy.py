"""C06: destroying an object gives back everything it owns, once, and tolerates an empty handle."""
import re
import pta, typed, life, loops, esp
from irload import *

META = dict(
    rule='(1) every pointer field into which the library ever stores a freshly allocated block is released by the destructor of the '
         'structure, transitively, together with the structure itself; (2) on every path through the destructor to a return each of '
         'those blocks has been released, unless its pointer is known to be NULL or its element count 0 on that path; (3) loops that '
         'release elements visit all of them: from 0, in steps of 1, up to the element count; (4) destructors that take the address '
         'of the caller\'s pointer accept an already empty one and leave it NULL; plain-pointer destructors accept NULL where documented',
    explanation='The owned fields are derived from the stores in the current source (points-to analysis), so a new owned field is an '
                'obligation automatically. Rule 2 is a path-sensitive must-release analysis of the destructor bodies, rule 3 an '
                'induction-variable analysis, rule 4 a simulation of the destructor under the fact that the pointer is null.',
    assumptions=['a field that never receives a fresh allocation is a borrowed reference'])

# destructor -> (parameter index, pointer levels between parameter and object, struct, element loops {path: bound})
D = {
 'geyer_ips_free': (0, 2, 'geyer_ips_struct', {}),
 'nplc_vect_buf_free': (1, 1, 'nplc_vector_type', {'c[]': '#0'}),
 'nplc_free': (0, 1, 'nplc_type', {'cp[].clr[]': 'nc', 'cp[].vt[]': 'nc'}),
 'pd_free_container': (0, 2, 'pd_container_struct', {'[].elt[][]': 'nelts'}),
 'pd_free_cyclic': (0, 2, 'pd_cyclic_struct', {}),
 'pd_free_dihedral': (0, 2, 'pd_dihedral_struct', {}),
 'pd_free_compgrps': (0, 1, 'pdint_compgrp_struct', {'comp[]': '#1'}),
 'pd_free_compperms': (1, 3, 'pd_perm_struct', {'[][]': '#0'}),
 'pd_free_edgemap': (0, 2, 'pd_edgemap_struct', {}),
 'pd_free_edgemaps': (1, 3, 'pd_edgemap_struct', {'[][]': '#0'}),
 'pd_free_crossmap': (0, 2, 'pd_crossmap_struct', {}),
 'pd_free_crossmaps': (1, 3, 'pd_crossmap_struct', {'[][]': '#0'}),
 'pd_free_facemap': (0, 2, 'pd_facemap_struct', {}),
 'pd_free_facemaps': (1, 3, 'pd_facemap_struct', {'[][]': '#0'}),
 'pd_free_iso': (0, 2, 'pd_iso_struct', {}),
 'pd_free_isos': (1, 3, 'pd_iso_struct', {'[][]': '*#0'}),
 'pd_free_multidx': (0, 2, 'pd_multidx_struct', {'[].obj[][]': 'nobj'}),
 'pd_free_orientation': (0, 2, None, {}),
 'pd_free_perm': (0, 2, 'pd_perm_struct', {}),
 'plc_free': (0, 1, 'plc_type', {'cp[].clr[]': 'nc', 'cp[].vt[]': 'nc'}),
 'plc_spline_free': (0, 1, 'plc_spline_type', {'cp[].clr[]': 'nc', 'cp[].vt[]': 'nc', 'cp[].vt2[]': 'nc', 'cp[].svals[]': 'nc'}),
 'plc_nearest_vertex_pc_data_free': (0, 2, 'plc_nearest_vertex_pc_data', {'[].component_data[][]': 'nc'}),
 'plc_nearest_neighbor_pc_data_free': (0, 2, 'plc_nearest_neighbor_pc_data', {}),
 'plc_xoshiro_free': (0, 1, None, {}),
 'plc_symmetry_free': (0, 2, 'plc_symmetry_type', {'[].target[][]': 'nc'}),
 'plc_symmetry_group_free': (0, 2, 'plc_symmetry_group_type', {'[].sym[][]': 'n'}),
 'tsmcmc_triangulation_free': (0, 0, 'triangulation_struct', {}),
 'pd_code_free': (0, 2, 'pd_code_struct', {'[].face[].edge[]': 'MAXFACES', '[].face[].orient[]': 'MAXFACES', '[].comp[].edge[]': 'MAXCOMPONENTS'}),
 'pd_code_eltfree': (0, 2, 'pd_code_struct', {}),
 'pd_tangle_free': (0, 2, 'pd_tangle_struct', {}),
 'homfly_polynomial_free': (0, 2, 'polynomial_struct', {}),
 'pd_free_pdstor': (0, 2, 'pdstorage_struct', {}),
 'crossing_container_free': (0, 2, 'crossing_container_struct', {}),
}
# the pointer field that may stay when this field/parameter of the object is zero
GUARD = {'MAXCOMPONENTS': 'comp', 'MAXFACES': 'face', 'check_curve': 'component_data'}
NULLOK = {'plc_free', 'nplc_free', 'plc_spline_free', 'plc_xoshiro_free', 'plc_nearest_vertex_pc_data_free', 'plc_nearest_neighbor_pc_data_free',
          'plc_symmetry_group_free', 'homfly_polynomial_free'}

API = {n for n in D if n not in ('pd_free_compgrps', 'pd_free_compperms', 'pd_free_edgemaps', 'pd_free_crossmaps', 'pd_free_facemaps', 'pd_free_isos', 'geyer_ips_free', 'pd_code_eltfree', 'homfly_polynomial_free')}

class Dt(life.Dtor):
    def onedge(self, prop, env, b, s):
        prop = super().onedge(prop, env, b, s)
        for v, a in env.items():
            if a != ('eq', 0): continue
            if isinstance(v, Arg) and v.ty != 'ptr': return frozenset()
            if isinstance(v, Inst) and v.op == 'load':
                for l in self.objs(v.ops[0]):
                    g = GUARD.get(l[1][-1] if l[1] else None)
                    if g: prop = frozenset(x for x in prop if '.%s[]' % g not in '.' + self.ap(x).replace('[].', '.', 1) and not re.match(r'(\[\]\.)?%s\[\]' % g, self.ap(x)))
        return prop

    def ap(self, x): return typed.apath(self.P, self.fn, x[2] if x[0] == 'it' else x)[1]

class Hd(life.HandleSim):
    def onedge(self, prop, env, b, s):
        if any(isinstance(v, Arg) and v.ty != 'ptr' and a == ('eq', 0) for v, a in env.items()): return True
        return super().onedge(prop, env, b, s)

def goeson(A, f, b, seen=None):
    seen = seen if seen is not None else set()
    if b in seen: return False
    seen.add(b)
    if any(i.op == 'call' and A.noreturn(f, i) for i in b.insts): return False
    return b.insts[-1].op == 'ret' or any(goeson(A, f, x, seen) for x in b.succs)

def bname(A, f, v):
    v = loops.strip(v)
    if isinstance(v, Arg): return {'#%d' % f.srcidx[v.idx], v.name}
    if isinstance(v, Inst) and v.op == 'load':
        r = set()
        for l in A.loc_of(f, A.state[f.key][0], v.ops[0]):
            if l[1]: r.add(l[1][-1])
            elif l[0][0] == 'P': r.add('*#%d' % f.srcidx[l[0][1]])
        return r
    return None

def check(ctx):
    P, A = ctx.prog, ctx.pta
    own = life.owned_fields(P, A)
    if len(own) < 45: raise AnalysisError('only %d owning fields found' % len(own))
    paths = 0; nl = 0
    for name, (pi, lv, sn, elts) in D.items():
        f = ctx.fn(name, name in API)
        if f is None: continue
        a = f.params[[x.idx for x in f.params if f.srcidx[x.idx] == pi][0]]
        S = A.sum[f.key]
        mine = {}
        for l in S.frees:
            if pta.root(l[0])[0] != 'P' or l[1]: continue
            if f.srcidx[pta.root(l[0])[1]] != pi: continue
            mine.setdefault(typed.apath(P, f, l)[1], []).append(l)
        pre = '[]' * (lv - 1)
        req = {}
        if lv >= 1: req[pre] = (sn, None)
        if lv == 3: req['[]'] = (sn, None)
        if sn:
            if sn not in P.fields: raise AnalysisError('structure %s is gone' % sn)
            req.update(life.required(P, own, sn, pre))
        ctx.ok(len(req))
        for p in req:
            if p not in mine:
                ctx.violation('%s/%s' % (name, p), f.file, f.line, name, 'never releases %s, which the object owns%s' % (
                    p or 'the object itself', ' (allocated in %s)' % ', '.join(sorted(own.get(req[p], ()))[:3]) if req[p] in own else ''))
        sim = Dt(A, f, [l for ls in mine.values() for l in ls])
        sim.itobl = {l for q, ls in mine.items() if q in req or q in elts for l in ls}
        sim.run(); paths += sum(len(x) for x in sim.IN.values())
        done = set()
        for l, (i, frm) in sim.miss.items():
            p = typed.apath(P, f, l)[1]
            if p in done: continue
            done.add(p)
            ctx.violation('%s/%s' % (name, p), f.file, i.line, name, 'returns without releasing %s on the path through lines %s' % (
                p or 'the object', ' -> '.join(map(str, sim.path(i.bb, frm)[-12:]))))
        for l, (b, frm) in sim.itmiss.items():
            p = typed.apath(P, f, l)[1]
            if p in done: continue
            done.add(p)
            ctx.violation('%s/%s' % (name, p), f.file, b.insts[-1].line, name, 'a round of the loop that releases %s can leave it out' % p)
        # element loops
        for p, bound in elts.items():
            ls = set(mine.get(p, ()))
            found = False
            for L in loops.counted(f):
                if not any(i.op == 'call' and sim.rel(i) & ls for b in L.body for i in b.insts): continue
                if any(M is not L and M.body < L.body and any(i.op == 'call' and sim.rel(i) & ls for b in M.body for i in b.insts) for M in loops.counted(f)): continue
                r = loops.range_of(L)
                if r is None: continue
                nl += 1; ctx.ok()
                init, step, (bv, off), pred, bb = r
                nm = bname(A, f, bv)
                i0 = init.v if isinstance(init, Const) and init.ck == 'int' else None
                line = bb.insts[-1].line
                if i0 is not None and i0 != 0: ctx.violation('%s/%s/start' % (name, p), f.file, line, name, 'the loop releasing %s starts at element %d' % (p, i0))
                elif step != 1: ctx.violation('%s/%s/step' % (name, p), f.file, line, name, 'the loop releasing %s skips elements (step %d)' % (p, step))
                elif nm is not None and nm and bound not in nm:
                    ctx.violation('%s/%s/bound' % (name, p), f.file, line, name, 'the loop releasing %s runs to %s, not to %s' % (p, '/'.join(sorted(nm)), bound))
                elif off != 0 and nm:
                    ctx.violation('%s/%s/bound' % (name, p), f.file, line, name, 'the loop releasing %s ends %d elements off its count' % (p, off))
                else:
                    for b in L.body:
                        if b is bb or not any(x not in L.body for x in b.succs): continue
                        t = b.insts[-1]
                        c = t.ops[0] if t.ops else None
                        if isinstance(c, Inst) and c.op == 'icmp' and any(o.ty == 'ptr' for o in c.ops): continue
                        if not any(goeson(A, f, x) for x in b.succs if x not in L.body): continue
                        ctx.violation('%s/%s/exit' % (name, p), f.file, t.line, name, 'the loop releasing %s can stop before the last element' % p)
                        break
                found = True
        if lv >= 2:
            ctx.ok(2)
            n = life.NullSim(A, f, a.idx, 1); n.run()
            for i in list(n.bad.values())[:1]:
                ctx.violation('%s/null' % name, f.file, i.line, name, 'dereferences the handle when it is already empty')
            h = Hd(A, f, a.idx); h.run()
            for i, frm in h.bad[:1]:
                ctx.violation('%s/handle' % name, f.file, i.line, name, 'leaves the caller\'s handle non-null on the path through lines %s' % (
                    ' -> '.join(map(str, h.path(i.bb, frm)[-12:]))))
        if name in NULLOK:
            ctx.ok()
            n = life.NullSim(A, f, a.idx, 0); n.run()
            for i in list(n.bad.values())[:1]:
                ctx.violation('%s/null0' % name, f.file, i.line, name, 'dereferences a NULL argument')
    ctx.cov.update(destructors=len(D), owning_fields=sorted('%s.%s' % k for k in own), abstract_path_states=paths, element_loops=nl)
    ctx.need(190, 'obligations')
