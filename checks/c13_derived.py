"""C13: faces and hash of a diagram, and the table index of a permutation, are rebuilt after the last change to what they are derived from."""
import glob, re
import pta, typed, esp, cfg
from irload import *

META = dict(
    rule='on every path of every API function, after the last write to the crossings, edges or counts of a diagram the caller holds or receives, its faces are '
         'rebuilt (or filled in), and after the last write to its counts, faces and component lengths its hash is recomputed; after the last '
         'write to the map of a permutation its table index is looked up again',
    explanation='Typestate per diagram / permutation object, by property simulation with bottom-up summaries: stores (and copies, sorts, scans and callee effects) that may '
                'land in a source field (field-sensitive points-to facts) make the derived part stale; pd_regenerate_faces, pd_regenerate_hash and '
                'pd_regenerate_pcidx, or storing the derived part itself, make it current again; a hash computed over stale faces stays stale. ',
    assumptions=['faces filled in by hand are taken to describe the crossings they stand for', 'the reference copies (pd_copy and its kin) are complete: that is C12'])

PD, PERM = 'pd_code_struct', 'pd_perm_struct'
F, H, X = 'F', 'H', 'X'
WHAT = {F: 'faces', H: 'hash', X: 'precomputed index'}
# what the documentation defines these functions to do to a diagram: they rebuild one part, or hand out an empty shell to be filled in
PARTIAL = {'pd_regenerate_crossings', 'pd_regenerate_edges', 'pd_regenerate_comps', 'pd_regenerate_faces', 'pd_code_new', 'pd_reorient_edge',
           'pd_edge_delete', 'pd_crossing_delete', 'pd_crossing_bitdecode'}
DEF = {
    'pd_regenerate_faces': lambda s: s - {F},
    'pd_regenerate_hash': lambda s: s | {H} if F in s else s - {H},
    'pd_regenerate_crossings': lambda s: s,           # renumbers crossings: faces and hash do not mention them
    'pd_regenerate_pcidx': lambda s: s - {X},
    'pd_increment_perm': lambda s: s,                 # steps index and map together
}
FRESH = {'pd_code_new', 'pd_new_perm', 'pd_copy', 'pd_copy_newsize', 'pd_copy_perm'}
DIRECT = dict(ncross=(F, H), nedges=(F, H), cross=(F, H), edge=(F, H), ncomps=(H,))

def sitetypes(P, A):
    out = {}
    for f in P.fns.values():
        pts = A.state[f.key][0]
        for i in f.insts():
            if i.op == 'gep' and len(i.ops) > 2:
                d = P.types.get(i.x)
                if not d or d[0] != 'struct' or not d[1]: continue
                for (o, p) in A.loc_of(f, pts, i.ops[0]):
                    if o[0] == 'H' and not p and o[2][0] == f.key: out.setdefault(o[2], set()).add(d[1].split('.', 1)[-1])
    return out

class Obj:
    __slots__ = ('kind', 'parts')

def objects(P, A, fn, ST):
    pts, mem, copies = A.state[fn.key]
    pt = typed.ptypes(P, fn)
    cand = set()
    for v, ls in pts.items():
        for (o, p) in ls: cand.add(o)
    for (o, p), ls in mem.items():
        cand.add(o)
        for l in ls: cand.add(l[0])
    for a in fn.params: cand.add(('P', a.idx))
    D = lambda o, f: {pta.mkD(o, f)} if o[0] in 'PD' else set()
    out = {}
    def sub(o, f): return {x for x, p in A.contents(mem, copies, o, (f,)) if not p} | D(o, (f,))
    for o in cand:
        if o[0] in 'PDG':
            t = typed.otype(P, fn, o, pt)
            t = typed.base(t) if t else None
            if t in (None, 'void') and o[0] == 'P':
                # an untyped argument: what the function uses it as
                ts = {P.types[i.x][1].split('.', 1)[-1] for i in fn.insts() if i.op == 'gep' and len(i.ops) > 2 and P.types.get(i.x, (0,))[0] == 'struct'
                      and P.types[i.x][1] and (o, ()) in A.loc_of(fn, pts, i.ops[0])}
                t = ts.pop() if len(ts) == 1 else None
            if t in ('pd_code_t', 'pd_perm_t'): t = t[:-1] + 'struct'
        elif o[0] == 'H':
            ts = ST.get(o[2], ())
            t = PD if PD in ts else PERM if PERM in ts else None
        else: t = None
        if t not in (PD, PERM): continue
        x = Obj(); x.kind = t; x.parts = {}
        if t == PD:
            for f in ('cross', 'edge', 'face', 'comp'):
                for s in sub(o, f): x.parts[s] = f
            for s in [s for s in x.parts if x.parts[s] == 'face']:
                for f in ('edge', 'orient'):
                    for y in sub(s, f): x.parts.setdefault(y, 'facelist')
        else:
            for s in sub(o, 'map'): x.parts[s] = 'map'
        out[o] = x
    return out

def readers(P, A, O):
    """fn key -> {(parameter object, bit)}: the function reads the hash / table index of that object (or hands it to one that does)"""
    R = {}
    for f in P.fns.values():
        r = set(); pts = A.state[f.key][0]
        for i in f.insts():
            ls = ()
            if i.op == 'load': ls = A.loc_of(f, pts, i.ops[0])
            elif i.op == 'call':
                fs, e = A.targets(f, i, pts)
                if e is not None and (e in pta.COPIES or e in ('strcmp', 'strncmp', 'memcmp', 'strncpy', 'strcpy')):
                    ls = set()
                    for a in i.ops[:2] if e.endswith('cmp') else i.ops[1:2]:
                        if getattr(a, 'ty', None) == 'ptr': ls |= A.loc_of(f, pts, a)
            for (o, p) in ls:
                if o in O[f.key] and o[0] in 'PD' and p in (('hash',), ('pc_idx',)): r.add((o, H if p == ('hash',) else X))
        R[f.key] = r
    chg = True
    while chg:
        chg = False
        for f in P.fns.values():
            if f.name in FRESH or f.name in DEF: continue
            for i in f.insts():
                if i.op != 'call': continue
                fs, e = A.targets(f, i, A.state[f.key][0])
                m = None
                for g in fs:
                    if g.name in FRESH or g.name in DEF or not R[g.key]: continue
                    m = m or A.mapcall(f, i)
                    for (o, b) in R[g.key]:
                        for (x, p) in m((o, ())):
                            if x in O[f.key] and x[0] in 'PD' and not p and (x, b) not in R[f.key]: R[f.key].add((x, b)); chg = True
    return R

class Sim(esp.Sim):
    def __init__(self, A, fn, summ, objs):
        super().__init__(A, fn)
        self.summ = summ; self.O = objs
        self.out = {}; self.outH = {}; self.why = {}; self.done = {}
        self.ev = {}; self.retobjs = set(); self.used = {}

    def hit(self, locs, src=None):
        """(object, bits made stale, bits made current)"""
        r = []
        for o, x in self.O.items():
            d, c = set(), set()
            for (l, p) in locs:
                if l == o:
                    f = p[0] if p else None
                    if x.kind == PD:
                        if f is None: d |= {F, H}
                        elif f == 'hash': c.add(H)
                        elif f in ('face', 'nfaces'): c.add(F); d.add(H)
                        else: d |= set(DIRECT.get(f, ()))
                    else:
                        if f is None or f in ('n', 'map'): d.add(X)
                        elif f == 'pc_idx': c.add(X)
                elif l in x.parts:
                    k = x.parts[l]; f = p[-1] if p else None
                    if k == 'cross':
                        if f != 'sign': d |= {F, H}
                    elif k == 'edge': d |= {F, H}
                    elif k in ('face', 'facelist'): c.add(F); d.add(H)
                    elif k == 'comp':
                        if f in ('nedges', None): d.add(H)
                    elif k == 'map': d.add(X)
            if d or c: r.append((o, frozenset(d), frozenset(c - d)))
        return r

    def identity(self, i):
        """map[k] = k on a new permutation, which is the identity already"""
        a = i.ops[1]; v = i.ops[0]
        if not (isinstance(a, Inst) and a.op == 'gep'): return isinstance(v, Const) and esp.cval(v) == 0
        k = a.ops[-1]
        while isinstance(k, Inst) and k.op in ('sext', 'zext', 'trunc'): k = k.ops[0]
        while isinstance(v, Inst) and v.op in ('sext', 'zext', 'trunc'): v = v.ops[0]
        return k is v or (esp.cval(k) is not None and esp.cval(k) == esp.cval(v))

    def event(self, i):
        """list of (object, function from bits to bits)"""
        if i in self.ev: return self.ev[i]
        out = []
        def lin(hs): return [(o, (lambda s, d=d, c=c: (s - c) | d)) for o, d, c in hs]
        if i.op == 'store':
            out = lin([h for h in self.hit(self.objs(i.ops[1])) if not (X in h[1] and h[0][0] == 'H' and self.identity(i))])
        elif i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            if e is not None:
                ops = []
                if e in pta.COPIES: ops = i.ops[:1]
                elif e in pta.SCANF: ops = i.ops[1:]
                elif e in pta.MODS: ops = [i.ops[k] for k in pta.MODS[e] if k < len(i.ops)]
                elif e in ('qsort', 'strncpy', 'strcpy', 'sprintf', 'snprintf', 'llvm.memset.p0.i64', 'memset', 'fgets'): ops = i.ops[:1]
                locs = set()
                for o in ops:
                    if getattr(o, 'ty', None) == 'ptr': locs |= self.objs(o)
                out = lin(self.hit(locs))
            for f in fs:
                m = self.A.mapcall(self.fn, i)
                if f.name in DEF:
                    for (o, p) in self.objs(i.ops[0]):
                        if o in self.O: out.append((o, DEF[f.name]))
                    continue
                if f.name in FRESH: continue
                gone = set()
                for l in self.A.sum[f.key].frees: gone |= {o for (o, p) in m(l) if o in self.O and not p}
                gone = [(o, lambda s: frozenset()) for o in sorted(gone, key=str)]
                S = self.summ.get(f.key)
                if S is None: out += gone; continue
                seen = set()
                for o, tab in S.items():
                    if o == 'ret':
                        for (x, p) in self.objs(i):
                            if x in self.O and x not in seen: out.append((x, lambda s, t=tab: t[frozenset()]))
                    elif o[0] == 'H':
                        # made by the callee
                        for (x, p) in m((o, ())):
                            if x in self.O and not p:
                                seen.add(x); out.append((x, lambda s, t=tab: t[frozenset()]))
                    else:
                        for (x, p) in m((o, ())):
                            if x in self.O and not p:
                                seen.add(x); out.append((x, lambda s, t=tab: t.get(s, s)))
                # parts of a diagram handed over directly
                locs = set()
                for l in self.A.sum[f.key].mods:
                    r = pta.root(l[0])
                    if r[0] != 'P' or any(pta.root(x) == r for x in self.allO.get(f.key, ()) if x != 'ret'): continue
                    locs |= m(l)
                out += lin([h for h in self.hit(locs) if h[0] not in seen])
                out += gone
        self.ev[i] = out
        return out

    def transfer(self, prop, env, i):
        if i.op == 'call' and prop:
            fs, e = self.A.targets(self.fn, i, self.pts)
            for f in fs:
                if f.name in FRESH or f.name in DEF: continue
                for (o, b) in self.R.get(f.key, ()):
                    # the callee sees it as it is now
                    for (x, p) in self.A.mapcall(self.fn, i)((o, ())):
                        if (x, b) in prop and x[0] == 'H' and not p: self.used.setdefault((x, b), (i, f.name))
        if i.op in ('store', 'call'):
            for o, g in self.event(i):
                s = frozenset(b for (x, b) in prop if x == o)
                n = frozenset(g(s))
                if n != s:
                    for b in n - s: self.why.setdefault((o, b), i)
                    prop = frozenset(t for t in prop if t[0] != o) | {(o, b) for b in n}
        return ((prop, env),)

    def onedge(self, prop, env, b, s):
        t = b.insts[-1]
        if prop and t.op == 'br' and len(b.succs) == 2:
            c = t.ops[0]; neg = False
            while isinstance(c, Inst) and c.op in ('xor', 'trunc', 'zext', 'freeze'):
                if c.op == 'xor': neg = not neg
                c = c.ops[0]
            if isinstance(c, Inst) and c.op == 'icmp' and esp.cval(c.ops[1]) is not None:
                k = esp.cval(c.ops[1]); v = c.ops[0]; truth = (s is b.succs[0]) != neg
                while isinstance(v, Inst) and v.op in ('zext', 'sext', 'trunc'): v = v.ops[0]
                if not isinstance(v, Inst): return prop
                zero = {('eq', 0): truth, ('ne', 0): not truth, ('ugt', 0): not truth, ('sgt', 0): not truth, ('ult', 1): truth, ('slt', 1): truth}.get((c.x, k))
                if zero is None: return prop
                if v.op == 'load' and zero:
                    # no crossings: nothing that was derived from crossings
                    os = {o for (o, p) in self.objs(v.ops[0]) if p == ('ncross',)}
                    prop = frozenset(t for t in prop if t[0] not in os)
                elif v.op == 'call':
                    fs, e = self.A.targets(self.fn, v, self.pts)
                    if e in ('strstr', 'strcmp', 'strncmp'):
                        # the hash text itself says whether it is one: given, or still to be computed
                        unset = zero != (e == 'strstr')
                        for a in v.ops[:2]:
                            for (o, p) in self.objs(a):
                                if o in self.O and p == ('hash',):
                                    prop = frozenset(t for t in prop if t != (o, H)) | ({(o, H)} if unset else set())
        return prop

    def onret(self, prop, env, i, val, frm):
        prop = frozenset(t for t in prop if not (t[0][0] == 'P' and t[0][1] < len(self.fn.params) and esp.absval(env, self.fn.params[t[0][1]]) == ('eq', 0)))
        v = set()
        if val is not None and getattr(val, 'ty', None) == 'ptr' and esp.absval(env, val) != ('eq', 0): v = {o for o, p in self.objs(val) if not p}
        self.retobjs |= v
        for o in self.O:
            bits = {b for (x, b) in prop if x == o}
            for b in bits: self.done.setdefault((o, b), i)
            if o[0] == 'H': self.outH.setdefault(o, set()).update(bits)
            else: self.out.setdefault(o, set()).update(bits)
            if o in v:
                self.out.setdefault('ret', set()).update(bits)
                for b in bits:
                    self.done.setdefault(('ret', b), i); self.why.setdefault(('ret', b), self.why.get((o, b)))

def solve(ctx):
    P, A = ctx.prog, ctx.pta
    ST = sitetypes(P, A)
    O = {f.key: objects(P, A, f, ST) for f in P.fns.values()}
    R = readers(P, A, O)
    summ, sims = {}, {}
    STATES = [frozenset(), frozenset({H}), frozenset({F}), frozenset({F, H}), frozenset({X})]
    todo = [f for f in P.fns.values() if O[f.key] and f.name not in DEF and f.name not in FRESH]
    for rnd in range(8):
        chg = False
        for f in todo:
            s = Sim(A, f, summ, O[f.key]); s.allO = O; s.R = R
            act = set()
            for i in f.insts():
                if i.op in ('store', 'call'): act |= {o for o, g in s.event(i)}
            if not act: continue
            tabs = {}
            for st in STATES:
                s1 = Sim(A, f, summ, O[f.key]); s1.allO = O; s1.R = R; s1.ev = s.ev
                ini = frozenset((o, b) for o in O[f.key] if o[0] in 'PD' for b in st if (b == X) == (O[f.key][o].kind == PERM))
                s1.init = lambda ini=ini: ini
                s1.run()
                for o in list(act) + ['ret']:
                    if o == 'ret' and 'ret' not in s1.out: continue
                    tabs.setdefault(o, {})[st] = frozenset(s1.out.get(o, ()) if o == 'ret' or o[0] != 'H' else s1.outH.get(o, ()))
                if not st: sims[f.key] = s1
            old = summ.get(f.key)
            if old != tabs: summ[f.key] = tabs; chg = True
        if not chg: break
    return summ, sims, O

def check(ctx):
    P, A = ctx.prog, ctx.pta
    summ, sims, O = solve(ctx)
    hdr = ''
    for h in sorted(glob.glob(os.path.join(REPO, 'src', '*.h'))):
        t = open(h, errors='replace').read()
        hdr += re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', t, flags=re.S)) + '\n'
    decl = set(re.findall(r'\b(\w+)\s*\(', hdr))
    called = set()
    for f in P.fns.values():
        for i in f.insts():
            if i.op == 'call':
                for g in A.targets(f, i, A.state[f.key][0])[0]:
                    if g is not f: called.add(g.key)
    n = 0
    for key, f in sorted(P.fns.items()):
        name = f.name
        if key not in sims or name in PARTIAL: continue
        # judged in full: what a header declares and what nobody in the library calls; of the others the state reaches their callers,
        # except through the generic containers, so the maps they return are judged where they are made
        api = name in P.defs and P.defs[name] is f and (name in decl or key not in called)
        s = sims[f.key]; S = A.sum[f.key]
        ctx.ok(sum(1 for i in s.ev if s.ev[i])); n += 1
        freed = {o for (o, p) in S.frees}
        bad = {(o, b) for o, bs in s.out.items() for b in bs if o == 'ret' or o not in freed}
        # whatever can be reached from the result or from the caller's objects
        mem = A.state[f.key][1]
        w = [o for o in s.retobjs] + [o for (o, p) in mem if pta.isnonlocal(o)]
        seen = set(w)
        while w:
            o = w.pop()
            for (x, p), ls in mem.items():
                if x != o: continue
                for l in ls:
                    if l[0][0] == 'H' and l[0] not in seen: seen.add(l[0]); w.append(l[0])
        bad |= {(o, b) for o in seen if o[0] == 'H' and o not in s.retobjs for b in s.outH.get(o, ())}
        if not api: bad = {(o, b) for (o, b) in bad if b == X and (o == 'ret' or o[0] == 'H')}
        for (o, b) in sorted(bad, key=str):
            src = s.why.get((o, b)); w = s.done.get((o, b))
            ctx.violation('%s/%s/%s' % (name, 'ret' if o == 'ret' else pta.objstr(o, f), b), f.file, src.line if src else f.line, name,
                          'the %s of %s are not rebuilt between this change and the return at line %s' % (WHAT[b], 'the returned object' if o == 'ret' or o[0] == 'H' else pta.objstr(o, f), w.line if w else '?'))
    for k, s in sorted(sims.items()):
        for (o, b), (i, g) in sorted(s.used.items(), key=str):
            ctx.violation('%s/use/%s/%s' % (s.fn.name, g, b), s.fn.file, i.line, s.fn.name, '%s is given an object whose %s is not yet rebuilt after its last change (line %s)' % (
                g, WHAT[b], s.why[(o, b)].line if s.why.get((o, b)) else '?'))
    ctx.cov['functions_judged'] = n
    ctx.need(60, 'changes')
