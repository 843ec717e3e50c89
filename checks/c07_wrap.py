"""C07: the wraparound vertices agree with the curve whenever an API call returns."""
import glob, re
import pta, typed, esp, cfg, loops
from irload import *

META = dict(
    rule='on every path of every API function, after the last write to the vertices, vertex counts, open flags or vertex buffers of a curve that '
         'the caller holds or receives, the wraparound vertices of that curve are rebuilt before the return (directly or in a callee that '
         'does so on all of its paths)',
    explanation='Typestate per curve object (clean / stale), by property simulation with bottom-up summaries: a store that may land in the vertex storage of a '
                'curve (field-sensitive points-to facts) makes it stale, plc_fix_wrap / nplc_fix_wrap make it clean. ',
    assumptions=['vertex storage released by a destructor is not a stale curve'])

FIX = ('plc_fix_wrap', 'nplc_fix_wrap')
CURVES = ('plc_type', 'nplc_type')

def coherent(fn, i):
    """i treats all of the vertices -1 .. nv alike: it is the body of a loop over count+2 vertices, or copies nv+2 vertices from -1 on"""
    for L in loops.counted(fn):
        if i.bb not in L.body: continue
        r = loops.range_of(L)
        if r is not None:
            init, step, (base, off), p, b = r
            if step == 1 and isinstance(init, Const) and init.ck == 'int' and off - init.v == 2 and not isinstance(base, Const): return True
        elif L.step == -1:
            base, off = loops.affine(L.init)
            for p, o, bound, b in L.conds:
                if p in ('sge', 'sgt') and isinstance(bound, Const) and bound.ck == 'int' and not isinstance(base, Const) and \
                        off + o - bound.v + (1 if p == 'sge' else 0) == 2: return True
    if i.op == 'call' and i.x is not None and len(i.ops) >= 3:
        def first(v): return isinstance(v, Inst) and v.op == 'gep' and len(v.ops) == 2 and isinstance(v.ops[1], Const) and v.ops[1].ck == 'int' and v.ops[1].v == -1
        if first(i.ops[0]) and first(i.ops[1]): return True
    return False

class Wrap(esp.Sim):
    def __init__(self, A, fn, summ, curves):
        super().__init__(A, fn)
        self.summ = summ; self.C = curves
        self.out = set(); self.why = {}
        self.clean = None                  # objects clean at every return
        self.done = {}
        self.ev = {}

    def hits(self, locs, isstore=True):
        r = set()
        for c, (vts, cps, tops) in self.C.items():
            for (o, p) in locs:
                if o in vts: r.add(c)
                elif o in cps and (not p or p[-1] in ('nv', 'open', 'vt')):
                    # filling in a strand this function has just made, its vertices still zero, leaves nothing stale
                    if not (o[0] == 'H' and o[2][0] == self.fn.key and p): r.add(c)
        return r

    def strands(self, v):
        """curves whose strand array v points into (as a whole strand)"""
        ls = self.objs(v)
        return frozenset(c for c, (vts, cps, t) in self.C.items() if ls and all(o in cps and not p for (o, p) in ls))

    def event(self, i):
        """(made stale, made clean)"""
        if i in self.ev: return self.ev[i]
        d, k = set(), set()
        if coherent(self.fn, i): pass
        elif i.op == 'store':
            v = i.ops[0]
            while isinstance(v, Inst) and v.op == 'gep': v = v.ops[0]
            # moving a buffer pointer within its buffer (vt--, before releasing it) changes no vertex
            if not (v is not i.ops[0] and isinstance(v, Inst) and v.op == 'load' and cfg.vn(v.ops[0]) == cfg.vn(i.ops[1])):
                d = self.hits(self.objs(i.ops[1]))
        elif i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            if e is not None:
                if e in pta.COPIES and self.strands(i.ops[0]) and self.strands(i.ops[0]) == self.strands(i.ops[1]): pass   # whole strands move
                elif e in pta.COPIES or e in pta.MODS or e in pta.SCANF:
                    for o in i.ops[:1] if e not in pta.SCANF else i.ops[1:]:
                        if getattr(o, 'ty', None) == 'ptr': d |= self.hits(self.objs(o))
                elif e == 'realloc': pass
            m = self.A.mapcall(self.fn, i) if fs else None
            allk = None
            for f in fs:
                if f.name in FIX:
                    kk = {o for (o, p) in self.objs(i.ops[0]) if o in self.C}
                    # a cleaning of one of several possible curves cleans all of them: they are one variable
                    dd = set()
                else:
                    sd, sc = self.summ.get(f.key, (frozenset(), frozenset()))
                    dd, kk = set(), set()
                    for o in sd:
                        if o == 'ret': dd |= {x for (x, p) in self.objs(i) if x in self.C}
                        else: dd |= {x for (x, p) in m((o, ())) if x in self.C}
                    for o in sc:
                        if o == 'ret': continue
                        kk |= {x for (x, p) in m((o, ())) if x in self.C}
                    # calls that write vertex storage handed over directly (a strand or a vertex buffer)
                    for l in self.A.sum[f.key].mods:
                        r = pta.root(l[0])
                        if r[0] == 'P' and any(pta.root(x) == r for x in self.allC.get(f.key, ())): continue
                        if r[0] != 'P': continue
                        dd |= self.hits(m(l)) - kk
                d |= dd
                allk = kk if allk is None else allk & kk
            k = (allk or set()) - d
        self.ev[i] = (frozenset(d), frozenset(k))
        return self.ev[i]

    def transfer(self, prop, env, i):
        if i.op in ('store', 'call'):
            d, k = self.event(i)
            if d:
                for c in d: self.why.setdefault(c, i)
                prop = prop | d
            if k: prop = prop - k
        return ((prop, env),)

    def onret(self, prop, env, i, val, frm):
        # nothing to do for a curve that is not there
        prop = frozenset(o for o in prop if not (o[0] == 'P' and o[1] < len(self.fn.params) and esp.absval(env, self.fn.params[o[1]]) == ('eq', 0)))
        for o in prop:
            self.done.setdefault(o, (i, frm, prop))
        v = set()
        if val is not None and getattr(val, 'ty', None) == 'ptr':
            v = {o for o, p in self.objs(val)}
            if esp.absval(env, val) == ('eq', 0): v = set()
        self.out |= {o for o in prop if o[0] != 'H'} | ({'ret'} if v & prop else set())
        if v & prop: self.done.setdefault('ret', (i, frm, prop))
        self.outH = getattr(self, 'outH', set()) | {o for o in prop if o[0] == 'H'}

class Fill(esp.Sim):
    """what plc_fix_wrap puts where: (destination index, source index) pairs per strand, with the open flag known"""
    def __init__(self, A, fn):
        super().__init__(A, fn)
        self.latch = set(); self.unknown = False; self.seen = set()
        self.loops = cfg.loops(fn)

    def field(self, addr):
        while isinstance(addr, Inst) and addr.op == 'gep':
            st = self.A.gepsteps(addr.x, addr.ops[2:], addr.ops[0]) if len(addr.ops) > 2 else ()
            if st: return st[-1]
            addr = addr.ops[0]
        return None

    def index(self, v):
        """index into a vertex array that the address v denotes"""
        n = 0
        while isinstance(v, Inst) and n < 12:
            n += 1
            if v.op == 'gep':
                b = v.ops[0]
                if isinstance(b, Inst) and b.op == 'load' and self.field(b.ops[0]) == 'vt':
                    if len(v.ops) < 2: return None
                    x, off = loops.affine(v.ops[1])
                    if isinstance(x, Const) and x.ck == 'int': return ('c', x.v + off)
                    if isinstance(x, Inst) and x.op == 'load' and self.field(x.ops[0]) == 'nv': return ('nv', off)
                    return ('?', 0)
                v = b
            elif v.op == 'load':
                if self.field(v.ops[0]) == 'vt': return ('c', 0)
                v = v.ops[0]
            else: return None
        return None

    def pair(self, i):
        if i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            if e in pta.COPIES: return self.index(i.ops[0]), self.index(i.ops[1])
            if fs and fs[0].name == 'nplc_vect_copy': return self.index(i.ops[0]), self.index(i.ops[len(i.ops) // 2])
        if i.op == 'store':
            d = self.index(i.ops[1])
            if d is not None: return d, self.index(i.ops[0])
        return None

    def transfer(self, prop, env, i):
        p = self.pair(i)
        if p is not None and p[0] is not None:
            self.seen.add(i)
            if p[1] is None or '?' in (p[0][0], p[1][0]): self.unknown = True
            prop = frozenset({x for x in prop if x[0] != p[0]} | {p})
        if i.op == 'store' and self.field(i.ops[1]) == 'open':
            c = esp.cval(i.ops[0])
            prop = frozenset(x for x in prop if x[0] != 'open') | ({('open', 1 if c else 0)} if c is not None else set())
        return ((prop, env),)

    def onedge(self, prop, env, b, s):
        t = b.insts[-1]
        if t.op == 'br' and len(b.succs) == 2:
            c = t.ops[0]; neg = False
            while isinstance(c, Inst) and c.op in ('trunc', 'icmp', 'xor', 'zext', 'and'):
                if c.op == 'icmp':
                    if not (isinstance(c.ops[1], Const) and c.x in ('eq', 'ne')): c = None; break
                    if (c.x == 'eq') == (esp.cval(c.ops[1]) in (0, None)): neg = not neg
                elif c.op == 'xor': neg = not neg
                c = c.ops[0]
            if isinstance(c, Inst) and c.op == 'load' and self.field(c.ops[0]) == 'open':
                v = 1 if (s is b.succs[0]) != neg else 0
                old = [x[1] for x in prop if x[0] == 'open']
                if old and old[0] != v: return None
                prop = prop | {('open', v)}
        if s in self.loops and b in self.loops[s]:
            self.latch.add(prop); return frozenset()
        return prop

    def onret(self, prop, env, i, val, frm):
        if prop: self.latch.add(prop)

WANT = {1: {(('c', -1), ('c', 1)), (('nv', 0), ('nv', -2))}, 0: {(('c', -1), ('nv', -1)), (('nv', 0), ('c', 0))}}

def istr(x): return str(x[1]) if x[0] == 'c' else 'nv' + ('%+d' % x[1] if x[1] else '')

def fills(ctx, name):
    P, A = ctx.prog, ctx.pta
    f = ctx.fn(name)
    todo = [f]
    for i in f.insts():
        if i.op == 'call':
            todo += [g for g in A.targets(f, i, A.state[f.key][0])[0] if g.name not in ('nplc_vect_copy',) and g not in todo]
    n = 0
    for g in todo:
        s = Fill(A, g).run()
        if not s.seen or s.unknown: continue
        n += 1
        for prop in s.latch:
            o = [x[1] for x in prop if x[0] == 'open']
            got = {x for x in prop if x[0] != 'open'}
            if not o: ok = got in WANT.values() or not got and g is not f
            else: ok = got == WANT[o[0]]
            ctx.ok()
            if not ok:
                ctx.violation('%s/fill/%s' % (name, o), g.file, min(i.line for i in s.seen), g.name, 'a strand that is %s gets %s, not %s' % (
                    'open' if o and o[0] else 'closed' if o else 'open or closed', ', '.join('vt[%s]=vt[%s]' % (istr(a), istr(b)) for a, b in sorted(got)) or 'nothing',
                    ', '.join('vt[%s]=vt[%s]' % (istr(a), istr(b)) for a, b in sorted(WANT[o[0] if o else 0]))))
        for L in loops.counted(g):
            if not any(i.bb in L.body for i in s.seen): continue
            r = loops.range_of(L)
            if r is None: continue
            init, step, (base, off), p, b = r
            if isinstance(init, Const) and isinstance(base, Inst) and base.op == 'load':
                ctx.ok()
                if init.v != 0 or step != 1 or off != 0:
                    ctx.violation('%s/range' % name, g.file, L.header.insts[0].line or g.line, g.name, 'not every component is treated (from %s, step %s, up to count%+d)' % (init.v, step, off))
    return n

def curves(P, A, fn):
    """curve objects seen by fn -> (vertex storage objects, strand objects)"""
    pts, mem, copies = A.state[fn.key]
    pt = typed.ptypes(P, fn)
    out = {}
    cand = set()
    for v, ls in pts.items():
        for (o, p) in ls: cand.add(o)
    for (o, p), ls in mem.items():
        cand.add(o)
        for l in ls: cand.add(l[0])
    for a in fn.params: cand.add(('P', a.idx))
    D = lambda o, f: {pta.mkD(o, f)} if o[0] in 'PD' else set()
    for o in cand:
        t = typed.otype(P, fn, o, pt) if o[0] in 'PDG' else None
        if t is not None:
            if typed.base(t) not in CURVES: continue
        elif o[0] == 'H':
            if not A.contents(mem, copies, o, ('cp',)): continue
        else: continue
        cps = {x for x, p in A.contents(mem, copies, o, ('cp',))} | D(o, ('cp',))
        vts = set()
        for c in cps: vts |= {x for x, p in A.contents(mem, copies, c, ('vt',))} | D(c, ('vt',))
        for c in list(vts): vts |= {x for x, p in A.contents(mem, copies, c, ('c',)) if x[0] in 'HD'} | D(c, ('c',))
        # splines look alike (cp, vt) but carry a parameter array
        if o[0] == 'H' and any(A.contents(mem, copies, c, ('svals',)) or A.contents(mem, copies, c, ('vt2',)) for c in cps): continue
        out[o] = (vts, cps, ())
    return out

def solve(ctx):
    P, A = ctx.prog, ctx.pta
    summ = {}; sims = {}
    fns = [f for f in P.fns.values()]
    C = {f.key: curves(P, A, f) for f in fns}
    for rnd in range(6):
        chg = False
        for f in fns:
            if not C[f.key] or f.name in FIX: continue
            s = Wrap(A, f, summ, C[f.key]); s.allC = C
            touched = set()
            for i in f.insts():
                if i.op in ('store', 'call'):
                    d, k = s.event(i); touched |= d | k
            if not touched: continue
            s.run()
            # clean at every return even when stale at entry
            s2 = Wrap(A, f, summ, C[f.key]); s2.allC = C; st = frozenset(o for o in touched if o[0] in 'PD')
            s2.init = lambda st=st: st
            s2.run()
            r = (frozenset(s.out), frozenset(st - s2.out))
            if summ.get(f.key) != r: summ[f.key] = r; chg = True
            sims[f.key] = s
        if not chg: break
    return summ, sims, C

def check(ctx):
    P, A = ctx.prog, ctx.pta
    ctx.cov['wrap_rules_recognised'] = [fills(ctx, n) for n in FIX]
    summ, sims, C = solve(ctx)
    # judged: what a header declares, and external functions nobody in the library calls; for the others the state reaches their callers
    hdr = ''
    for h in sorted(glob.glob(os.path.join(REPO, 'src', '*.h'))):
        t = open(h, errors='replace').read()
        hdr += re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', t, flags=re.S)) + '\n'
    decl = set(re.findall(r'\b(\w+)\s*\(', hdr))
    called = set()
    for f in P.fns.values():
        for i in f.insts():
            if i.op == 'call':
                for g in A.targets(f, i, A.state[f.key][0])[0]:
                    if g is not f: called.add(g.key)
    api = sorted(n for n, f in P.defs.items() if n not in FIX and (n in decl or f.key not in called))
    nf = 0
    for n in api:
        f = P.defs.get(n)
        if f is None or f.key not in sims: continue
        s = sims[f.key]; nf += 1
        ctx.ok(len({i for i in s.ev if s.ev[i][0] or s.ev[i][1]}))
        S = A.sum[f.key]
        freed = {o for (o, p) in S.frees}
        bad = {o for o in s.out if o == 'ret' or o not in freed}
        # curves handed out through out-parameters
        for (o, p), ls in S.mem.items():
            if pta.isnonlocal(o):
                bad |= {l[0] for l in ls if l[0] in getattr(s, 'outH', ())}
        for o in bad:
            w = s.done.get(o)
            src = s.why.get(o) or next(iter(s.why.values()), None)
            ctx.violation('%s/%s' % (n, o if o == 'ret' else pta.objstr(o, f)), f.file, src.line if src else f.line, n,
                          'the vertices of %s are changed here and the function returns (line %s) without rebuilding the wraparound vertices' % (
                              'the returned curve' if o == 'ret' or o[0] == 'H' else pta.objstr(o, f), w[0].line if w else '?'))
    ctx.cov['functions_changing_curves'] = nf
    ctx.need(30, 'writes to curves')
