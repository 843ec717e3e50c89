"""C10: numbers read from files are delivered and range-checked before they are used."""
import re
import esp, pta, typed, cfg
import c08_formats as fm
from esp import Sim, Env, absval, cval, meetenv
from irload import *

META = dict(
    rule='in every function that scans a file or a string: a scanned variable without an initial value is read only where the scan is known to have delivered it; '
         'a scanned integer is compared with a limit before it is used as an array index (both ends), as an allocation size or an argument (lower end of '
         'a signed number), and before a function that stored it in an object scans the next one or returns that object (upper end of an '
         'unsigned, lower end of a signed number)',
    explanation='Property simulation per function: each conversion of each scanf-like call is a source; tags follow casts, arithmetic, copies and stores; '
                'branches that compare a tagged value clear the obligation on the side they establish.',
    assumptions=['a comparison with any limit counts; whether the limit is the right one is not judged'])

CAST = ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi')

def strip(v):
    while isinstance(v, Inst) and v.op in CAST: v = v.ops[0]
    return v

class Scan(Sim):
    def __init__(self, A, fn, scanners, report, helpers, S):
        Sim.__init__(self, A, fn); self.S = S
        self.scanners = scanners; self.report = report; self.helpers = helpers
        self.groups = {}
        self.glocs = {}; self.loopchecks(); self.retphi = self.retphis(); self.indexing = set()
        for i in fn.insts():
            if i.op == 'gep': self.indexing |= {self.counter(o) for o in i.ops[1:]} - {None}
        self.nsrc = set(); self.nuse = set(); self.nidx = set()

    def targets_of(self, i):
        """[(kind, target value, position)] for a scanning call"""
        if not isinstance(i.x, Const): return None
        n = i.x.v
        if n in fm.SCANF:
            k = fm.SCANF[n]
            f = fm.cstrs(self.P, self.fn, i.ops[k])
            if not isinstance(f, set): f = fm.written_text(self.P, self.fn, i.ops[k])
            if not isinstance(f, set) or len(f) != 1: return []
            try: spec = fm.scanf_spec(next(iter(f)))
            except ValueError: return []
            return [(c[0], c[1], t, j) for j, (c, t) in enumerate(zip(spec, i.ops[k + 1:]))]
        if (self.fn.mod.src, n) in self.scanners:
            k, kind, sz = self.scanners[(self.fn.mod.src, n)]
            return [(kind, sz, t, j) for j, t in enumerate(i.ops[k:])]
        return None

    def tgt(self, t):
        """cell key of a scan target"""
        while isinstance(t, Inst) and t.op in ('bitcast',): t = t.ops[0]
        if isinstance(t, Inst) and t.op == 'alloca': return ('cell', t)
        return self.memkey(t)

    def local(self, t):
        while isinstance(t, Inst) and t.op in ('bitcast', 'gep'): t = t.ops[0]
        return isinstance(t, Inst) and t.op == 'alloca'

    def tag(self, env, v, depth=0):
        v0 = v
        v = strip(v)
        if not isinstance(v, Inst) or depth > 6: return None
        g = env.get(('tv', v))
        if g is not None: return g
        if v.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'shl', 'sdiv', 'udiv', 'xor'):
            a = self.tag(env, v.ops[0], depth + 1); b = self.tag(env, v.ops[1], depth + 1)
            if a is not None and b is None and isinstance(v.ops[1], Const): return a
            if b is not None and a is None and isinstance(v.ops[0], Const): return b
            if v.op == 'mul': return a if a is not None else b
        if v.op in ('select', 'phi'):
            for o in (v.ops[1:] if v.op == 'select' else v.ops):
                a = self.tag(env, o, depth + 1)
                if a is not None: return a
        if v.op == 'call' and isinstance(v.x, Const) and v.x.v in ('abs', 'labs', 'llvm.abs.i32'): return self.tag(env, v.ops[0], depth + 1)
        return None

    def init(self): return frozenset()

    def merge(self, a, b):
        # tags may hold, checks must hold (on the paths on which the number exists)
        m = meetenv(a, b)
        def tags(e): return {v for k, v in e.items() if isinstance(k, tuple) and k[0] in ('tv', 'tg')}
        ta, tb = tags(a), tags(b)
        for x, y in ((a, b), (b, a)):
            for k, v in x.items():
                if isinstance(k, tuple) and k[0] in ('tv', 'tg') and k not in y: m[k] = v
        for x, y, t in ((a, b, tb), (b, a, ta)):
            for k, v in x.items():
                if isinstance(k, tuple) and k[0] in ('hi', 'lo') and k not in y and k[1] not in t: m[k] = v
        return m

    def signed(self, g): return g[2]

    def ends(self, g, t):
        """what must be checked before the number is handed out: a signed field both ends, a plain signed number the lower, an unsigned one the upper"""
        if not self.signed(g): return ('hi',)
        return ('lo', 'hi') if field(t) is not None else ('lo',)

    def need(self, env, g, which): return not env.get((which, g))

    def transfer(self, prop, env, i):
        if i.op == 'call':
            ts = self.targets_of(i)
            if ts is not None:
                # a new round of this source: values of the previous round must have been checked
                self.step(env, i); env['_stepped'] = True
                p = set(prop)
                for g in [g for g in p if g[0] is i]:
                    p.discard(g); p.add(('old', g))
                for kind, sz, t, j in ts:
                    key = self.tgt(t)
                    g = (i, j, None)
                    # signedness from the conversion
                    conv = None
                    sg = self.is_signed(i, j)
                    g = (i, j, sg)
                    for w in ('hi', 'lo'): env.pop((w, g), None)
                    for k in [k for k in env if isinstance(k, tuple) and k[0] in ('tv',) and env[k] == g]: env.pop(k)
                    if key is None: continue
                    self.nsrc.add((i, j))
                    env.pop(('tg', key), None)
                    if kind == 'int' and (sz or 4) >= 4:
                        env[('tg', key)] = g
                        self.groups[g] = t
                        if not self.local(t) and not self.argtarget(t) and (sz or 4) == 4 and (field(t) is None or field(t)[0] not in ANYINT):
                            p.add(g); self.glocs.setdefault(g, set()).update(self.objs(t))
                    # delivered?
                    if self.local(t) and key[0] == 'cell':
                        if env.get(('init', key[1])): env.pop(('pend', key), None)
                        else: env[('pend', key)] = (i, j)
                return ((frozenset(p), env),)
            n = i.x.v if isinstance(i.x, Const) else None
            if n and n.startswith('llvm.memcpy') or n == 'memcpy':
                d, s = i.ops[0], i.ops[1]
                while isinstance(d, Inst) and d.op == 'bitcast': d = d.ops[0]
                ks = self.memkey(s)
                if isinstance(d, Inst) and d.op == 'alloca':
                    env[('init', d)] = True
                    if ks is not None:
                        self.step(env, i); env['_stepped'] = True
                        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'tg']:
                            k2 = self.subst(k[1], ks, d)
                            if k2 != k[1]: env[('tg', k2)] = env[k]
                return ((prop, env),)
            alloc = n in ('malloc', 'calloc', 'realloc')
            if alloc or (self.A.targets(self.fn, i, self.pts)[0] and n != 'pd_error'):
                tests = set()
                for f in self.A.targets(self.fn, i, self.pts)[0] or ():
                    if f.internal and f.retty != 'ptr': tests |= self.S.scalars(f)       # a local function that tests its argument
                for j, o in enumerate(i.ops):
                    g = self.tag(env, o)
                    if g is not None and self.signed(g) and j not in tests:
                        self.nuse.add((i, g))
                        if self.need(env, g, 'lo'): self.report('arg', g, None, self.fn, i)
                    if g is not None and alloc: prop = self.sanit(prop, env, g, ('hi',))     # the array has the size the number asks for
            prop = self.callcheck(prop, i)
            # helper that scans into its own out-parameters
            for (j, cleared) in self.helpers.get(n, ()):
                if j < len(i.ops):
                    key = self.tgt(i.ops[j])
                    if key is not None:
                        self.step(env, i); env['_stepped'] = True
                        g = (i, j, True)
                        for w in ('hi', 'lo'):
                            env.pop((w, g), None)
                            if cleared: env[(w, g)] = True
                        env[('tg', key)] = g; self.groups[g] = i.ops[j]
            # a local handed to another function counts as assigned
            if ts is None:
                for o in i.ops:
                    if isinstance(o, Inst) and o.op == 'alloca' and not (n or '').startswith('llvm.'): env[('init', o)] = True; env.pop(('pend', ('cell', o)), None)
        elif i.op == 'store':
            a = i.ops[1]
            if isinstance(a, Const) and a.ck == 'global' and a.v.endswith('error_num'):
                c = cval(i.ops[0])
                prop = (prop - {('fail',)}) | ({('fail',)} if c else frozenset())
            if isinstance(a, Inst) and a.op == 'alloca':
                env[('init', a)] = True; env.pop(('pend', ('cell', a)), None)
            key = self.tgt(a)
            g = self.tag(env, i.ops[0])
            if key is not None:
                env.pop(('tg', key), None)
                if g is not None: env[('tg', key)] = g
            if g is not None and not self.local(a) and i.ops[0].ty == 'i32' and (field(a) is None or field(a)[0] not in ANYINT):
                self.nuse.add((i, g))
                if any(self.need(env, g, w) for w in self.ends(g, a)):
                    prop = prop | {g}; self.groups[g] = a; self.glocs.setdefault(g, set()).update(self.objs(a))
        elif i.op == 'load':
            key = self.tgt(i.ops[0])
            env.pop(('tv', i), None)
            if key is not None:
                g = env.get(('tg', key))
                if g is None and i.ty == 'i32' and not self.local(i.ops[0]): g = self.weak(prop, i.ops[0])
                if g is not None: env[('tv', i)] = g
                pd = env.get(('pend', key))
                if pd is not None:
                    c, j = pd
                    self.nuse.add((i, 'delivered'))
                    v = absval(env, c)
                    lo = env.get(('min', c))
                    if not ((v is not None and v[0] == 'eq' and v[1] > j) or (lo is not None and lo > j)):
                        self.report('pend', (c, j, None), i.ops[0], self.fn, i)
                        env.pop(('pend', key), None)
        elif i.op == 'gep':
            for o in i.ops[1:]:
                g = self.tag(env, o)
                if g is not None:
                    self.nidx.add((i, g))
                    if self.need(env, g, 'hi') or (self.signed(g) and self.need(env, g, 'lo')): self.report('index', g, None, self.fn, i)
        elif i.op == 'phi': pass
        return ((prop, env),)

    def weak(self, prop, ptr):
        """an unchecked number that may lie where ptr points"""
        if not prop: return None
        ls = self.objs(ptr)
        for g in prop:
            if g[0] in ('ret', 'fail'): continue
            g0 = g[1] if g[0] == 'old' else g
            if overlap(self.glocs.get(g0, ()), ls): return g0
        return None

    def loopchecks(self):
        """loops with the locations whose contents every iteration compares, and the ends this establishes"""
        self.lc = []
        for h, body in cfg.loops(self.fn).items():
            ls = {}
            for b in body:
                t = b.insts[-1]
                if t.op == 'br' and t.ops and len(b.succs) == 2:
                    stay = [s in body for s in b.succs]
                    for l, w in ends_of(self.A, self.fn, self.pts, t.ops[0], None if all(stay) else stay[0]):
                        ls.setdefault(l, set()).update(w)
            if ls: self.lc.append((h, body, ls))

    def cellocs(self, k):
        while isinstance(k, tuple) and len(k) > 1 and k[0] in ('mem', 'cell'): k = k[1]
        return {(('A', self.fn.key, k.id), ())} if isinstance(k, Inst) and k.op == 'alloca' else set()

    def counter(self, v):
        v = strip(v)
        while isinstance(v, Inst) and v.op in ('add', 'sub') and isinstance(v.ops[1], Const): v = strip(v.ops[0])
        if isinstance(v, Inst) and v.op == 'phi':
            for o in v.ops:
                o = strip(o)
                if isinstance(o, Inst) and o.op in ('add', 'sub') and strip(o.ops[0]) is v: return v
        return None

    def validated(self, prop, env, c):
        if c.ty == 'ptr': return prop
        fs, e = self.A.targets(self.fn, c, self.pts)
        for g in fs or ():
            for j in self.S.scalars(g):
                t = self.tag(env, c.ops[j]) if j < len(c.ops) else None
                if t is not None: prop = self.sanit(prop, env, t, ('hi', 'lo'))
            ls = self.S.compares(g)
            if ls:
                m = self.A.mapcall(self.fn, c); ml = set()
                for l in ls: ml |= m(l)
                prop = self.cleared(prop, ml)
                for k in [k for k in env if isinstance(k, tuple) and k[0] == 'tg']:
                    kl = self.klocs.get(k[1]) or self.cellocs(k[1])
                    if overlap(kl, ml): prop = self.sanit(prop, env, env[k], ('hi', 'lo'))
        return prop

    def callcheck(self, prop, i):
        """a local function that compares what lies at a location has checked it"""
        if not prop: return prop
        fs, e = self.A.targets(self.fn, i, self.pts)
        for g in fs or ():
            m = self.A.mapcall(self.fn, i)
            ul = set()
            for l in self.S.indexes(g): ul |= m(l)
            if ul:
                self.nuse.add((i, 'callee'))
                for x in prop:
                    if x[0] in ('ret', 'fail'): continue
                    g0 = x[1] if x[0] == 'old' else x
                    if overlap(self.glocs.get(g0, ()), ul): self.report('call', g0, g, self.fn, i)
            if not g.internal: continue
            ls = self.S.compares(g, False); ml = set()
            for l in ls: ml |= m(l)
            if ml: prop = self.cleared(prop, ml)
        return prop

    def cleared2(self, prop, env, ls):
        for x in list(prop):
            if x[0] in ('ret', 'fail'): continue
            g = x[1] if x[0] == 'old' else x
            got = set()
            for l, w in ls.items():
                if overlap(self.glocs.get(g, ()), [l]): got |= w
            for w in got: env[(w, x)] = True
            if all(env.get((w, x)) for w in self.ends(g, self.groups[g])): prop = prop - {x}
        return prop

    def cleared(self, prop, ls):
        return frozenset(g for g in prop if g[0] in ('ret', 'fail') or not overlap(self.glocs.get(g[1] if g[0] == 'old' else g, ()), ls))

    def is_signed(self, i, j):
        n = i.x.v
        if n in fm.SCANF:
            f = fm.cstrs(self.P, self.fn, i.ops[fm.SCANF[n]])
            if not isinstance(f, set): f = fm.written_text(self.P, self.fn, i.ops[fm.SCANF[n]])
            try: return fm.scanf_spec(next(iter(f)))[j][3][-1] in 'di'
            except (ValueError, IndexError, StopIteration, TypeError): return True
        return True

    def argtarget(self, t):
        if not self.fn.internal: return False
        while isinstance(t, Inst) and t.op in ('bitcast', 'gep'): t = t.ops[0]
        return isinstance(t, Arg) or (isinstance(t, Inst) and t.op == 'load')

    def subst(self, k, old, new):
        if k == old: return new
        if isinstance(k, tuple): return tuple(self.subst(x, old, new) for x in k)
        return k

    def onedge(self, prop, env, b, s):
        for h, body, ls in self.lc:
            if b in body and s not in body and prop: prop = self.cleared2(prop, env, ls)
        t = b.insts[-1]
        if t.op == 'switch':
            g = self.tag(env, t.ops[0])
            v = absval(env, t.ops[0])
            if g is not None and v is not None and v[0] == 'eq': return self.sanit(prop, env, g, ('hi', 'lo'))
            return prop
        if t.op != 'br' or len(b.succs) != 2 or b.succs[0] is b.succs[1]: return prop
        return self.cond(prop, env, t.ops[0], b.succs[0] is s)

    def cond(self, prop, env, c, truth):
        while isinstance(c, Inst) and c.op in ('xor', 'trunc', 'zext', 'freeze'):
            if c.op == 'xor':
                if cval(c.ops[1]) in (1, -1): truth = not truth
                else: return prop
            c = c.ops[0]
        if isinstance(c, Inst) and c.op == 'icmp' and c.x in ('eq', 'ne') and cval(c.ops[1]) == 0 and isinstance(strip(c.ops[0]), Inst) and strip(c.ops[0]).op == 'call':
            # a function that validates an object, and what it said
            if truth == (c.x == 'ne'): prop = self.validated(prop, env, strip(c.ops[0]))
        if isinstance(c, Inst) and c.op == 'call' and truth: return self.validated(prop, env, c)
        if not isinstance(c, Inst) or c.op not in ('icmp', 'fcmp'): return prop
        p = c.x
        if c.op == 'fcmp': p = {'olt': 'slt', 'ole': 'sle', 'ogt': 'sgt', 'oge': 'sge', 'oeq': 'eq', 'une': 'ne', 'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(str(p), None)
        if p is None: return prop
        if not truth: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
        for x, y, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
            q = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p) if sw else p
            g = self.tag(env, x)
            iv = self.counter(y)
            if g is not None and iv is not None:
                # the bound of a loop, not a check
                if iv in self.indexing and q not in ('eq',):
                    self.nidx.add((c, g))
                    if self.need(env, g, 'hi'): self.report('bound', g, None, self.fn, c)
                g = None
            if g is not None:
                fs = {'slt': ('hi',), 'sle': ('hi',), 'sgt': ('lo',), 'sge': ('lo',), 'ult': ('hi', 'lo'), 'ule': ('hi', 'lo'), 'eq': ('hi', 'lo')}.get(q, ())
                if q == 'ne' and cval(y) == 0 and not self.signed(g): fs = ('lo',)
                prop = self.sanit(prop, env, g, fs)
            sv = strip(x); k = cval(y)
            if isinstance(sv, Inst) and sv.op == 'call' and k is not None:
                lo = {'sgt': k + 1, 'sge': k, 'eq': k, 'ugt': k + 1, 'uge': k}.get(q)
                if lo is not None: env[('min', sv)] = max(lo, env.get(('min', sv), lo))
        return prop

    def sanit(self, prop, env, g, fs):
        for f in fs: env[(f, g)] = True
        if g in prop and all(env.get((w, g)) for w in self.ends(g, self.groups[g])): prop = prop - {g}
        return prop

    def phis(self, prop, env, b, s, new):
        tags = {}
        for i, (v, o) in new.items():
            tags[i] = self.tag(env, o)
        ch = [i for i in new if i in self.retphi]
        if ch:
            p = set(x for x in prop if not (x[0] == 'ret' and x[1] in ch))
            for i in ch:
                v = new[i][0]
                if v is not None and v[0] == 'eq' and v[1] <= 0: p.add(('ret', i))
            env['_prop'] = frozenset(p)
        for i, g in tags.items():
            env.pop(('tv', i), None)
            if g is not None: env[('tv', i)] = g
        return True

    def onret(self, prop, env, i, val, frm):
        v = absval(env, val) if val is not None else None
        if v == ('eq', 0) or (v is not None and v[0] == 'eq' and v[1] < 0): return
        if any(g[0] == 'fail' for g in prop): return
        for g in prop:
            if g[0] == 'ret': continue
            if g[0] == 'old': g = g[1]
            self.report('ret', g, self.groups[g], self.fn, i)

def overlap(a, b):
    for (o, p) in a:
        for (o2, p2) in b:
            if o == o2 and (p[:len(p2)] == p2 or p2[:len(p)] == p): return True
    return False

class Summ:
    """what a function compares and what it indexes with, as locations of its own parameters"""
    def __init__(self, A): self.A = A; self.c = {}; self.u = {}

    def compares(self, f, eq=True):
        k = (f.key, eq)
        if k in self.c: return self.c[k]
        self.c[k] = set()
        pts = self.A.state[f.key][0]; r = set()
        if eq:
            for i in f.insts():
                if i.op == 'icmp': r |= compared(self.A, f, pts, i, True)
        else:
            for b in f.blocks:
                t = b.insts[-1]
                if t.op == 'br' and t.ops: r |= compared(self.A, f, pts, t.ops[0], eq)
        if eq:
            for i in f.insts():
                if i.op == 'call' and i.ty in ('i1', 'i8', 'i32'):
                    m = None
                    for g in self.A.targets(f, i, pts)[0] or ():
                        if m is None: m = self.A.mapcall(f, i)
                        for l in self.compares(g): r |= m(l)
        self.c[k] = r
        return r

    def scalars(self, f):
        """parameters that are compared with something in f or a function it hands them to"""
        k = ('s', f.key)
        if k in self.c: return self.c[k]
        self.c[k] = set(); r = set()
        for i in f.insts():
            if i.op in ('icmp', 'fcmp'): r |= {strip(o).idx for o in i.ops if isinstance(strip(o), Arg)}
            elif i.op == 'call':
                for g in self.A.targets(f, i, self.A.state[f.key][0])[0] or ():
                    r |= {strip(o).idx for j, o in enumerate(i.ops) if isinstance(strip(o), Arg) and j in self.scalars(g)}
        self.c[k] = r
        return r

    def indexes(self, f):
        if f.key in self.u: return self.u[f.key]
        self.u[f.key] = set()
        pts = self.A.state[f.key][0]; r = set()
        own = set()
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br' and t.ops: own |= compared(self.A, f, pts, t.ops[0], True)
        for i in f.insts():
            if i.op == 'gep':
                for o in i.ops[1:]:
                    o = strip(o)
                    while isinstance(o, Inst) and o.op in ('add', 'sub') and isinstance(o.ops[1], Const): o = strip(o.ops[0])
                    if isinstance(o, Inst) and o.op == 'load' and o.ty == 'i32':
                        r |= {l for l in self.A.loc_of(f, pts, o.ops[0]) if l[0][0] == 'P' or l[0][0] == 'D'}
            elif i.op == 'call':
                m = None
                for g in self.A.targets(f, i, pts)[0] or ():
                    if m is None: m = self.A.mapcall(f, i)
                    for l in self.indexes(g): r |= m(l)
        self.u[f.key] = r = {l for l in r if not overlap([l], own)}
        return r

def field(p):
    """(structure type, field number) a pointer selects, None for a plain number or array element"""
    while isinstance(p, Inst) and p.op in ('bitcast', 'gep'):
        if p.op == 'gep' and 'struct' in str(p.x) and len(p.ops) > 2 and not str(p.x).startswith('['): return (str(p.x), cval(p.ops[2]))
        p = p.ops[0]
    return None

ANYINT = ('%struct.monomial_struct',)      # coefficients and exponents: any integer is valid

def ends_of(A, fn, pts, c, truth):
    """[(location, ends)] that a branch establishes when it goes on with the given truth (None: not known)"""
    while isinstance(c, Inst) and c.op in ('xor', 'trunc', 'zext', 'freeze'):
        if c.op == 'xor' and truth is not None: truth = not truth
        c = c.ops[0]
    if not isinstance(c, Inst): return []
    if c.op == 'phi': return [(l, {'hi', 'lo'}) for l in compared(A, fn, pts, c)]
    if c.op != 'icmp': return []
    out = []
    for k, o in enumerate(c.ops):
        ls = compared_op(A, fn, pts, o)
        if not ls: continue
        p = c.x
        if truth is None: w = {'hi', 'lo'} if p not in ('eq', 'ne') else set()
        else:
            if not truth: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            if k == 1: p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            w = {'slt': {'hi'}, 'sle': {'hi'}, 'sgt': {'lo'}, 'sge': {'lo'}, 'ult': {'hi', 'lo'}, 'ule': {'hi', 'lo'}, 'eq': {'hi', 'lo'}}.get(p, set())
        out += [(l, w) for l in ls if w]
    return out

def compared_op(A, fn, pts, o):
    o = strip(o)
    while isinstance(o, Inst) and o.op in ('add', 'sub') and isinstance(o.ops[1], Const): o = strip(o.ops[0])
    if isinstance(o, Inst) and o.op == 'load' and o.ty == 'i32': return {l for l in A.loc_of(fn, pts, o.ops[0]) if l[0][0] != 'A'}
    return set()

def compared(A, fn, pts, c, eq=False):
    """memory locations an integer comparison looks at"""
    while isinstance(c, Inst) and c.op in ('xor', 'trunc', 'zext', 'freeze'): c = c.ops[0]
    if not isinstance(c, Inst): return set()
    if c.op == 'phi':
        r = set()
        for o in c.ops:
            if isinstance(o, Inst) and o.op in ('icmp', 'fcmp'): r |= compared(A, fn, pts, o, eq)
        return r
    if c.op not in ('icmp', 'fcmp') or (c.x in ('ne', 'eq') and not eq): return set()
    r = set()
    for o in c.ops:
        o = strip(o)
        while isinstance(o, Inst) and o.op in ('add', 'sub') and isinstance(o.ops[1], Const): o = strip(o.ops[0])
        if isinstance(o, Inst) and o.op == 'load' and o.ty == 'i32': r |= {l for l in A.loc_of(fn, pts, o.ops[0]) if l[0][0] != 'A'}
    return r

def strip_all(v): return strip(v)
def direct(v):
    """the value itself (not something computed from it by loss of information)"""
    return True

def initialised(fn, t, call):
    """a local that has been assigned before the scan: the scan may leave it alone"""
    while isinstance(t, Inst) and t.op in ('bitcast', 'gep'): t = t.ops[0]
    return any(i.op == 'store' and i.ops[1] is t and cfg.dominates(fn, i.bb, call.bb) for i in fn.insts())

def uses(fn):
    u = {}
    for i in fn.insts():
        for o in i.ops:
            if isinstance(o, Inst): u.setdefault(o, []).append(i)
    return u

def result_checked(fn, i, n, U):
    """the result of a scanning call is compared so that fewer than n delivered values are noticed; it may be carried by casts, phis, selects,
    arithmetic, a local or the function's own result"""
    seen = set(); w = [i]
    while w:
        v = w.pop()
        if v in seen: continue
        seen.add(v)
        for u in U.get(v, ()):
            if u.op == 'icmp':
                k = next((cval(o) for o in u.ops if cval(o) is not None), None)
                if k is None: return True                       # compared with a computed count
                if v is not i and not carries(v, i): return True
                if k >= 1 or (n == 1 and k == 0 and u.x not in ('eq', 'ne', 'slt', 'sge')): return True
            elif u.op == 'switch': return True
            elif u.op == 'ret': return True
            elif u.op == 'store' and u.ops[0] is v:
                a = u.ops[1]
                if isinstance(a, Inst) and a.op == 'alloca':
                    for l in fn.insts():
                        if l.op == 'load' and l.ops[0] is a: w.append(l)
                else: return True
            elif u.op == 'call': return True
            elif u.op in ('br', 'store'): pass
            else: w.append(u)
    return False

def carries(v, i):
    return v.op in CAST + ('phi', 'load', 'select')

def growing(A, fn, sim):
    """(gep, loop) where a counter indexes an array and no branch of its loop looks at the counter"""
    L = cfg.loops(fn)
    n = 0; bad = []
    calls = {}
    for h, body in L.items():
        reads = [i for b in body for i in b.insts if i.op == 'call' and isinstance(i.x, Const) and (i.x.v in fm.SCANF or i.x.v in INPUT)]
        if not reads: continue
        for b in body:
            for i in b.insts:
                if i.op != 'gep': continue
                for o in i.ops[1:]:
                    c = sim.counter(o)
                    if c is None or c.bb is not h: continue
                    n += 1
                    fam = family(c, body)
                    ok = False
                    for b2 in body:
                        for j in b2.insts:
                            if j.op == 'icmp' and any(strip(x) in fam for x in j.ops): ok = True
                            if j.op == 'call' and any(isinstance(x, Inst) and strip(x) in fam for x in j.ops) and not (isinstance(j.x, Const) and (j.x.v.startswith('llvm.') or j.x.v in QUIET)): ok = True
                    if not ok: bad.append((i, h))
    return n, bad

QUIET = {'printf', 'fprintf', 'sprintf', 'snprintf'}
INPUT = {'fgets', 'fgetc', 'getc', 'getline', 'fread', '_IO_getc'}

def family(c, body):
    """values that move with the counter"""
    f = {c}; ch = True
    while ch:
        ch = False
        for b in body:
            for i in b.insts:
                if i not in f and i.op in ('add', 'sub', 'phi', 'sext', 'zext', 'trunc', 'sitofp', 'mul', 'udiv', 'urem', 'sdiv', 'srem') and any(strip(o) in f for o in i.ops if isinstance(o, Inst)):
                    f.add(i); ch = True
    return f

def scanners(P):
    """variadic functions of a module that scan one number per variadic argument"""
    out = {}
    for f in P.fns.values():
        if not f.vararg: continue
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, Const) and i.x.v in ('fscanf', '__isoc99_fscanf', 'sscanf', '__isoc99_sscanf'):
                s = fm.cstrs(P, f, i.ops[1])
                if isinstance(s, set) and len(s) == 1:
                    sp = fm.scanf_spec(next(iter(s)))
                    if len(sp) == 1: out[(f.mod.src, f.name)] = (len(f.params), sp[0][0], sp[0][1])
    return out

def outhelpers(P, sc):
    """name -> [(parameter index scanned into, compared in the function)]"""
    out = {}
    for f in P.fns.values():
        if not f.internal: continue
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, Const) and (i.x.v in fm.SCANF or (f.mod.src, i.x.v) in sc):
                for o in i.ops:
                    if isinstance(o, Arg) and o.ty == 'ptr':
                        ty = typed.ptypes(P, f).get(o.idx)
                        if ty and typed.strip(ty) in ('int*', 'unsigned int*', 'unsigned long*', 'long*'):
                            loads = {j for j in f.insts() if j.op == 'load' and j.ops[0] is o}
                            cmpd = any(j.op == 'icmp' and any(strip(x) in loads for x in j.ops) for j in f.insts())
                            out.setdefault(f.name, []).append((o.idx, cmpd))
    return out

def check(ctx):
    P, A = ctx.prog, ctx.pta
    sc = scanners(P); hp = outhelpers(P, sc); S = Summ(A)
    nf = nsrc = nuse = nidx = 0
    for f in P.fns.values():
        has = any(i.op == 'call' and isinstance(i.x, Const) and (i.x.v in fm.SCANF or (f.mod.src, i.x.v) in sc or i.x.v in hp) for i in f.insts())
        if not has or (f.mod.src, f.name) in sc: continue
        seen = set()
        def report(kind, g, t, fn, i):
            key = (kind, g[0], g[1], i if kind != 'ret' else None)
            if key in seen: return
            seen.add(key)
            src = 'number %d scanned in line %d' % (g[1] + 1, g[0].line)
            msg = {'store': 'the %s is stored and the next one scanned without a range check' % src,
                   'ret': 'the %s is stored in an object that is handed out without a range check' % src,
                   'call': 'the %s is handed, unchecked, to %s, which uses it as an index' % (src, t.name if t is not None and hasattr(t, 'name') else ''),
                   'bound': 'the %s bounds a loop over an array without a check of its upper end' % src,
                   'arg': 'the %s is used as a size or argument without a check of its lower end' % src,
                   'index': 'the %s is used as an index without a check of both ends' % src,
                   'pend': 'variable %d of the scan in line %d is read although the scan may not have delivered it' % (g[1] + 1, g[0].line)}[kind]
            ctx.violation('%s/%s/%s' % (fn.name, kind, g[1]), fn.file, i.line, fn.name, msg)
        s = Scan(A, f, sc, report, hp, S).run()
        U = uses(f); nres = 0
        for i in f.insts():
            if i.op != 'call': continue
            ts = s.targets_of(i)
            if not ts: continue
            if all(s.local(t) and initialised(f, t, i) for k, sz, t, j in ts): continue
            nres += 1
            if not result_checked(f, i, len(ts), U):
                ctx.violation('%s/unchecked/%d' % (f.name, len(ts)), f.file, i.line, f.name, 'whether the scan delivered its %d values is not looked at' % len(ts))
        ng, bad = growing(A, f, s)
        for g, h in bad:
            ctx.violation('%s/growing/' % f.name, f.file, g.line, f.name, 'the index of this array grows with the input and its loop does not compare it with any limit')
        ctx.ok(nres + ng)
        nf += 1; nsrc += len(s.nsrc); nuse += len(s.nuse); nidx += len(s.nidx)
        ctx.ok(len(s.nsrc) + len(s.nuse) + len(s.nidx))
        ctx.sample('%s: %d scanned variables, %d uses, %d index uses' % (f.name, len(s.nsrc), len(s.nuse), len(s.nidx)))
    ctx.cov.update(functions_that_scan=nf, scanned_variables=nsrc, checked_uses=nuse, index_uses=nidx, scan_helpers=sorted(map(str, sc)))
    ctx.need(40, 'scanned variables')
