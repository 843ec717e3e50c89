"""Object life cycles: which fields own heap memory, destructors, copies."""
import re
import pta, typed, esp, cfg, loops
from irload import *

# pointer fields that refer to an object owned by somebody else
REFS = {('plc_symmetry_type', 'curve'), ('nplc_constraint_type', 'vect')}

def owned_fields(P, A):
    """(struct, field) -> functions that store a freshly allocated block there"""
    out = {}
    for k, f in P.fns.items():
        pts = A.state[k][0]
        for i in f.insts():
            if i.op != 'store' or getattr(i.ops[0], 'ty', '') != 'ptr': continue
            g = i.ops[1]
            if not (isinstance(g, Inst) and g.op == 'gep' and len(g.ops) >= 3): continue
            t = A._named(g.x, g.ops[0]); last = None
            for ix in g.ops[2:]:
                d = P.types.get(t)
                if d is None: last = None; break
                if d[0] == 'struct':
                    nm = d[1].split('.', 1)[1] if '.' in d[1] else d[1]
                    fs = P.fields.get(nm)
                    last = (nm, fs[ix.v]) if fs else None
                    t = d[2][ix.v]
                else: t = d[2]
            if last and last not in REFS and any(l[0][0] == 'H' and not l[1] for l in A.loc_of(f, pts, i.ops[0])):
                out.setdefault(last, set()).add(f.name)
    return out

def structof(P, t):
    """struct name behind a C type spelling (typedefs resolved by irload)"""
    b = typed.base(t)
    return b if b in P.fields else None

def required(P, owned, sname, prefix, depth=0, seen=()):
    """access paths of the heap blocks owned (transitively) by a struct"""
    out = {}
    fs = P.fields.get(sname)
    if not fs or depth > 5: return out
    for f, t in zip(fs, P.stypes[sname]):
        p = (prefix + '.' + f) if prefix else f
        if (sname, f) in owned:
            n = 0; tt = typed.strip(t); q = p
            while typed.deref(tt) is not None and tt.endswith('*'):
                tt = typed.deref(tt); q += '[]'
                if tt in ('void',): break
                if n == 0 or True: out[q] = (sname, f)
                n += 1
            if typed.strip(t) in ('void *', 'void*'): out[p + '[]'] = (sname, f)
            s2 = structof(P, tt)
            if s2 and (s2, f) not in seen and s2 != sname:
                out.update(required(P, owned, s2, q, depth + 1, seen + ((s2, f),)))
        elif not t.strip().endswith('*'):
            s2 = structof(P, t)
            if s2 and (sname, f) not in REFS: out.update(required(P, owned, s2, p, depth + 1, seen))
    return out


class Dtor(esp.Sim):
    """obligations: locations in the caller's object that have to be released before every return"""
    def __init__(self, A, fn, obl):
        super().__init__(A, fn)
        self.obl = frozenset(obl)
        self.miss = {}
        # loops that release: what they release, and the edges on which the walk is complete
        self.loops = {}; self.itmiss = {}; self.itobl = None
        cnt = {}
        for L in loops.counted(fn):
            cs = [c for c in L.conds if not isinstance(c[2], Const)] or L.conds
            for c in cs: cnt.setdefault(L.header, set()).add(c[3])
        for h, body in cfg.loops(fn).items():
            k = set(); vals = []
            for b in body:
                for i in b.insts:
                    if i.op == 'call':
                        r = self.rel(i)
                        k |= r
            if not k: continue
            exits = [(b, x) for b in body for x in b.succs if x not in body and not self.dead(x)]
            self.loops[h] = (body, frozenset(k), exits, cnt.get(h, set()))

    def dead(self, b):
        seen = {b}; work = [b]
        while work:
            x = work.pop()
            if x.insts[-1].op == 'ret': return False
            for s in x.succs:
                if s not in seen: seen.add(s); work.append(s)
        return True

    def rel(self, i):
        A = self.A
        fs, e = A.targets(self.fn, i, self.pts)
        r = set()
        if e in pta.DEALLOC or e == 'realloc': r |= set(self.objs(i.ops[0]))
        for f in fs:
            m = A.mapcall(self.fn, i)
            for l in A.sum[f.key].frees: r |= m(l)
        return r

    def init(self): return self.obl

    def under(self, ls):
        out = set()
        for l in self.obl:
            o = l[0]
            while True:
                if (o, ()) in ls or o in {x[0] for x in ls if not x[1]}: out.add(l); break
                if o[0] != 'D': break
                o = o[1]
        return out

    def transfer(self, prop, env, i):
        if i.op == 'call':
            r = self.rel(i)
            if r: prop = self.drop(prop, r)
        return ((prop, env),)

    def drop(self, prop, r):
        """obligations of the whole object and of the current round of each loop"""
        return frozenset(x for x in prop if not (x in r or x[0] == 'it' and x[2] in r))

    def onedge(self, prop, env, b, s):
        nul = set()
        for v, a in env.items():
            if a == ('eq', 0) and isinstance(v, (Inst, Arg)) and v.ty == 'ptr': nul |= set(self.objs(v))
        if nul: prop = self.drop(prop, self.under(nul) | nul)
        for h, (body, k, exits, cnt) in self.loops.items():
            if b in body and s is h:
                for x in prop:
                    if x[0] == 'it' and x[1] is h: self.itmiss.setdefault(x[2], (b, None))
            elif b in body and s not in body and (b, s) in exits:
                # the walk ends where the count is reached or the list is at its end
                done = len(exits) == 1 or b in cnt
                if not done and not cnt: done = k <= nul
                if done and not cnt and len(exits) == 1 and self.listwalk(k, b) and not k <= nul: done = False
                if done: prop = self.drop(prop, k)
            if b in body and (s not in body or s is h): prop = frozenset(x for x in prop if not (x[0] == 'it' and x[1] is h))
            if s is h: prop = prop | frozenset(('it', h, l) for l in k if l in (self.obl if self.itobl is None else self.itobl))
        return prop

    def listwalk(self, k, b):
        """a loop along a chain of nodes that tests a pointer"""
        t = b.insts[-1]
        c = t.ops[0] if t.op == 'br' and t.ops else None
        return isinstance(c, Inst) and c.op == 'icmp' and c.ops[0].ty == 'ptr' and isinstance(c.ops[1], Const) and c.ops[1].ck == 'null'

    def onret(self, prop, env, i, val, frm):
        for l in prop:
            if l[0] != 'it': self.miss.setdefault(l, (i, frm))


class NullSim(esp.Sim):
    """destructor called with a null argument (deref=0) or with the address of a null pointer (deref=1)"""
    def __init__(self, A, fn, arg, deref):
        super().__init__(A, fn)
        self.arg, self.deref = fn.params[arg], deref
        self.bad = {}

    def transfer(self, prop, env, i):
        if not env.get('_init'):
            env['_init'] = True
            if self.deref == 0: env[self.arg] = ('eq', 0)
            else:
                env[self.arg] = ('ne', frozenset([0]))
                env[self.memkey(self.arg)] = ('eq', 0)
        if i.op in ('load', 'store'):
            a = i.ops[0] if i.op == 'load' else i.ops[1]
            while isinstance(a, Inst) and a.op in ('gep', 'bitcast'): a = a.ops[0]
            if isinstance(a, (Inst, Arg)) and esp.absval(env, a) == ('eq', 0): self.bad.setdefault(i.id, i)
        elif i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            for f in fs:
                for n, o in enumerate(i.ops):
                    if isinstance(o, (Inst, Arg)) and o.ty == 'ptr' and esp.absval(env, o) == ('eq', 0) and n < len(f.params):
                        if not self.tolerates(f, n): self.bad.setdefault(i.id, i)
        return ((prop, env),)

    def tolerates(self, f, n):
        k = (f.key, n)
        if k in _TOL: return _TOL[k]
        _TOL[k] = True
        s = NullSim(self.A, f, n, 0)
        s.run()
        _TOL[k] = not s.bad
        return _TOL[k]
_TOL = {}


class HandleSim(esp.Sim):
    """is the caller's handle (*arg) null at every return?"""
    def __init__(self, A, fn, arg):
        super().__init__(A, fn)
        self.arg = fn.params[arg]
        self.bad = []
    def calleeval(self, env, i):
        # a callee that is itself a destructor of the same handle
        fs, e = self.A.targets(self.fn, i, self.pts)
        for n, o in enumerate(i.ops):
            if o is self.arg and fs and all(nulls(self.A, f, n) for f in fs): env[self.memkey(self.arg)] = ('eq', 0)
        return None
    def init(self): return False
    def isnull(self, env):
        return env.get(('mem', self.arg, None, ())) == ('eq', 0) or esp.absval(env, self.arg) == ('eq', 0)
    def transfer(self, prop, env, i):
        if i.op == 'store' and i.ops[1] is self.arg and esp.absval(env, i.ops[0]) != ('eq', 0): prop = False
        return ((prop, env),)
    def onedge(self, prop, env, b, s): return True if self.isnull(env) else prop
    def onret(self, prop, env, i, val, frm):
        if prop or self.isnull(env): return
        self.bad.append((i, frm))

_NUL = {}
def nulls(A, f, n):
    k = (f.key, n)
    if k not in _NUL:
        _NUL[k] = False
        if n < len(f.params) and f.params[n].ty == 'ptr':
            s = HandleSim(A, f, n); s.run(); _NUL[k] = not s.bad
    return _NUL[k]
