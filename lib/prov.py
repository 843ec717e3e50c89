"""Field provenance: which part of which object a value was read from, and where it is stored."""
import re
import cfg, loops, bounds
from irload import *

ALLOC = ('malloc', 'calloc', 'realloc')
CASTS = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'fpext', 'fptrunc')

def nm(s):
    s = s.lstrip('%')
    return s[7:] if s.startswith('struct.') else s

class Prov:
    def __init__(self, P, fn, B, src, copiers):
        self.P, self.fn, self.B, self.src, self.copiers = P, fn, B, src, copiers
        self.pc = {}; self.busy = set()
        self.rets = [i for i in fn.insts() if i.op == 'ret' and i.ops]
        self.hstore = {}
        for i in fn.insts():
            if i.op == 'store' and i.ops[0].ty == 'ptr' and isinstance(i.ops[0], Inst): self.hstore.setdefault(self.strip(i.ops[0]), []).append(i)

    def strip(self, v):
        while isinstance(v, Inst) and v.op == 'bitcast': v = v.ops[0]
        return v

    def callee(self, i):
        return i.x.v if getattr(i.x, 'ck', None) == 'func' else None

    # ------------------------------------------------------------ addresses
    def path(self, v):
        """(root, steps) of a pointer value; root: ('arg', k), ('heap', call), ('loc', alloca) or None"""
        if v in self.pc: return self.pc[v]
        if v in self.busy: return ('rec', v), ()
        ph = isinstance(v, Inst) and v.op == 'phi'
        if ph: self.busy.add(v)
        r = self._path(v)
        if ph: self.busy.discard(v)
        if not self.busy or r is not None and r[0][0] != 'rec': self.pc[v] = r
        return r

    def _path(self, v):
        if isinstance(v, Arg): return ('arg', v.idx), ()
        if isinstance(v, Const): return (('null',), ()) if v.ck == 'null' else None
        if not isinstance(v, Inst): return None
        if v.op == 'alloca': return ('loc', v), ()
        if v.op == 'bitcast': return self.path(v.ops[0])
        if v.op == 'call': return ('heap', v), ()
        if v.op == 'load':
            return self.acc(v.ops[0])
        if v.op == 'gep':
            p = self.path(v.ops[0])
            if p is None: return None
            steps = list(p[1]); t = v.x
            for k, o in enumerate(v.ops[1:]):
                if k == 0:
                    if isinstance(o, Const) and o.v == 0: continue
                    if steps and isinstance(steps[-1], tuple) and self.isindex(v.ops[0]): steps[-1] = ('i', bounds.ladd(steps[-1][1], self.B.lin(o)))
                    else: steps.append(('i', self.B.lin(o)))
                else:
                    ty = self.P.types[t]
                    if ty[0] == 'struct':
                        names = self.P.fields.get(nm(t))
                        steps.append(names[o.v] if names and o.v < len(names) else 'f%d' % o.v); t = ty[2][o.v]
                    else: steps.append(('i', self.B.lin(o))); t = ty[2]
            return p[0], tuple(steps)
        if v.op == 'phi':
            ps = [self.path(o) for o in v.ops]
            if any(p is None for p in ps): return None
            # the node just linked behind (or through) this pointer
            for k, p in enumerate(ps):
                if p[0][0] != 'heap': continue
                for st in self.hstore.get(p[0][1], ()):
                    q = self.path(st.ops[1])
                    if q is not None and q[0] == ('rec', v) and set(q[1] + p[1]) <= {'next', '~'}: ps[k] = q
            base = [p for p in ps if p[0] != ('rec', v)]
            rec = [p for p in ps if p[0] == ('rec', v)]
            if any(isinstance(x, tuple) for p in rec for x in p[1]): return None      # a moving pointer
            bs = set(base)
            if len(bs) > 1: bs = {p for p in bs if p[0] != ('null',)}
            if len(bs) > 1:
                # first node, then the nodes after it
                short = min(bs, key=lambda p: len(p[1]))
                if all(p[0] == short[0] and set(p[1][len(short[1]):]) <= {'next', '~'} and p[1][:len(short[1])] == short[1] for p in bs): bs = {short}; rec = rec or [1]
            if len(bs) != 1: return None
            b = bs.pop()
            if rec: return b[0], b[1] + ('~',)
            return b
        if v.op == 'select':
            ps = {self.path(o) for o in v.ops[1:]}
            return ps.pop() if len(ps) == 1 else None
        return None

    def acc(self, a):
        """path read or written through address a: an access at the start of a structure is one to its first member"""
        p = self.path(a)
        if p is None or p[0][0] not in ('arg', 'heap') or self.rtype is None: return p
        if p[0][0] == 'arg' and p[0][1] != self.src: return p
        q = self.norm(p) if p[0][0] == 'arg' else self.own(p)
        if q is None: return p
        t = self.ctype(q[1])
        if t is None: return p
        while isinstance(a, Inst) and a.op == 'bitcast': a = a.ops[0]
        field = self.isfield(a, set())
        if not field and not (isinstance(a, Inst) and a.op == 'gep'):
            if not t.endswith('*') and not t.endswith('[]'): return p if not q[1] or q[1][-1] != '~' else p
            t = t[:-1] if t.endswith('*') else t[:-2]
        steps = p[1]
        while True:
            b = re.sub(r'^(const )?(struct|union) ', '', t)
            fl = self.P.fields.get(b)
            if t.endswith(('*', '[]')) or not fl or fl[0] == '?': break
            steps = steps + (fl[0],); t = self.P.stypes[b][0]
            if t.endswith('[]'): steps = steps + (('i', bounds.lconst(0)),); t = t[:-2]
        return p[0], steps

    def isindex(self, a):
        """the address of an array element"""
        while isinstance(a, Inst) and a.op == 'bitcast': a = a.ops[0]
        return isinstance(a, Inst) and a.op == 'gep' and not self.isfield(a, set())

    def isfield(self, a, seen):
        """the address of a member (not a pointer read from somewhere)"""
        if not isinstance(a, Inst) or a in seen: return False
        seen.add(a)
        if a.op == 'gep': return len(a.ops) > 2 and self.P.types[self.gtype(a)][0] == 'struct'
        return a.op in ('phi', 'select', 'bitcast') and any(self.isfield(o, seen) for o in a.ops)

    def gtype(self, g):
        """aggregate the last index of a gep selects from"""
        t = g.x
        for o in g.ops[2:-1]:
            ty = self.P.types[t]
            t = ty[2][o.v] if ty[0] == 'struct' else ty[2]
        return t

    def ctype(self, steps):
        """C type of the part"""
        t = self.rtype
        for s in steps:
            if s == '~': continue
            if isinstance(s, tuple):
                if t.endswith('[]'): t = t[:-2]
                elif t.endswith('*'): t = t[:-1]
                else: return None
            else:
                b = re.sub(r'^(const )?(struct|union) ', '', t.rstrip('*[] '))
                fl = self.P.fields.get(b)
                if not fl or s not in fl: return None
                t = self.P.stypes[b][fl.index(s)]
        return t

    rtype = None

    def norm(self, p):
        """list steps folded: x.next, x~ and x~.next are nodes of the list x"""
        out = []
        for s in p[1]:
            if s == '~' or s == 'next':
                if out and out[-1] == '~': continue
                out.append('~'); continue
            out.append(s)
        return p[0], tuple(out)

    # ------------------------------------------------------------ values
    def value(self, v, depth=0):
        """path the (scalar or pointer) value was read from; ('copy', path) for the result of a copy function"""
        while isinstance(v, Inst) and v.op in CASTS: v = v.ops[0]
        if depth > 5: return None
        if isinstance(v, Inst) and v.op in ('icmp',) and isinstance(v.ops[1], Const) and v.ops[1].v == 0 and v.x == 'ne': return self.value(v.ops[0], depth + 1)
        if isinstance(v, Inst) and v.op == 'load':
            p = self.acc(v.ops[0])
            if p is None: return None
            if p[0][0] == 'arg': return self.norm(p)
            return self.through(p, v, depth)
        if isinstance(v, Inst) and v.op == 'call':
            n = self.callee(v)
            if n in self.copiers or n is None:
                a = v.ops[0] if v.ops else None
                if a is not None and a.ty == 'ptr':
                    p = self.value(a, depth + 1) if isinstance(a, Inst) and a.op == 'load' else self.path(a)
                    if p is not None: return ('copy', p)
            return None
        if isinstance(v, (Inst, Arg)) and v.ty == 'ptr': 
            p = self.path(v)
            return self.norm(p) if p else None
        if isinstance(v, Inst) and v.op == 'phi':
            r = {self.value(o, depth + 1) for o in v.ops}
            return r.pop() if len(r) == 1 else None
        return None

    def through(self, p, at, depth):
        """a value kept in local memory: what was stored there"""
        root, steps = p
        own = self.own(p)
        if own is not None and own[0] == ('ret',): p = own; root = own[0]; steps = own[1]
        hits = []
        for i in self.fn.insts():
            if i.op == 'store':
                q = self.acc(i.ops[1])
                if q is None: continue
                o = self.own(q)
                if o is not None and o[0] == ('ret',): q = o
                if q[0] == root and shape(q[1]) == shape(steps): hits.append((i, q, None))
            elif i.op == 'call' and (self.callee(i) or '').startswith(('llvm.memcpy', 'memcpy')):
                q = self.path(i.ops[0])
                if q is not None and q[0] == root and shape(q[1]) == shape(steps)[:len(q[1])]: hits.append((i, q, i.ops[1]))
        hits = [h for h in hits if not (isinstance(h[0].ops[0], Const) and h[0].op == 'store' and not h[0].ops[0].ck == 'fp' and self.before(h[0], at, hits))]
        if len(hits) != 1: return ('ret',) == root and (root, steps) or None
        i, q, s = hits[0]
        if s is not None:
            sp = self.path(s)
            return (sp[0], sp[1] + steps[len(q[1]):]) if sp else None
        r = self.value(i.ops[0], depth + 1)
        if r is None: return (root, steps) if root == ('ret',) else None
        sub = {}
        for a, b in zip(q[1], steps):
            if isinstance(a, tuple) and a != b:
                if len(a[1][0]) == 1 and a[1][1] == 0 and a[1][0][0][1] == 1: sub[a[1][0][0][0]] = b[1]; self.fills.append((i, a[1], b[1]))
                else: return None
        def rep(st): return tuple(('i', lsub(x[1], sub)) if isinstance(x, tuple) else x for x in st)
        return ('copy', (r[1][0], rep(r[1][1]))) if r[0] == 'copy' else (r[0], rep(r[1]))

    fills = []

    def before(self, i, at, hits):
        """store i is an initial value overwritten before `at` is reached"""
        return any(h[0] is not i and cfg.inst_dom(self.fn, i, h[0]) for h in hits)

    # ------------------------------------------------------------ the result
    def own(self, p, depth=0):
        """path inside the returned object: roots that are, or were stored in, the returned object"""
        if p is None or p[0] is None: return None
        root = p[0]
        if root[0] != 'heap' or depth > 4: return None
        if root[1] in self.results(): return ('ret',), self.norm(p)[1]
        for s in self.hstore.get(root[1], ()):
            q = self.acc(s.ops[1])
            if q is None: continue
            o = self.own(q, depth + 1)
            if o is not None: return self.norm((('ret',), o[1] + p[1]))
        return None

    def results(self):
        """objects the function returns: the allocation or call each returned value comes from"""
        if not hasattr(self, '_res'):
            out = {}
            def walk(v, blk, seen):
                while isinstance(v, Inst) and v.op == 'bitcast': v = v.ops[0]
                if v in seen: return
                seen.add(v)
                if isinstance(v, Inst) and v.op == 'phi':
                    for o, b in zip(v.ops, v.x): walk(o, (b, v.bb), seen)
                elif isinstance(v, Inst) and v.op == 'call': out.setdefault(v, []).append(blk)
                elif isinstance(v, Inst): out.setdefault(v, []).append(blk)
            for r in self.rets: walk(r.ops[0], (r.bb, None), set())
            self._res = out
        return self._res

def shape(steps): return tuple('[]' if isinstance(s, tuple) else s for s in steps)

def lsub(l, sub):
    out = ((), l[1])
    for s, c in l[0]: out = bounds.ladd(out, sub.get(s, bounds.lsym(s)), c)
    return out
