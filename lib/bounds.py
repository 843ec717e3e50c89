"""Closed-form array bounds: linear forms over named quantities, dominating comparisons, extents of arrays.

Nothing here executes the program or asks a solver: an index and an extent are compared when their difference,
bounded by the comparisons that dominate the access, is a constant."""
import re
import cfg, loops, typed
from irload import *

# (struct, pointer field) -> (struct field holding the count, lowest index, one past the highest index relative to the count, may append)
def load_contracts(path):
    out = {}
    for l in open(path):
        l = l.split('#')[0].split()
        if not l: continue
        s, f = l[0].split('.')
        out[(s, f)] = (l[1], int(l[2]), int(l[3]), l[4] if len(l) > 4 else '-')
    return out

def load_params(path):
    """(function, source parameter, through pointer) -> element count expression"""
    out = {}
    for l in open(path):
        l = l.split('#')[0].split()
        if not l: continue
        out.setdefault(l[0], []).append((int(l[1].lstrip('*')), l[1][0] == '*', l[2]))
    return out

def irtype(P, t):
    """IR type of a C type spelling"""
    t = t.strip()
    if t.endswith('*'): return 'ptr'
    t = t.replace('const ', '').strip()
    m = {'double': 'double', 'int': 'i32', 'unsigned int': 'i32', 'char': 'i8', 'unsigned char': 'i8', 'short': 'i16', 'unsigned short': 'i16', '_Bool': 'i8'}
    if t in m: return m[t]
    if t.startswith('enum '): return 'i32'
    t = re.sub(r'^(struct|union) ', '', t)
    return '%struct.' + t if '%struct.' + t in P.types else None

def ladd(a, b, k=1):
    d = dict(a[0])
    for s, c in b[0]:
        d[s] = d.get(s, 0) + k * c
        if d[s] == 0: del d[s]
    return (tuple(sorted(d.items(), key=lambda x: repr(x[0]))), a[1] + k * b[1])

def lconst(c): return ((), c)
def lsym(s): return (((s, 1),), 0)
def lmul(a, k): return (tuple((s, c * k) for s, c in a[0]), a[1] * k) if k else lconst(0)

def root(a):
    """the alloca an address is computed from (None: some other memory)"""
    while isinstance(a, Inst) and a.op == 'gep': a = a.ops[0]
    return a.id if isinstance(a, Inst) and a.op == 'alloca' else None

def fclass(a, ty):
    """class of memory an address belongs to: (struct, field, local variable or None), a scalar local, a global, an element"""
    r = root(a)
    if isinstance(a, Inst) and a.op == 'gep' and len(a.ops) >= 3 and a.x.startswith('%') and isinstance(a.ops[-1], Const):
        return (a.x, a.ops[2].v, r)
    if isinstance(a, Const) and a.ck == 'global': return ('g', a.v, None)
    if isinstance(a, Inst) and a.op == 'alloca': return ('al', '', a.id)
    return ('elt', ty, r)

def copyclass(P, i):
    """classes a memcpy/memset may write: the fields of the struct it covers, element stores otherwise"""
    v = i.ops[0]
    r = root(v)
    t = None
    if isinstance(v, Inst) and v.op == 'gep':
        if len(v.ops) >= 3 and v.x.startswith('%') and isinstance(v.ops[2], Const):
            t = P.types.get(v.x); t = t[2][v.ops[2].v] if t else None
        else: t = v.x
    elif isinstance(v, Inst) and v.op == 'alloca': t = v.x
    out = set()
    def add(t):
        ty = P.types.get(t)
        if ty and ty[0] == 'struct':
            for k, e in enumerate(ty[2]): out.add((t, k, r)); add(e)
        elif ty and ty[0] == 'array': add(ty[2])
        else: out.add(('elt', t, r))
    if t: add(t)
    else: out.add(('elt', '?', r))
    if isinstance(v, Inst) and v.op == 'alloca': out.add(('al', '', v.id))
    return out

def same(c, k):
    """a write to class k may change class c"""
    if c == k: return True
    if not (c[0] == 'elt' and k[0] == 'elt' and c[2] == k[2]): return False
    # elements of different scalar types are different objects
    return not (c[1] != k[1] and {c[1], k[1]} <= {'ptr', 'double', 'i32', 'i64', 'i16'})

class Mem:
    """classes of memory (other than its own local variables) written by a function and everything it calls"""
    def __init__(self, P):
        self.P = P
        self.direct = {}
        self.callees = {}
        for k, f in P.fns.items():
            d = set(); c = set()
            for i in f.insts():
                if i.op == 'store': d.add(fclass(i.ops[1], i.ops[0].ty))
                elif i.op == 'call':
                    n = getattr(i.x, 'v', None) if getattr(i.x, 'ck', None) == 'func' else None
                    g = P.resolve(f, n) if n else None
                    if g is not None: c.add(g.key)
                    elif n and n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memmove', 'memset')):
                        d |= copyclass(P, i)
                    elif n and 'scanf' in n:
                        for o in i.ops[1:]:
                            if getattr(o, 'ty', None) == 'ptr': d.add(fclass(o, '?'))
            self.direct[k] = {x for x in d if x[2] is None}; self.callees[k] = c
        self.all = {k: set(v) for k, v in self.direct.items()}
        ch = True
        while ch:
            ch = False
            for k in self.all:
                for c in self.callees[k]:
                    if not self.all[c] <= self.all[k]: self.all[k] |= self.all[c]; ch = True

def sizeof(P, t):
    ty = P.types.get(t)
    if t == 'ptr': return 8, 8
    if t == 'double': return 8, 8
    if t == 'float': return 4, 4
    if ty is None: return None, None
    if ty[0] == 'int':
        n = max(1, ty[1] // 8); return n, n
    if ty[0] == 'array':
        s, a = sizeof(P, ty[2]); return (s * ty[1], a) if s is not None else (None, None)
    if ty[0] == 'struct':
        o = 0; al = 1
        for e in ty[2]:
            s, a = sizeof(P, e)
            if s is None: return None, None
            o = (o + a - 1) // a * a + s; al = max(al, a)
        return (o + al - 1) // al * al, al
    return None, None

def derefs(f, k):
    """f reads or writes through its parameter k (at offset 0) in its entry block or on every path, as far as a look at its uses shows"""
    key = ('derefs', k)
    if key not in f._cache:
        p = f.params[k]; r = False
        def look(v, d):
            for u in cfg.uses(f).get(v, ()):
                if u.op == 'load' or (u.op == 'store' and u.ops[1] is v): return True
                if u.op == 'gep' and u.ops[0] is v and d < 3 and isinstance(u.ops[1], Const) and u.ops[1].v == 0 and look(u, d + 1): return True
            return False
        f._cache[key] = look(p, 0)
    return f._cache[key]

class Bounds:
    def __init__(self, P, mem, contracts, fn, params={}):
        self.params = params
        self.P, self.mem, self.con, self.fn = P, mem, contracts, fn
        self.lc = {}; self.rd = {}; self.kc = {}; self.fc = {}; self.bc = {}
        self.par = {}
        self.phis = {}
        for L in loops.counted(fn): self.phis[L.phi] = L
        self.headers = set(cfg.loops(fn))

    # ---------------------------------------------------------------- memory versions
    def escaped(self, r):
        """the address of local variable r is stored somewhere"""
        k = ('esc', r)
        if k not in self.bc:
            self.bc[k] = any(i.op == 'store' and isinstance(i.ops[0], Inst) and i.ops[0].ty == 'ptr' and root(i.ops[0]) == r for i in self.fn.insts())
        return self.bc[k]

    def events(self, c):
        ev = {}
        r = c[2]
        for b in self.fn.blocks:
            l = []
            for i in b.insts:
                if i.op == 'store':
                    if same(c, fclass(i.ops[1], i.ops[0].ty)): l.append(i)
                elif i.op == 'call':
                    n = i.x.v if getattr(i.x, 'ck', None) == 'func' else None
                    g = self.P.resolve(self.fn, n) if n else None
                    hit = False
                    if r is not None:
                        passed = any(isinstance(o, Inst) and o.ty == 'ptr' and root(o) == r for o in i.ops)
                        if g is not None or n is None: hit = passed or self.escaped(r)
                        elif n.startswith(('llvm.mem', 'mem')): hit = any(same(c, k) for k in copyclass(self.P, i))
                        elif 'scanf' in n: hit = passed
                    elif g is not None: hit = any(same(c, k) for k in self.mem.all[g.key])
                    elif n and n.startswith(('llvm.mem', 'mem')): hit = any(same(c, k) for k in copyclass(self.P, i))
                    elif n and 'scanf' in n: hit = any(same(c, fclass(o, '?')) for o in i.ops[1:] if getattr(o, 'ty', None) == 'ptr')
                    if hit: l.append(i)
            if l: ev[b] = l
        return ev

    def reaching(self, c, at):
        """definitions of class c reaching instruction `at`"""
        if c not in self.rd:
            ev = self.events(c)
            inn = {b: set() for b in self.fn.blocks}
            inn[self.fn.blocks[0]] = {None}
            ch = True
            order = cfg.rpo(self.fn)
            while ch:
                ch = False
                for b in order:
                    s = set(inn[b])
                    for p in b.preds: s |= ({ev[p][-1]} if p in ev else inn[p])
                    if b is self.fn.blocks[0]: s.add(None)
                    if s != inn[b]: inn[b] = s; ch = True
            self.rd[c] = (ev, inn)
        ev, inn = self.rd[c]
        r = inn[at.bb]
        for e in ev.get(at.bb, ()):
            if e.pos < at.pos: r = {e}
        return r

    # ---------------------------------------------------------------- keys and linear forms
    def akey(self, v, at=None):
        """name of an address"""
        if v in self.kc: return self.kc[v]
        if isinstance(v, Arg): r = ('a', v.idx)
        elif isinstance(v, Const): r = ('c', v.ck, str(v.v))
        elif v.op == 'alloca': r = ('al', v.id)
        elif v.op == 'gep':
            r = self.akey(v.ops[0]); t = v.x
            for k, o in enumerate(v.ops[1:]):
                if k == 0:
                    if not (isinstance(o, Const) and o.ck == 'int' and o.v == 0): r = ('e', t, r, self.lin(o))
                else:
                    ty = self.P.types.get(t)
                    if ty[0] == 'struct': r = ('f', t, o.v, r); t = ty[2][o.v]
                    else: r = ('e', ty[2], r, self.lin(o)); t = ty[2]
        elif v.op == 'load':
            l = self.lin(v)
            r = l[0][0][0] if l[1] == 0 and len(l[0]) == 1 and l[0][0][1] == 1 else ('lin', l)
        else: r = ('v', v.id)
        self.kc[v] = r
        return r

    def loadsym(self, key, c, at, depth=0):
        """value of the location `key` (class c) at instruction `at`, as a linear form"""
        defs = self.reaching(c, at)
        if len(defs) == 1:
            d = next(iter(defs))
            if d is not None and d.op == 'store' and self.akey(d.ops[1]) == key:
                if d.ops[0].ty != 'ptr': return self.lin(d.ops[0])
                v = d.ops[0]
                if isinstance(v, (Arg,)): return lsym(('a', v.idx))
                if isinstance(v, Inst): return lsym(self.akey(v))
        return lsym(('ld', key, frozenset(-1 if d is None else d.id for d in defs)))

    def lin(self, v):
        if v in self.lc: return self.lc[v]
        self.lc[v] = lsym(('v', getattr(v, 'id', 0)))
        r = self._lin(v)
        self.lc[v] = r
        return r

    def _lin(self, v):
        if isinstance(v, Const):
            if v.ck == 'int': return lconst(v.v)
            if v.ck == 'zero': return lconst(0)
            return lsym(('c', v.ck, str(v.v)))
        if isinstance(v, Arg): return lsym(('a', v.idx))
        o = v.op
        if o in ('sext', 'zext', 'trunc', 'freeze'):
            if v.ops[0].ty == 'i1': return lsym(('v', v.id))
            return self.lin(v.ops[0])
        if o in ('add', 'sub'): return ladd(self.lin(v.ops[0]), self.lin(v.ops[1]), 1 if o == 'add' else -1)
        if o == 'mul':
            a, b = self.lin(v.ops[0]), self.lin(v.ops[1])
            if not a[0]: return lmul(b, a[1])
            if not b[0]: return lmul(a, b[1])
            return lsym(('mul', tuple(sorted((a, b), key=repr))))
        if o == 'shl':
            b = self.lin(v.ops[1])
            if not b[0] and 0 <= b[1] < 40: return lmul(self.lin(v.ops[0]), 1 << b[1])
        if o in ('urem', 'srem', 'udiv', 'sdiv', 'and', 'lshr', 'ashr'):
            return lsym((o, self.lin(v.ops[0]), self.lin(v.ops[1])))
        if o == 'load':
            if v.ty == 'ptr' or v.ty[0] == 'i':
                return self.loadsym(self.akey(v.ops[0]), fclass(v.ops[0], v.ty), v)
            return lsym(('v', v.id))
        if o == 'call' and getattr(v.x, 'ck', None) == 'func':
            g = self.P.resolve(self.fn, v.x.v)
            if g is not None and not self.mem.all[g.key] and v.ty[0] == 'i':
                # a function without effects: the same arguments give the same value while memory it reads is unchanged; only used within a block chain
                return lsym(('v', v.id))
        return lsym(('v', v.id))

    # ---------------------------------------------------------------- facts
    def condfacts(self, v, pol, depth=0):
        """list of (D, rel) with D rel 0 implied by v == pol; also blocks whose facts hold"""
        out = []; blocks = []
        if depth > 6 or not isinstance(v, Inst): return out, blocks
        if v.op == 'icmp':
            a, b = v.ops
            # comparison of a truth value with 0
            if isinstance(b, Const) and b.ck == 'int' and b.v == 0 and v.x in ('ne', 'eq'):
                u = a
                while isinstance(u, Inst) and u.op in ('zext', 'sext', 'trunc', 'freeze'): u = u.ops[0]
                if isinstance(u, Inst) and u.ty == 'i1': return self.condfacts(u, pol == (v.x == 'ne'), depth + 1)
            if a.ty == 'ptr': return out, blocks
            p = v.x if pol else loops.NEG[v.x]
            uns = p[0] == 'u'
            rel = {'slt': '<', 'ult': '<', 'sle': '<=', 'ule': '<=', 'sgt': '>', 'ugt': '>', 'sge': '>=', 'uge': '>=', 'eq': '==', 'ne': '!='}[p]
            out.append((ladd(self.lin(a), self.lin(b), -1), rel, v))
            return out, blocks
        if v.op == 'xor' and isinstance(v.ops[1], Const): return self.condfacts(v.ops[0], not pol, depth + 1)
        if v.op in ('zext', 'trunc', 'freeze'): return self.condfacts(v.ops[0], pol, depth + 1)
        if v.op in ('and', 'or') and v.ty == 'i1':
            if pol == (v.op == 'and'):
                for o in v.ops:
                    f, b = self.condfacts(o, pol, depth + 1); out += f; blocks += b
            return out, blocks
        if v.op == 'select' and v.ty == 'i1':
            c, a, b = v.ops
            if pol and isinstance(b, Const) and b.v == 0:
                for o in (c, a):
                    f, bl = self.condfacts(o, True, depth + 1); out += f; blocks += bl
            if not pol and isinstance(a, Const) and a.v != 0:
                for o in (c, b):
                    f, bl = self.condfacts(o, False, depth + 1); out += f; blocks += bl
            return out, blocks
        if v.op == 'phi' and v.ty == 'i1':
            live = [(o, b) for o, b in zip(v.ops, v.x) if not (isinstance(o, Const) and o.ck == 'int' and bool(o.v) != pol)]
            if len(live) == 1:
                o, b = live[0]
                f, bl = self.condfacts(o, pol, depth + 1)
                out += f; blocks += bl + [(b, v.bb)]
        return out, blocks

    def edgefacts(self, p, s):
        """facts on the edge p -> s"""
        t = p.insts[-1]
        if t.op == 'br' and t.ops and len(p.succs) == 2 and p.succs[0] is not p.succs[1]:
            f, bl = self.condfacts(t.ops[0], s is p.succs[0])
            f = list(f)
            for (b, to) in bl: f += self.edgefacts(b, to) + self.facts(b)
            return f
        if t.op == 'switch':
            D = self.lin(t.ops[0])
            ks = [k for k, x in enumerate(p.succs) if x is s]
            if ks == [0]: return [(ladd(D, lconst(c), -1), '!=', t) for c in t.x[1:]]
            if len(ks) == 1: return [(ladd(D, lconst(t.x[ks[0]]), -1), '==', t)]
        return []

    def facts(self, b):
        """facts that hold whenever block b is entered"""
        if b in self.fc: return self.fc[b]
        self.fc[b] = []
        out = []
        d = cfg.idom(self.fn)
        x = b
        while x in d and d[x] is not x:
            p = d[x]
            # x is entered only through an edge from p
            if len(x.preds) == 1 and x.preds[0] is p: out += self.edgefacts(p, x)
            x = p
        self.fc[b] = out
        return out

    # what a call that returned has checked
    def post(self):
        """facts about this function's parameters that hold at its return"""
        rets = [b for b in cfg.rpo(self.fn) if b.insts[-1].op == 'ret']
        if len(rets) != 1: return []
        out = []
        for D, rel, *_ in self.facts(rets[0]):
            if D[0] and all(self.portable(t) for t, c in D[0]): out.append((D, rel))
        return out

    def portable(self, t):
        if t[0] == 'a': return True
        if t[0] == 'ld' and t[2] == frozenset([-1]):
            k = t[1]
            return k[0] == 'f' and (k[3][0] == 'a' or (k[3][0] == 'ld' and self.portable(k[3])))
        return False

    def translate(self, t, call):
        """quantity t of the callee, in terms of this function at `call`"""
        if t[0] == 'a': return self.lin(call.ops[t[1]]) if t[1] < len(call.ops) else None
        k = t[1]
        if k[3][0] == 'a':
            if k[3][1] >= len(call.ops): return None
            obj = self.akey(call.ops[k[3][1]])
        else:
            l = self.translate(k[3], call)
            if l is None or l[1] or len(l[0]) != 1: return None
            obj = l[0][0][0]
        return self.loadsym(('f', k[1], k[2], obj), (k[1], k[2], obj[1] if obj[0] == 'al' else None), call)

    def callfacts(self, at):
        out = []
        if 'chk' not in self.bc:
            self.bc['chk'] = []
            for i in self.fn.insts():
                if i.op == 'call' and getattr(i.x, 'ck', None) == 'func':
                    g = self.P.resolve(self.fn, i.x.v)
                    if g is None or g is self.fn: continue
                    if 'post' not in g._cache:
                        g._cache['post'] = []
                        g._cache['post'] = Bounds(self.P, self.mem, self.con, g, self.params).post()
                    fs = []
                    for D, rel in g._cache['post']:
                        L = lconst(D[1]); ok = True
                        for t, c in D[0]:
                            l = self.translate(t, i)
                            if l is None: ok = False; break
                            L = ladd(L, l, c)
                        if ok: fs.append((L, rel, i))
                    if fs: self.bc['chk'].append((i, fs))
        for i, fs in self.bc['chk']:
            if i is not at and cfg.inst_dom(self.fn, i, at): out += fs
        return out

    def intrinsic(self, s):
        """upper-bound facts D <= k about a symbol by itself: [(D, k)]"""
        out = []
        if s[0] in ('urem', 'srem'):
            out.append((ladd(lsym(s), s[2], -1), -1))
            if s[0] == 'urem' or True: out.append((lmul(lsym(s), -1), 0))
        elif s[0] == 'and' and not s[2][0] and s[2][1] >= 0:
            out.append((lsym(s), s[2][1])); out.append((lmul(lsym(s), -1), 0))
        elif s[0] in ('udiv', 'sdiv') and not s[2][0] and s[2][1] > 0:
            pass
        elif s[0] == 'v':
            L = self.byid().get(s[1])
            if L is not None:
                i = self.lin(L.init)
                if L.step > 0: out.append((ladd(i, lsym(s), -1), 0))
                else: out.append((ladd(lsym(s), i, -1), 0))
        return out

    def stepped(self, D, k):
        """D <= k, sharpened when D contains a loop variable that moves in steps of more than 1"""
        for s, c in D[0]:
            if c == 1 and s[0] == 'v':
                L = self.byid().get(s[1])
                if L is not None and L.step > 1:
                    M = ladd(ladd(lmul(ladd(D, lsym(s), -1), -1), lconst(k)), self.lin(L.init), -1)
                    if all(x % L.step == 0 for _, x in M[0]): return k - M[1] % L.step
        return k

    def byid(self):
        if 'byid' not in self.bc: self.bc['byid'] = {p.id: L for p, L in self.phis.items()}
        return self.bc['byid']

    def inst(self, n):
        if 'inst' not in self.bc: self.bc['inst'] = {i.id: i for i in self.fn.insts()}
        return self.bc['inst'].get(n)

    @staticmethod
    def le(facts):
        """normalise to D <= k"""
        out = []
        for D, rel, *_ in facts:
            if rel == '<': out.append((D, -1))
            elif rel == '<=': out.append((D, 0))
            elif rel == '>': out.append((lmul(D, -1), -1))
            elif rel == '>=': out.append((lmul(D, -1), 0))
            elif rel == '==': out.append((D, 0)); out.append((lmul(D, -1), 0))
        return out

    def bound(self, G, facts, depth=0):
        """smallest provable constant k with G <= k (None: none), and whether one comparison gives it"""
        if not G[0]: return G[1], True
        direct = False
        les = self.le(facts)
        for s, c in G[0]:
            les += self.intrinsic(s)
        best = None
        cand = []
        for D, k in les:
            # the fact's own constant
            if not D[0]: continue
            k = self.stepped(D, k)
            for m in (1, 2, 3, 4):
                R = ladd(G, D, -m)
                if not R[0]:
                    v = R[1] + m * k
                    if best is None or v < best: best = v; direct = m == 1
                    break
                elif len(R[0]) < len(G[0]) + len(D[0]) and depth < 2: cand.append((R, m * k))
        if best is None or best >= 0:
            if depth < 1:
                for R, k in cand[:60]:
                    b2, _ = self.bound(R, facts, depth + 1)
                    if b2 is not None and (best is None or b2 + k < best): best = b2 + k; direct = False
        if best is not None and depth == 0:
            ch = True
            while ch:
                ch = False
                for D, rel, *_ in facts:
                    if rel != '!=': continue
                    for sg in (1, -1):
                        R = ladd(G, D, -sg)
                        if not R[0] and R[1] == best: best -= 1; ch = True
        return best, direct

    # ---------------------------------------------------------------- extents
    def field(self, key, path, at):
        """linear form of the count `path` (e.g. nv, perm.n) of the object named key, at instruction `at`; key = ('f', struct, idx, obj)"""
        sname, obj = key[1], key[3]
        parts = path.split('.')
        for n, p in enumerate(parts):
            nm = sname[1:]
            if nm.startswith('struct.'): nm = nm[7:]
            names = self.P.fields.get(nm)
            if not names or p not in names: return None
            k = names.index(p)
            l = self.loadsym(('f', sname, k, obj), (sname, k, obj[1] if obj[0] == 'al' else None), at)
            if n == len(parts) - 1: return l
            if l[1] or len(l[0]) != 1: return None
            obj = l[0][0][0]
            nxt = self.P.stypes[nm][k].replace('struct ', '').rstrip('*').strip()
            sname = '%struct.' + nxt
            if sname not in self.P.types: return None

    def length(self, f, expr, at, call=None):
        """the element count `expr` of a parameter contract of f, in terms of this function: f is this function, or the callee of `call`"""
        m = re.match(r'^(\*?)(\$(\d+)|\d+)(?:\.(\w+))?([+-]\d+)?$', expr)
        if not m: raise AnalysisError('cannot read the length %s of %s' % (expr, f.name))
        add = lconst(int(m.group(5) or 0))
        if m.group(3) is None: return lconst(int(m.group(2)))
        k = int(m.group(3))
        if k not in f.srcidx: return None
        ir = f.srcidx.index(k)
        if ir >= len(f.params): return None
        val = f.params[ir] if call is None else call.ops[ir]
        if m.group(4):
            t = typed.ptypes(self.P, f).get(ir)
            t = irtype(self.P, t.strip()[:-1]) if t and t.strip().endswith('*') else None
            if t is None: return None
            l = self.field(('f', t, 0, self.akey(val)), m.group(4), at)
        elif m.group(1): l = self.loadsym(self.akey(val), fclass(val, 'i32'), at)
        else: l = self.lin(val)
        return ladd(l, add) if l else None

    def mine(self, v, at, ety):
        """extent of the array that parameter v (or what it points to) holds by contract"""
        star = isinstance(v, Inst)
        a = v.ops[0] if star else v
        if not isinstance(a, Arg): return None
        for k, st, expr in self.params.get(self.fn.name, ()):
            if st == star and a.idx < len(self.fn.srcidx) and self.fn.srcidx[a.idx] == k:
                n = self.length(self.fn, expr, at)
                if n is not None: return lconst(0), 0, n, 'param', 'array parameter %s' % a.name
        return None

    def extent(self, v, at, ety, depth=0):
        """(offset, low, high-exclusive, kind, what): v points `offset` elements (of type ety) into an array whose legal indices are low .. high-1"""
        if depth == 0: self.alt = self.odd = None
        if depth > 6 or not isinstance(v, (Inst, Const, Arg)): return None
        esz, _ = sizeof(self.P, ety)
        if not esz: return None
        if isinstance(v, Const):
            if v.ck == 'global':
                g = self.P.gvar(self.fn.mod, v.v) or self.fn.mod.globals.get(v.v)
                if g is None: return None
                t = self.P.types.get(g.ty)
                if t and t[0] == 'array' and t[2] == ety: return lconst(0), 0, lconst(t[1]), 'fixed', v.v
            return None
        if isinstance(v, Arg): return self.mine(v, at, ety)
        if v.op == 'alloca':
            t = self.P.types.get(v.x)
            if t and t[0] == 'array' and t[2] == ety and t[1] > 0: return lconst(0), 0, lconst(t[1]), 'fixed', v.name
            if v.x == ety and v.ops: 
                n = self.lin(v.ops[0])
                if n != lconst(1): return lconst(0), 0, n, 'heap', v.name
            return None
        if v.op == 'gep':
            if len(v.ops) == 2:
                if v.x == 'i8' and ety != 'i8': return None
                if v.x != ety: return None
                e = self.extent(v.ops[0], at, ety, depth + 1)
                self.odd = None
                return (ladd(e[0], self.lin(v.ops[1])),) + e[1:] if e else None
            # &obj.field[0] / array decay: the array type stepped into
            t = v.x
            for k, o in enumerate(v.ops[1:]):
                if k == 0:
                    # a row of a table is often used to walk the whole table
                    if self.P.types.get(t, ('',))[0] == 'array' and not (isinstance(v.ops[0], (Inst, Const)) and getattr(v.ops[0], 'op', getattr(v.ops[0], 'ck', '')) in ('alloca', 'global')) \
                            and not (isinstance(v.ops[0], Inst) and v.ops[0].op == 'gep' and len(v.ops[0].ops) > 2 and v.ops[0].x.startswith('%')): return None
                    continue
                ty = self.P.types.get(t)
                if ty[0] == 'struct': t = ty[2][o.v]
                else:
                    if k == len(v.ops) - 2 and ty[2] == ety and ty[1] > 1: return self.lin(o), 0, lconst(ty[1]), 'fixed', 'array of %d' % ty[1]
                    t = ty[2]
            ty = self.P.types.get(t)
            if ty and ty[0] == 'array' and ty[2] == ety and ty[1] > 1 and len(v.ops) > 2: return lconst(0), 0, lconst(ty[1]), 'fixed', 'array of %d' % ty[1]
            return None
        if v.op == 'call':
            n = v.x.v if getattr(v.x, 'ck', None) == 'func' else None
            if n == 'calloc':
                a, b = self.lin(v.ops[0]), self.lin(v.ops[1])
                if not a[0] and not b[0]: tot = lconst(a[1] * b[1])
                elif not b[0]: tot = lmul(a, b[1])
                elif not a[0]: tot = lmul(b, a[1])
                else: return None
            elif n == 'malloc': tot = self.lin(v.ops[0])
            elif n == 'realloc': tot = self.lin(v.ops[1])
            else: return None
            if any(c % esz for s, c in tot[0]): self.odd = (tot, esz, 'block of %s' % n); return None
            return lconst(0), 0, (tuple((s, c // esz) for s, c in tot[0]), tot[1] // esz), 'heap', 'block of %s' % n
        if v.op == 'load':
            if isinstance(v.ops[0], Arg) and self.reaching(fclass(v.ops[0], 'ptr'), v) == {None}: return self.mine(v, at, ety)
            key = self.akey(v.ops[0]); c = fclass(v.ops[0], 'ptr')
            r = self.row(v, at, ety, depth)
            if r: return r
            defs = self.reaching(c, v)
            if len(defs) == 1:
                d = next(iter(defs))
                if d is not None and d.op == 'store' and self.akey(d.ops[1]) == key and isinstance(d.ops[0], Inst):
                    e = self.extent(d.ops[0], at, ety, depth + 1)
                    if e: return e
            if key[0] == 'f':
                nm = key[1][1:]
                if nm.startswith('struct.'): nm = nm[7:]
                fl = self.P.fields.get(nm)
                if not fl or key[2] >= len(fl): return None
                con = self.con.get((nm, fl[key[2]]))
                if con and con[0][0] == '@':            # the count is a parameter of this function
                    f, expr = con[0][1:].split(':')
                    n = self.length(self.fn, expr, at) if f == self.fn.name else None
                    return (lconst(0), con[1], ladd(n, lconst(con[2])), 'count', '%s.%s' % (nm, fl[key[2]])) if n else None
                if con:
                    n = self.field(key, con[0], at)
                    if n is None: return None
                    # the count may change before the array does: the array then still has the length it had on entry
                    n0 = None
                    if defs == {None}: n0 = self.field(key, con[0], self.fn.blocks[0].insts[0])
                    self.alt = ladd(n0, lconst(con[2])) if n0 is not None and n0 != n else None
                    return lconst(0), con[1], ladd(n, lconst(con[2])), 'append' if con[3] != '-' else 'count', '%s.%s' % (nm, fl[key[2]])
        return None

    def row(self, v, at, ety, depth):
        """extent of a row R[x] of a local table of blocks: all rows are allocated by one store R[i+c] = block of size(i)"""
        g = v.ops[0]
        if not (isinstance(g, Inst) and g.op == 'gep' and len(g.ops) == 2 and isinstance(g.ops[0], Inst) and g.ops[0].op == 'call'): return None
        R = g.ops[0]
        sts = [u for q in cfg.uses(self.fn).get(R, ()) if isinstance(q, Inst) and q.op == 'gep' and q.ops[0] is R
               for u in cfg.uses(self.fn).get(q, ()) if u.op == 'store' and u.ops[1] is q]
        if any(isinstance(q, Inst) and (q.op == 'store' and q.ops[1] is R or q.op not in ('gep', 'call', 'icmp', 'store')) for q in cfg.uses(self.fn).get(R, ())): return None
        sts = [u for u in sts if not (isinstance(u.ops[0], Const) and u.ops[0].ck in ('null', 'zero'))]
        if len(sts) != 1 or not isinstance(sts[0].ops[0], Inst) or sts[0].ops[0].op != 'call': return None
        e = self.extent(sts[0].ops[0], sts[0], ety, depth + 1)
        if e is None or e[3] != 'heap' or e[0] != lconst(0): return None
        J = self.lin(sts[0].ops[1].ops[1]); H = e[2]
        ph = [s for s, c in J[0] if s[0] == 'v' and self.inst(s[1]) is not None and self.inst(s[1]) in self.phis]
        for s, c in H[0]:
            if s[0] == 'v' and self.inst(s[1]) is not None and self.inst(s[1]).bb in self.headers and s not in ph and sts[0].bb in cfg.loops(self.fn).get(self.inst(s[1]).bb, ()): return None
        if len(ph) == 1 and dict(J[0])[ph[0]] == 1:
            k = dict(H[0]).get(ph[0], 0)
            if k:
                # i = x - (J - i)
                x = ladd(self.lin(g.ops[1]), ladd(J, lsym(ph[0]), -1), -1)
                H = ladd(ladd(H, lsym(ph[0]), -k), x, k)
        elif len(ph) != 0 or dict(H[0]).keys() & {s for s, c in J[0]}: return None
        return lconst(0), 0, H, 'heap', 'row of a table'

    # ---------------------------------------------------------------- accesses
    def touched(self, g, depth=0):
        """instructions that read or write through the address g"""
        out = []
        for u in cfg.uses(self.fn).get(g, ()):
            if u.op == 'load': out.append(u)
            elif u.op == 'store' and u.ops[1] is g: out.append(u)
            elif u.op == 'phi' and u.bb not in self.headers and depth == 0:
                # one of several addresses, used as soon as it is chosen
                if any(x.bb is u.bb for x in self.touched(u, 1)): out.append(g)
            elif u.op == 'gep' and u.ops[0] is g and depth < 4 and len(u.ops) > 2: out += self.touched(u, depth + 1)
            elif u.op == 'call' and getattr(u.x, 'ck', None) == 'func':
                if u.x.v.startswith('llvm.memcpy'): out.append(u)
                else:
                    f = self.P.resolve(self.fn, u.x.v)
                    if f is not None:
                        for k, o in enumerate(u.ops):
                            if o is g and k < len(f.params) and derefs(f, k): out.append(u)
        return out

    def decide(self, G, b, facts=None, depth=0, at=None, idx=None):
        """(k, sure): G <= k on entry to b by the comparisons that dominate it (k None: nothing known).
        sure: the bound is attained as far as the code shows - it comes from one comparison (or the loop's start), and nothing else in the
        conditions limits the quantities involved in a way that was not understood"""
        fs = self.facts(b) if facts is None else facts
        if at is not None:
            cf = self.callfacts(at)
            if cf:
                k0, s0 = self.decide(G, b, fs, depth, idx=idx)
                if k0 is not None and k0 < 0: return k0, s0
                k1, s1 = self.decide(G, b, fs + cf, depth, idx=idx)
                if k1 is None or k1 < 0 or k1 == k0: return k1, s0
                # a callee's check of the very index is a check of this access; one of a related number is not
                return k1, s1 and idx is not None and any(getattr(o, 'ty', '') != 'ptr' and isinstance(o, (Inst, Arg)) and self.lin(o) == idx
                                                          for _, _, c in cf for o in c.ops)
        k, direct = self.bound(G, fs)
        sure = k is not None and direct and self.plain(G, fs, idx, b)
        if k is not None and (k < 0 or not G[0]): return k, sure
        if depth < 3:
            for s, c in G[0]:
                if s[0] != 'v': continue
                i = self.inst(s[1])
                if i is None: continue
                alts = None
                if i.op == 'phi' and i.bb not in self.headers:
                    alts = [(o, self.facts(p) + self.edgefacts(p, i.bb) + fs) for o, p in zip(i.ops, i.x)]
                elif i.op == 'select':
                    alts = [(o, self.condfacts(i.ops[0], n)[0] + fs) for n, o in ((True, i.ops[1]), (False, i.ops[2]))]
                if alts is None: continue
                ks = [self.decide(ladd(ladd(G, lsym(s), -c), self.lin(o), c), b, f2, depth + 1, idx=ladd(ladd(idx, lsym(s), -c), self.lin(o), c) if idx is not None and any(x == s for x, _ in idx[0]) else idx) for o, f2 in alts]
                if all(x[0] is not None for x in ks):
                    m = max(x[0] for x in ks)
                    if k is None or m < k: k = m; sure = all(x[1] for x in ks if x[0] == m)
        return k, sure

    def plain(self, G, facts, idx=None, b=None):
        """every condition on the quantities of G is a comparison in linear form that bounds G by a constant (or does not bound it at all)"""
        syms = [s for s, c in G[0]]
        own = None if idx is None else {s for s, c in idx[0]}
        for s in syms:
            if s[0] == 'v':
                i = self.inst(s[1])
                if i is not None and i.op == 'phi' and i.bb in self.headers:
                    L = self.phis.get(i)
                    # a number counted up in an earlier loop and fixed since then
                    if L is None and own is not None and s not in own and b is not None and b not in cfg.loops(self.fn).get(i.bb, ()): continue
                    if L is None: return False
                    # steps of more than one: the limit itself need not be hit
                    if abs(L.step) > 1 and any(x % L.step for _, x in ladd(ladd(G, lsym(s), -dict(G[0])[s]), lmul(self.lin(L.init), dict(G[0])[s]))[0]): return False
        for D, rel, *_ in facts:
            for t, c in D[0]:
                if t not in syms and any(self.inside(s, t) for s in syms): return False
            if not any(t in syms for t, c in D[0]): continue
            if rel == '!=': continue
            for DD, k in self.le([(D, rel)]):
                # an upper bound on a quantity that enters G with the same sign, not comparable with G
                if any(t == s and c * cc > 0 for t, c in DD[0] for s, cc in G[0] if own is None or s in own) and ladd(G, DD, -1)[0]:
                    # (harmless when it only speaks about quantities of the extent: a lower limit of the count)
                    return False
        return True

    def grows(self, G, b, least=0):
        """G reaches at least `least` as soon as the counts in it are 1: a form R <= G that the loop reaches, all of whose terms are positive
        multiples of counts (None: not shown)"""
        fs = self.facts(b)
        R = G
        for s, c in G[0]:
            if s[0] != 'v' or c < 0: continue
            i = self.inst(s[1]); L = self.phis.get(i) if i is not None else None
            if L is None or abs(L.step) != 1: continue
            ups = {}
            for D, k in self.le(fs):
                if any(t == s and x > 0 for t, x in D[0]): ups[D] = min(k, ups.get(D, k))
            if L.step < 0: up = (ladd(lsym(s), self.lin(L.init), -1), 0)
            elif len(ups) != 1: continue
            else: up = next(iter(ups.items()))
            if dict(up[0][0]).get(s) != 1: return None
            R = ladd(ladd(R, up[0], -c), lconst(c * up[1]))
        # one element is enough
        if not R[0] or any(c < 0 for _, c in R[0]) or R[1] + sum(c for _, c in R[0]) < least: return None
        for s, c in R[0]:
            if s[0] not in ('ld', 'a', 'v') or s[0] == 'ld' and s[1][0] != 'f': return None
            if s[0] == 'v':
                i = self.inst(s[1])
                if i is None or i.op == 'select' or i.op == 'phi' and i.bb not in self.headers: return None
            for D, rel, *_ in fs:
                if any(t != s and self.inside(s, t) for t, _ in D[0]): return None
        return R

    def inside(self, s, t):
        """quantity s enters the non-linear quantity t (other than as an index of a load)"""
        if t == s: return True
        if not isinstance(t, tuple): return False
        if t and t[0] in ('ld', 'e', 'f'): return False
        return any(self.inside(s, x) for x in t if isinstance(x, tuple))

    def mentions(self, s, facts):
        return [D for D, *_ in facts if any(t == s for t, c in D[0])]

    def accesses(self):
        """yield (gep, element type, index value, base value, uses)"""
        for i in self.fn.insts():
            if i.op != 'gep': continue
            if len(i.ops) >= 3 and i.x.startswith('%') and isinstance(i.ops[0], Inst) and i.ops[0].op in ('call', 'load'):
                # a field of the object a pointer points to
                yield i, i.x, i.ops[1], i.ops[0], self.touched(i)
            if len(i.ops) == 2: yield i, i.x, i.ops[1], i.ops[0], self.touched(i)
            elif len(i.ops) == 3:
                ty = self.P.types.get(i.x)
                if ty and ty[0] == 'array' and not (isinstance(i.ops[2], Const) and i.ops[2].v == 0): yield i, ty[2], i.ops[2], None, self.touched(i)
