"""Variables that are read before they are set: all local variables of every function as memory cells (the program before promotion
to SSA), leaf by leaf for structures and small arrays; a path-insensitive pass finds reads that may come first, a path-sensitive
one (esp) decides them."""
import esp, cfg, pta
from irload import *
from esp import cval

MAXLEAF = 24
SCALAR = ('i8', 'i16', 'i32', 'i64', 'float', 'double', 'ptr')
SCAN_ALL = pta.SCANF

def leaves(P, ty, depth=0):
    """leaf paths of a type, or None when there are too many"""
    d = P.types.get(ty)
    if d is None or d[0] not in ('struct', 'array'): return [()]
    out = []
    if d[0] == 'struct': parts = list(enumerate(d[2]))
    else:
        if d[1] > MAXLEAF: return None
        parts = [(n, d[2]) for n in range(d[1])]
    for n, t in parts:
        s = leaves(P, t, depth + 1)
        if s is None: return None
        out += [(n,) + x for x in s]
        if len(out) > MAXLEAF: return None
    return out


def addr(v):
    """(alloca, constant path, exact) of an address inside a local variable, or None"""
    path = []
    exact = True
    while isinstance(v, Inst) and v.op in ('gep', 'bitcast', 'freeze', 'addrspacecast'):
        if v.op == 'gep':
            ix = [cval(o) for o in v.ops[1:]]
            if ix[0] != 0 or len(ix) < 1:
                # pointer arithmetic inside an array: which element is not known
                exact = False; path = []
            else:
                p = []
                for c in ix[1:]:
                    if c is None: exact = False; path = []; break
                    p.append(c)
                path = p + path
                if not exact: path = p
        v = v.ops[0]
    if isinstance(v, Inst) and v.op == 'alloca': return v, tuple(path), exact
    return None


class Locals:
    """the tracked leaves of one function and what each instruction does to them"""
    def __init__(self, U, fn):
        self.U, self.fn = U, fn
        self.idx = {}           # (alloca, leaf path) -> bit number
        self.of = {}            # alloca -> {leaf path}
        ent = fn.blocks[0]
        spilled = {i.ops[1] for i in ent.insts if i.op == 'store' and isinstance(i.ops[0], Arg)}
        for i in fn.insts():
            if i.op != 'alloca' or i in spilled: continue
            if i.ops and cval(i.ops[0]) not in (1, None): continue
            if i.ops and cval(i.ops[0]) is None: continue
            ls = leaves(U.P, i.x)
            if ls is None: continue
            self.of[i] = ls
            for l in ls: self.idx[(i, l)] = len(self.idx)
        # arrays filled element by element through a variable index are not followed
        for i in fn.insts():
            if i.op == 'store':
                x = addr(i.ops[1])
                if x and not x[2] and x[0] in self.of:
                    for l in self.of.pop(x[0]): self.idx[(x[0], l)] = None
            elif i.op == 'call':
                for o in i.ops:
                    x = addr(o) if getattr(o, 'ty', '') == 'ptr' else None
                    if x and x[0] in self.of and U.P.types.get(x[0].x, ('',))[0] == 'array':
                        fs, e = U.A.targets(fn, i, U.A.state[fn.key][0])
                        if e is None:
                            for l in self.of.pop(x[0]): self.idx[(x[0], l)] = None
        self.idx = {k: n for k, n in self.idx.items() if n is not None}

    def mask(self, a, path):
        m = 0
        for l in self.of.get(a, ()):
            n = min(len(l), len(path))
            if l[:n] == path[:n]: m |= 1 << self.idx[(a, l)]
        return m

    def leaf(self, x, p, ty):
        """the one leaf that an access of this type at this address reads (structures read as a whole are not counted)"""
        a, path, exact = x
        n = self.idx.get((a, path))
        if n is None: return 0
        t = a.x
        for c in path: d = self.U.P.types[t]; t = d[2][c] if d[0] == 'struct' else d[2]
        if ty is not None and ty != t: return 0
        q = p
        while isinstance(q, Inst) and q.op in ('gep', 'bitcast'):
            if q.op == 'bitcast': return 0
            if q.ops[0] is a and q.x != a.x: return 0
            q = q.ops[0]
        return 1 << n

    def whole(self, x):
        """path of the variable or array that a pointer to its first element stands for"""
        a, path, exact = x
        if not exact: return ()
        ts = [a.x]
        for c in path: d = self.U.P.types[ts[-1]] if ts[-1] in self.U.P.types else None; ts.append(None if d is None else d[2][c] if d[0] == 'struct' else d[2] if d[0] == 'array' else None)
        while path and (ts[len(path) - 1] is None or self.U.P.types[ts[len(path) - 1]][0] == 'array'): path = path[:-1]
        return path

    def effect(self, i):
        """(leaves read, leaves set, leaves possibly set)"""
        if i.op == 'load':
            x = addr(i.ops[0])
            if x and x[2]: return self.leaf(x, i.ops[0], i.ty), 0, 0
            return 0, 0, 0
        if i.op == 'store':
            x = addr(i.ops[1]); s = 0
            if x: s = self.mask(x[0], x[1] if x[2] and self.leaf(x, i.ops[1], getattr(i.ops[0], 'ty', None)) else ())
            y = addr(i.ops[0]) if getattr(i.ops[0], 'ty', '') == 'ptr' else None
            if y: s |= self.mask(y[0], ())          # its address is kept: no longer followed
            return 0, s, 0
        if i.op == 'call':
            fs, e = self.U.A.targets(self.fn, i, self.U.A.state[self.fn.key][0])
            s = r = w = 0
            if e is not None and (e.startswith('llvm.dbg') or e.startswith('llvm.lifetime')): return 0, 0, 0
            for n, o in enumerate(i.ops):
                if getattr(o, 'ty', '') != 'ptr': continue
                x = addr(o)
                if not x: continue
                m = self.mask(x[0], self.whole(x))
                if e is not None:
                    if e in pta.COPIES and n == 1: pass
                    else: s |= m
                elif fs:
                    if all(n in self.U.must.get(f.key, ()) for f in fs): s |= m
                    elif len(fs) == 1 and n in self.U.part.get(fs[0].key, ()) and x[1] == () and x[0].x in SCALAR: w |= m
                    elif any(n in self.U.may.get(f.key, ()) for f in fs) or any(n >= len(f.params) for f in fs): s |= m
                    elif any(n in self.U.reads.get(f.key, ()) for f in fs) and x[2]: r |= self.leaf(x, o, None)
                else: s |= m
            return r, s, w
        if i.op in ('phi', 'select', 'ptrtoint', 'ret', 'insertvalue', 'icmp'):
            s = 0
            if i.op == 'icmp': return 0, 0, 0
            for o in i.ops:
                if getattr(o, 'ty', '') == 'ptr':
                    x = addr(o)
                    if x: s |= self.mask(x[0], ())
            return 0, s, 0
        return 0, 0, 0


def plain(v):
    while isinstance(v, Inst) and (v.op in ('zext', 'sext', 'trunc') or v.op == 'select' and cval(v.ops[1]) == 1 and cval(v.ops[2]) == 0): v = v.ops[0]
    return v


class One(esp.Sim):
    """is the leaf read before it is set on a path that is not contradictory?"""
    def __init__(self, U, L, a, bit):
        super().__init__(U.A, L.fn)
        self.L, self.a, self.bit = L, a, bit
        self.hits = {}; self._ck = {}

    def init(self): return True

    def opkey(self, v, depth=0):
        while isinstance(v, Inst) and v.op in ('sext', 'zext', 'trunc'): v = v.ops[0]
        if isinstance(v, Const): return ('k', v.ck, v.v) if v.ck in ('int', 'null', 'fp') else None
        if isinstance(v, Inst) and v.op == 'load':
            a = v.ops[0]
            if isinstance(a, Inst) and a.op == 'alloca':
                w = self.single().get(a)        # a copy of another cell (a parameter of an inlined helper)
                if isinstance(w, Inst) and w.op == 'load' and depth < 4:
                    k = self.opkey(w, depth + 1)
                    if k is not None: return k
                return ('cell', a)
            return self.memkey(a)
        if isinstance(v, Inst) and v.op in ('add', 'sub', 'mul', 'and', 'or', 'srem', 'urem', 'sdiv', 'icmp', 'fcmp', 'xor', 'fadd', 'fsub', 'fmul'):
            x, y = self.opkey(v.ops[0]), self.opkey(v.ops[1])
            return ('op', v.op, v.x if isinstance(v.x, str) else '', x, y) if x and y else None
        return None

    def condkey(self, c):
        """(key, sense) of a branch condition as a function of memory cells"""
        sense = True
        while isinstance(c, Inst) and c.op == 'xor' and cval(c.ops[1]) in (1, -1): c = c.ops[0]; sense = not sense
        if isinstance(c, Inst) and c.op == 'icmp':
            x, y = self.opkey(c.ops[0]), self.opkey(c.ops[1])
            if x is None or y is None: return None, sense
            p = c.x
            if p in ('sgt', 'ugt', 'sle', 'ule'): x, y = y, x; p = {'sgt': 'slt', 'ugt': 'ult', 'sle': 'sge', 'ule': 'uge'}[p]
            if p in ('sge', 'uge', 'ne'): p = {'sge': 'slt', 'uge': 'ult', 'ne': 'eq'}[p]; sense = not sense
            if p == 'eq' and str(y) < str(x): x, y = y, x
            return ('cond', p, x, y), sense
        k = self.opkey(c)
        return (('cond', 'b', k), sense) if k else (None, sense)

    def onedge(self, prop, env, b, s):
        t = b.insts[-1]
        if t.op == 'br' and len(b.succs) == 2 and b.succs[0] is not b.succs[1]:
            k, sense = self.ck(b, t)
            a, v, ts = self.through(t.ops[0])
            c = plain(t.ops[0]); cs = True
            while isinstance(c, Inst) and c.op == 'xor' and cval(c.ops[1]) in (1, -1): c = plain(c.ops[0]); cs = not cs
            if v is None and isinstance(c, Inst) and c.op == 'phi' and c.ty == 'i1': a, v, ts = None, c, cs
            if v is not None and (a is None or env.get(('tmp', a))):
                # a condition kept in a variable of its own, or put together from parts
                truth = (s is b.succs[0]) == ts
                todo = [v]
                while todo:
                    v = todo.pop()
                    if not esp.refine(env, v, truth): return None
                    if isinstance(v, Inst) and v.op == 'phi':
                        # a && b is true only by way of its last part, a || b false
                        rest = [o for o in v.ops if not isinstance(o, Const)]
                        if len(rest) == 1 and all((cval(o) or 0) & 1 == (0 if truth else 1) for o in v.ops if isinstance(o, Const)): todo.append(rest[0])
                        continue
                    k2, s2 = self.condkey(v)
                    if k2 is not None:
                        if env.get(k2, truth == s2) != (truth == s2): return None
                        env[k2] = truth == s2
            if k is not None:
                truth = (s is b.succs[0]) == sense
                if env.get(k, truth) != truth: return None
                env[k] = truth
        return prop

    def through(self, c):
        """(variable, i1 value it was given, sense) when c tests a local variable that is stored to once, a condition"""
        sense = True
        while isinstance(c, Inst):
            if c.op == 'xor' and cval(c.ops[1]) in (1, -1) and c.ty == 'i1': c = c.ops[0]; sense = not sense
            elif c.op == 'icmp' and c.x in ('ne', 'eq') and cval(c.ops[1]) == 0 and isinstance(c.ops[0], Inst) and c.ops[0].op in ('load', 'zext', 'sext', 'trunc'):
                if c.x == 'eq': sense = not sense
                c = c.ops[0]
            elif c.op in ('zext', 'sext', 'trunc'): c = c.ops[0]
            else: break
        if not (isinstance(c, Inst) and c.op == 'load'): return None, None, sense
        v = self.single().get(c.ops[0])
        a = c.ops[0]
        v = plain(v)
        if isinstance(v, Inst) and v.ty == 'i1': return a, v, sense
        return None, None, sense

    def single(self):
        r = self.fn._cache.get('unset_single')
        if r is None:
            cnt = {}; esc = set()
            for i in self.fn.insts():
                for n, o in enumerate(i.ops):
                    if isinstance(o, Inst) and o.op == 'alloca':
                        if i.op == 'store' and n == 1: cnt.setdefault(o, []).append(i)
                        elif i.op != 'load' and not (i.op == 'call' and isinstance(i.x, Const) and str(i.x.v).startswith('llvm.dbg')): esc.add(o)
            r = self.fn._cache['unset_single'] = {a: x[0].ops[0] for a, x in cnt.items() if len(x) == 1 and a not in esc}
        return r

    def ck(self, b, t):
        r = self._ck.get(b)
        if r is None: r = self._ck[b] = self.condkey(t.ops[0])
        return r

    def forget(self, env, i):
        """drop remembered conditions whose cells may change"""
        if i.op == 'store':
            a = i.ops[1]
            if isinstance(a, Inst) and a.op == 'alloca': hit = lambda x: self.cellin(x, {a})
            else:
                ls = self.objs(a); hit = lambda x: self.lochit(x, ls)
        elif i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            ls = set()
            if e is not None:
                if e in pta.PURE_EXT or e in pta.ALLOC or e.startswith('llvm.dbg'): return
                for o in i.ops:
                    if getattr(o, 'ty', None) == 'ptr': ls |= self.objs(o)
            else:
                for f in fs: ls |= self.A.callmods(self.fn, i, f)
            if not ls: return
            hit = lambda x: self.lochit(x, ls)
        else: return
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'cond' and any(isinstance(x, tuple) and hit(x) for x in k[2:])]: env.pop(k)
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'tmp']:
            v = self.single()[k[1]]
            v = plain(v)
            cs = [v]
            if isinstance(v, Inst) and v.op == 'phi': cs = [o for o in v.ops if not isinstance(o, Const)]
            cs = [self.condkey(x)[0] for x in cs]
            if any(c is None or any(isinstance(x, tuple) and hit(x) for x in c[2:]) for c in cs): env.pop(k)
        if i.op == 'store' and isinstance(i.ops[1], Inst) and i.ops[1] in self.single(): env[('tmp', i.ops[1])] = True

    def cellin(self, x, cs):
        if len(x) == 2 and x[0] == 'cell': return x[1] in cs
        return any(isinstance(y, tuple) and self.cellin(y, cs) for y in x)

    def lochit(self, x, ls):
        if len(x) == 2 and x[0] == 'cell': return any(o == ('A', self.fn.key, x[1].id) for o, p in ls)
        if x[0] == 'op': return any(isinstance(y, tuple) and self.lochit(y, ls) for y in x[3:])
        if x[0] == 'mem': return self.khit(x, ls)
        return False

    def transfer(self, prop, env, i):
        self.forget(env, i)
        if prop:
            r, s, w = self.L.eff(i)
            if r & self.bit and (self.a.x == 'ptr' or True): self.hits.setdefault(i.id, (i, i.bb))
            if s & self.bit: prop = False
            elif w & self.bit:
                # the callee sets it on some of its paths: those on which it does not return with one of these values
                f = self.A.targets(self.fn, i, self.pts)[0][0]
                out = [(False, env.copy())]
                vals = set()
                for n, o in enumerate(i.ops):
                    x = addr(o) if getattr(o, 'ty', '') == 'ptr' else None
                    if x and x[0] is self.a and n in self.L.U.part.get(f.key, ()): vals |= self.L.U.part[f.key][n]
                for v in vals:
                    e = env.copy(); self.step(e, i)
                    if v is not None: e[i] = v
                    e['_stepped'] = True
                    out.append((True, e))
                return tuple(out)
        return ((prop, env),)


class Out(esp.Sim):
    """with which results can the function return without having set what parameter k points to?"""
    def __init__(self, A, fn, k, U):
        super().__init__(A, fn)
        self.k, self.U = k, U
        self.rets = []
        self.effs = {}
        for i in fn.insts():
            if i.op == 'store' and U._base(i.ops[1]) is fn.params[k]: self.effs[i] = 'set'
            elif i.op == 'store' and i.ops[0] is fn.params[k]: self.effs[i] = 'set'
            elif i.op in ('phi', 'select') and any(o is fn.params[k] for o in i.ops): self.effs[i] = 'set'
            elif i.op == 'call':
                fs, e = A.targets(fn, i, self.pts)
                for n, o in enumerate(i.ops):
                    if getattr(o, 'ty', '') != 'ptr' or U._base(o) is not fn.params[k]: continue
                    if e is not None:
                        if not (e in pta.PURE_EXT or e.startswith('llvm.dbg') or e in pta.COPIES and n == 1): self.effs[i] = 'set'
                    elif all(n in U.must.get(t.key, ()) for t in fs): self.effs[i] = 'set'
                    elif len(fs) == 1 and n in U.part.get(fs[0].key, ()): self.effs.setdefault(i, ('part', U.part[fs[0].key][n]))
                    elif any(n in U.may.get(t.key, ()) for t in fs): self.effs[i] = 'set'

    def init(self): return False

    def initenv(self):
        e = esp.Env(); e[self.fn.params[self.k]] = ('ne', frozenset([0])); return e

    def transfer(self, prop, env, i):
        x = self.effs.get(i)
        if x is None or prop: return ((prop, env),)
        if x == 'set': return ((True, env),)
        out = [(True, env.copy())]
        for v in x[1]:
            e = env.copy(); self.step(e, i)
            if v is not None: e[i] = v
            e['_stepped'] = True
            out.append((False, e))
        return tuple(out)

    def phis(self, prop, env, b, s, new):
        if any(i in self.effs for i in new): env['_prop'] = True
        return True

    def onret(self, prop, env, i, val, frm):
        if not prop: self.rets.append((i, esp.absval(env, val) if val is not None else None, i.bb))


class Unset:
    def __init__(self, P, A, P1, A1):
        """P: before promotion; P1: after"""
        self.P, self.A, self.P1, self.A1 = P, A, P1, A1
        self.must = {}; self.may = {}; self.reads = {}; self.part = {}; self.why = {}
        self.summaries()

    def summaries(self):
        A = self.A1
        for scc in A.sccs:
            ch = True
            for k in scc: self.must[k] = set(); self.may[k] = set(); self.reads[k] = set()
            # recursion: nothing is assumed of a call inside the component
            for k in scc:
                f = A.P.fns[k]
                ptr = [a for a in f.params if a.ty == 'ptr']
                if not ptr: continue
                S = A.sum[k]
                for m in S.mods:
                    if m[0][0] == 'P': self.may[k].add(m[0][1])
                order = cfg.rpo(f)
                gen = {}
                for b in order:
                    g = set(); dead = False
                    for i in b.insts:
                        if i.op == 'store':
                            x = self._base(i.ops[1])
                            if isinstance(x, Arg): g.add(x.idx)
                        elif i.op == 'load':
                            x = self._base(i.ops[0])
                            if isinstance(x, Arg): self.reads[k].add(x.idx)
                        elif i.op == 'call':
                            if A.noreturn(f, i): dead = True
                            fs, e = A.targets(f, i, A.state[k][0])
                            for n, o in enumerate(i.ops):
                                x = self._base(o) if getattr(o, 'ty', '') == 'ptr' else None
                                if not isinstance(x, Arg): continue
                                if e is not None:
                                    if e in pta.COPIES and n == 0 or e in ('memset', 'llvm.memset.p0.i64') and n == 0 or e in pta.SCANF: g.add(x.idx)
                                    else: self.reads[k].add(x.idx)
                                elif fs and all(n in self.must.get(t.key, ()) for t in fs): g.add(x.idx)
                                elif fs and any(n in self.reads.get(t.key, ()) for t in fs): self.reads[k].add(x.idx)
                    gen[b] = None if dead else g
                every = {a.idx for a in ptr}
                IN = {b: set(every) for b in order}; IN[order[0]] = set()
                ch = True
                while ch:
                    ch = False
                    for b in order:
                        o = None if gen[b] is None else IN[b] | gen[b]
                        if o is None: continue
                        for s in b.succs:
                            # a null parameter needs no value
                            add = set()
                            t = b.insts[-1]
                            if t.op == 'br' and t.ops and isinstance(t.ops[0], Inst) and t.ops[0].op == 'icmp' and len(b.succs) == 2:
                                c = t.ops[0]
                                for x, y in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                                    if isinstance(x, Arg) and cval(y) == 0 and ((c.x == 'eq') == (s is b.succs[0])): add.add(x.idx)
                            n = IN[s] & (o | add) if s is not order[0] else set()
                            if n != IN[s]: IN[s] = n; ch = True
                r = None
                for b in order:
                    if b.insts[-1].op == 'ret' and gen[b] is not None:
                        o = IN[b] | gen[b]
                        r = o if r is None else r & o
                self.must[k] = r if r is not None else set(every)
                self.part[k] = {}
                for n in sorted(self.may[k] - self.must[k]):
                    if n >= len(f.params) or not any(m == (('P', n), ()) for m in S.mods): continue
                    try:
                        O = Out(A, f, n, self); O.run()
                    except AnalysisError: continue
                    if not O.rets: self.must[k].add(n); continue
                    vs = {v for i, v, b in O.rets}
                    if None in vs or len(vs) > 3: continue      # nothing tells the caller: not decided here
                    self.part[k][n] = vs; self.why[(k, n)] = O

    @staticmethod
    def _base(v):
        while isinstance(v, Inst) and v.op in ('gep', 'bitcast', 'freeze'): v = v.ops[0]
        return v

    def guarded(self, fn, i, S, bit):
        """the read happens only when a local helper function said so: what it tests is not seen here"""
        if not any(S.L.eff(j)[1] & bit for j in fn.insts()): return False
        for d in cfg.rpo(fn):
            if d is i.bb or len(d.succs) != 2 or d.insts[-1].op != 'br' or not cfg.dominates(fn, d, i.bb): continue
            if not any(len(s.preds) == 1 and cfg.dominates(fn, s, i.bb) for s in d.succs): continue
            w = [d.insts[-1].ops[0]]; seen = set()
            while w:
                v = w.pop()
                if not isinstance(v, Inst) or v.id in seen or len(seen) > 40: continue
                seen.add(v.id)
                if v.op == 'call':
                    fs, e = self.A.targets(fn, v, self.A.state[fn.key][0])
                    if any(f.internal for f in fs): return True
                    continue
                if v.op == 'load':
                    x = S.single().get(v.ops[0])
                    if x is not None: w.append(x)
                    continue
                if v.op in ('icmp', 'xor', 'and', 'or', 'trunc', 'zext', 'sext', 'phi', 'select'): w += v.ops
        return False

    def function(self, fn):
        """[(alloca, leaf, first read, block)] on feasible paths; number of leaves followed"""
        L = Locals(self, fn)
        if not L.idx: return [], 0
        cache = {}
        def eff(i):
            r = cache.get(i.id)
            if r is None: r = cache[i.id] = L.effect(i)
            return r
        L.eff = eff
        order = cfg.rpo(fn)
        full = sum(1 << n for n in L.idx.values())
        IN = {b: 0 for b in order}; IN[order[0]] = full
        ch = True; cand = 0
        while ch:
            ch = False
            for b in order:
                st = IN[b]; dead = False
                for i in b.insts:
                    if i.op == 'call' and self.A.noreturn(fn, i): dead = True; break
                    r, s, w = eff(i)
                    cand |= r & st
                    st &= ~s
                if dead: continue
                for x in b.succs:
                    if IN[x] | st != IN[x]: IN[x] |= st; ch = True
        out = []
        if cand:
            for (a, l), n in L.idx.items():
                if cand >> n & 1:
                    # a block that is read as a whole is unset only if all of it is
                    S = One(self, L, a, 1 << n); S.run()
                    for i, b in S.hits.values():
                        if not self.guarded(fn, i, S, 1 << n): out.append((a, l, i, S))
        return out, len(L.idx)


def heap(A, fn):
    """(loads looked at, [(allocation, field path, load)]): a load through the pointer malloc returned, at a constant place, that no write
    to the block can come before"""
    pts = A.state[fn.key][0]
    al = [i for i in fn.insts() if i.op == 'call' and A.targets(fn, i, pts)[1] == 'malloc']
    n = 0; bad = []
    for a in al:
        ptrs = {a: ()}
        ch = True
        loads = []; touch = []
        esc = False
        for i in fn.insts():
            if i.op == 'load':
                b = Unset._base(i.ops[0])
                if b is a: loads.append(i)
            elif i.op == 'store':
                if Unset._base(i.ops[1]) is a or any(l[0] == ('H', fn.key, a.id) for l in A.loc_of(fn, pts, i.ops[1])): touch.append(i)
                if Unset._base(i.ops[0]) is a: touch.append(i)
            elif i.op in ('call',) and i is not a:
                if any(Unset._base(o) is a for o in i.ops if getattr(o, 'ty', '') == 'ptr'): touch.append(i)
            elif i.op in ('phi', 'select') and any(Unset._base(o) is a for o in i.ops if getattr(o, 'ty', '') == 'ptr'): touch.append(i)
        if not loads: continue
        reach = _reach(fn)
        for i in loads:
            n += 1
            def before(t): return t.bb is i.bb and t.pos < i.pos or t.bb is not i.bb and i.bb in reach(t.bb) or t.bb is i.bb and i.bb in reach(i.bb)
            if not any(before(t) for t in touch):
                bad.append((a, str(i.ops[0].ops[1:] and [cval(o) for o in i.ops[0].ops[1:]]) if isinstance(i.ops[0], Inst) and i.ops[0].op == 'gep' else '0', i))
    return n, bad


def _reach(fn):
    c = fn._cache.setdefault('unset_reach', {})
    def go(b):
        r = c.get(b)
        if r is None:
            r = set(); w = list(b.succs)
            while w:
                x = w.pop()
                if x in r: continue
                r.add(x); w += x.succs
            c[b] = r
        return r
    return go
