"""Property simulation (ESP): path-sensitive dataflow over one function's CFG.

State at a block = {property state -> environment}; the environment records what the branches taken so far say about SSA
values and local cells (constant, non-constant, null, non-null).  States with equal property state are merged by
intersecting their environments, so the analysis terminates and over-approximates all paths; branches that contradict the
environment are not followed."""
import cfg
from irload import *

MAXP = 256

def isz(v): return isinstance(v, Const) and (v.ck in ('null', 'zero') or (v.ck == 'int' and v.v == 0))

def cval(v):
    if isinstance(v, Const):
        if v.ck in ('null', 'zero'): return 0
        if v.ck == 'int': return v.v
    return None

class Env(dict):
    """value -> ('eq', c) | ('ne', frozenset of constants)"""
    def copy(self): return Env(self)

def absval(env, v):
    c = cval(v)
    if c is not None: return ('eq', c)
    if isinstance(v, Const):
        if v.ck in ('global', 'func', 'str', 'expr') and v.ty == 'ptr': return ('ne', frozenset([0]))
        return None
    r = env.get(v)
    if r is not None: return r
    if isinstance(v, Inst):
        if v.op == 'alloca': return ('ne', frozenset([0]))
        if v.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            s = absval(env, v.ops[0])
            if s is None: return None
            if v.op == 'zext' and s[0] == 'eq' and s[1] < 0: return ('eq', 1) if v.ops[0].ty == 'i1' else None
            if v.op == 'sext' and v.ops[0].ty == 'i1' and s[0] == 'eq': return ('eq', -1 if s[1] else 0)
            if v.op == 'trunc':
                if v.ty == 'i1' and s[0] == 'eq': return ('eq', s[1] & 1)
                if s[0] == 'eq' and abs(s[1]) > 100: return None
                if s[0] == 'ne':
                    # a bool read back from memory or a call result: nonzero means 1
                    if v.ty == 'i1' and v.ops[0].ty == 'i8' and 0 in s[1]: return ('eq', 1)
                    return None
            return s
        if v.op == 'icmp': return evalicmp(env, v)
        if v.op == 'select':
            c = absval(env, v.ops[0])
            if c and c[0] == 'eq': return absval(env, v.ops[1 if c[1] else 2])
        if v.op == 'xor':
            b = cval(v.ops[1]); a = absval(env, v.ops[0])
            if b in (1, -1) and v.ty == 'i1' and a and a[0] == 'eq': return ('eq', 0 if a[1] else 1)
        if v.op == 'gep' and v.ops and all(cval(o) is not None for o in v.ops[1:]):
            a = absval(env, v.ops[0])
            if a and a[0] == 'ne' and 0 in a[1]: return a
    return None

def evalicmp(env, c):
    a, b = absval(env, c.ops[0]), absval(env, c.ops[1])
    if a is None or b is None: return None
    if a[0] == 'eq' and b[0] == 'eq':
        x, y = a[1], b[1]
        r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(c.x)
        if r is None:
            if x >= 0 and y >= 0: r = {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[c.x]
            else: return None
        return ('eq', 1 if r else 0)
    if c.x in ('eq', 'ne'):
        if a[0] == 'ne' and b[0] == 'eq' and b[1] in a[1]: return ('eq', 0 if c.x == 'eq' else 1)
        if b[0] == 'ne' and a[0] == 'eq' and a[1] in b[1]: return ('eq', 0 if c.x == 'eq' else 1)
    if c.x in ('ugt',) and a[0] == 'ne' and 0 in a[1] and b == ('eq', 0): return ('eq', 1)
    return None

def setval(env, v, a):
    if isinstance(v, Const) or a is None: return
    old = env.get(v)
    if old and old[0] == 'eq': return
    if a[0] == 'ne' and old and old[0] == 'ne': a = ('ne', old[1] | a[1])
    env[v] = a

def refine(env, c, truth, depth=0):
    """assume i1 value c == truth; returns False if contradictory"""
    r = absval(env, c)
    if r is not None and r[0] == 'eq' and bool(r[1]) != truth: return False
    if isinstance(c, Const): return True
    env[c] = ('eq', 1 if truth else 0)
    if isinstance(c, Inst) and depth < 8:
        if c.op == 'icmp':
            p = c.x
            if not truth: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
                               'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            for x, y, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
                k = absval(env, y)
                if k is None or k[0] != 'eq': continue
                q = p
                if sw: q = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
                if q == 'eq': learn(env, x, ('eq', k[1]), depth)
                elif q == 'ne': learn(env, x, ('ne', frozenset([k[1]])), depth)
                elif q in ('slt', 'sgt'): learn(env, x, ('ne', frozenset([k[1]])), depth)
                elif q == 'ugt' and k[1] == 0: learn(env, x, ('ne', frozenset([0])), depth)
                elif q == 'ult' and k[1] == 1: learn(env, x, ('eq', 0), depth)
        elif c.op in ('trunc', 'zext') and c.ops[0].ty in ('i1', 'i8'):
            s = c.ops[0]
            if s.ty == 'i1': return refine(env, s, truth, depth + 1)
            learn(env, s, ('eq', 0) if not truth else ('eq', 1), depth)
        elif c.op == 'xor' and c.ty == 'i1' and cval(c.ops[1]) in (1, -1):
            return refine(env, c.ops[0], not truth, depth + 1)
    return True

def learn(env, x, a, depth=0):
    if isinstance(x, Const): return
    setval(env, x, a)
    if isinstance(x, Inst) and depth < 8:
        if x.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze') and (a[0] == 'eq' or x.op != 'trunc'):
            if x.op == 'zext' and x.ops[0].ty == 'i1':
                if a[0] == 'eq': refine(env, x.ops[0], bool(a[1]), depth + 1)
                elif 0 in a[1]: refine(env, x.ops[0], True, depth + 1)
            elif x.op != 'trunc': learn(env, x.ops[0], a, depth + 1)
        elif x.op == 'load' and isinstance(x.ops[0], Inst) and x.ops[0].op == 'alloca':
            k = ('cell', x.ops[0])
            if env.get(('ld', x)) == env.get(('ver', x.ops[0]), 0): setval(env, k, a)
        elif x.op == 'load' and env.get(('mk', x)) is not None:
            setval(env, env[('mk', x)], a)

def meet(a, b):
    if a == b: return a
    if a[0] == 'ne' and b[0] == 'ne':
        s = a[1] & b[1]
        return ('ne', s) if s else None
    if a[0] == 'eq' and b[0] == 'ne': a, b = b, a
    if a[0] == 'ne' and b[0] == 'eq':
        s = frozenset(c for c in a[1] if c != b[1])
        return ('ne', s) if s else None
    if a[0] == 'eq' and b[0] == 'eq':
        if a[1] != 0 and b[1] != 0: return ('ne', frozenset([0]))
        return None
    return None

def meetenv(e1, e2):
    out = Env()
    for k, v in e1.items():
        w = e2.get(k)
        if w is None: continue
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ('eq', 'ne') and isinstance(w, tuple):
            m = meet(v, w)
            if m is not None: out[k] = m
        elif v == w: out[k] = v
    return out


def mentions_cell(k, a):
    for x in k:
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'cell' and x[1] is a: return True
            if mentions_cell(x, a): return True
    return False


def keyvals(k):
    out = set()
    for x in k:
        if isinstance(x, tuple):
            if not (len(x) == 2 and x[0] == 'cell'): out |= keyvals(x)
        elif isinstance(x, Inst): out.add(x)
    return out


class Sim:
    """override transfer(prop, env, inst) -> iterable of (prop, env); onret(prop, env, inst, retval, frm);
    onedge(prop, env, b, succ) -> prop"""
    def __init__(self, A, fn, extra_calls_clobber=True):
        self.A, self.fn = A, fn
        self.P = A.P
        self.pts = A.state[fn.key][0]
        self.trace = {}
        self._al = {}
        self.klocs = {}; self._kseen = set(); self.kvals = {}

    def init(self): return frozenset()
    def initenv(self): return Env()
    def transfer(self, prop, env, i): return ((prop, env),)
    def onret(self, prop, env, i, val, frm): pass
    def onedge(self, prop, env, b, s): return prop
    def calleeval(self, env, i): return None

    # cells: contents of address-taken locals and other memory named structurally
    def memkey(self, p):
        k = self._memkey(p)
        if k is not None and (k, p) not in self._kseen:
            self._kseen.add((k, p))
            self.klocs.setdefault(k, set()).update(self.objs(p))
            for v in keyvals(k): self.kvals.setdefault(v, set()).add(k)
        return k

    def redefine(self, env, i):
        """the SSA value i gets a new value (next iteration): cells named by way of the old one are other cells now"""
        for k in self.kvals.get(i, ()): env.pop(k, None)

    def khit(self, k, locs, own=True):
        """may a write to one of these locations change the memory cell named by k (own=False: only which cell k names)?"""
        if own:
            kl = self.klocs.get(k)
            if kl is None and k[0] == 'mem': return True
            if kl:
                for (o, p) in kl:
                    for (o2, p2) in locs:
                        if o == o2 and (p[:len(p2)] == p2 or p2[:len(p)] == p): return True
        for n, x in enumerate(k[1:]):
            if isinstance(x, tuple):
                # the base of an address computation is an address: what is stored there does not matter
                if x and x[0] in ('mem', 'cell') and self.khit2(x, locs, not (n == 0 and k[0] == 'mem' and k[2] is not None)): return True
                for y in x:
                    if isinstance(y, tuple) and y and y[0] == 'L':
                        if not isinstance(y[1], tuple): return True
                        if self.khit2(y[1], locs): return True
        return False

    def khit2(self, x, locs, own=True):
        if x[0] == 'cell': return any(o == ('A', self.fn.key, x[1].id) for o, p in locs)
        if x[0] == 'g': return False
        return self.khit(x, locs, own)

    def _memkey(self, p):
        """structural key of a non-alloca memory address (base SSA values + constant/SSA indices); None when unclear"""
        if isinstance(p, Inst) and p.op == 'gep':
            b = self.memkey(p.ops[0])
            if b is None: b = p.ops[0] if isinstance(p.ops[0], (Inst, Arg)) else None
            if b is None: return None
            ix = []
            for o in p.ops[1:]:
                c = cval(o)
                while c is None and isinstance(o, Inst) and o.op in ('sext', 'zext'): o = o.ops[0]
                if c is None and isinstance(o, Inst) and o.op == 'load':
                    k = self.memkey(o.ops[0])
                    ix.append(('L', k if k is not None else o.ops[0])); continue
                ix.append(c if c is not None else o)
            return ('mem', b, p.x, tuple(ix))
        if isinstance(p, Inst) and p.op == 'load':
            if isinstance(p.ops[0], Inst) and p.ops[0].op == 'alloca': return ('mem', ('cell', p.ops[0]), None, ())
            k = self.memkey(p.ops[0])
            return ('mem', k if k is not None else p.ops[0], None, ()) if not isinstance(p.ops[0], Const) else None
        if isinstance(p, Arg): return ('mem', p, None, ())
        if isinstance(p, Const) and p.ck == 'global': return ('mem', ('g', p.v), None, ())
        return None

    def objs(self, v): return self.A.loc_of(self.fn, self.pts, v)

    def clobber(self, env, locs, skip=None):
        """forget cells whose location may be among locs"""
        objs = {l[0] for l in locs}
        for k in [k for k in env if isinstance(k, tuple) and k[0] in ('cell', 'mem')]:
            if k[0] == 'cell':
                o = ('A', self.fn.key, k[1].id)
                if o in objs: env.pop(k); env[('ver', k[1])] = env.get(('ver', k[1]), 0) + 1
            else:
                if k is skip: continue
                if self.khit(k, locs): env.pop(k)

    def step(self, env, i):
        """effect of instruction i on the environment"""
        env.pop(i, None)
        if i in self.kvals: self.redefine(env, i)
        if i.op == 'load':
            a = i.ops[0]
            if isinstance(a, Inst) and a.op == 'alloca':
                env[('ld', i)] = env.get(('ver', a), 0)
                v = env.get(('cell', a))
                if v is not None: env[i] = v
            else:
                k = self.memkey(a)
                if k is not None:
                    env[('mk', i)] = k
                    v = env.get(k)
                    if v is not None: env[i] = v
        elif i.op == 'store':
            a = i.ops[1]
            v = absval(env, i.ops[0])
            if isinstance(a, Inst) and a.op == 'alloca':
                env.pop(('cell', a), None); env[('ver', a)] = env.get(('ver', a), 0) + 1
                if v is not None: env[('cell', a)] = v
                for k in [k for k in env if isinstance(k, tuple) and k[0] == 'mem' and mentions_cell(k, a)]: env.pop(k)
                # a store to a local cell leaves other memory alone unless its address escaped
            else:
                self.clobber(env, self.objs(a))
                k = self.memkey(a)
                if k is not None and v is not None: env[k] = v
        elif i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            locs = set()
            if e is not None:
                import pta
                if e in pta.PURE_EXT or e in pta.ALLOC or e in ('sqrt',) or e.startswith('llvm.dbg'): pass
                else:
                    for o in i.ops:
                        if getattr(o, 'ty', None) == 'ptr': locs |= self.objs(o)
            else:
                for f in fs:
                    locs |= self.A.callmods(self.fn, i, f)
            if locs: self.clobber(env, locs)
            v = self.calleeval(env, i)
            if v is not None: env[i] = v
        return env

    def run(self):
        fn = self.fn
        order = cfg.rpo(fn); idx = {b: n for n, b in enumerate(order)}
        IN = {b: {} for b in order}
        IN[order[0]][self.init()] = self.initenv()
        import heapq
        work = [0]; inw = {0}
        budget = 200000
        self.from_ = {}
        while work:
            n = heapq.heappop(work); inw.discard(n)
            b = order[n]
            budget -= 1
            if budget < 0: raise AnalysisError('property simulation of %s does not converge' % fn.name)
            pend = self.pending.pop(b, None) if hasattr(self, 'pending') else None
            for prop in (list(IN[b]) if pend is None else [p for p in pend if p in IN[b]]):
                self._block(b, prop, IN[b][prop].copy(), IN, idx, work, inw)
        self.IN = IN
        return self

    def _block(self, b, prop, env, IN, idx, work, inw):
        import heapq
        states = [(prop, env)]
        for i in b.insts:
            if i.op == 'phi': continue
            if i.op in ('br', 'switch', 'ret', 'unreachable'): break
            if i.op == 'call' and self.A.noreturn(self.fn, i): return
            nxt = []
            for p, e in states:
                for p2, e2 in self.transfer(p, e, i):
                    self.step(e2, i) if not e2.get('_stepped') else e2.pop('_stepped')
                    nxt.append((p2, e2))
            states = nxt
            if not states: return
        t = b.insts[-1]
        for p, e in states:
            if t.op == 'ret':
                self.onret(p, e, t, t.ops[0] if t.ops else None, prop)
                continue
            if t.op == 'unreachable': continue
            outs = []
            if t.op == 'br' and len(b.succs) == 2 and t.ops and b.succs[0] is not b.succs[1]:
                for k in (0, 1):
                    e2 = e.copy()
                    if refine(e2, t.ops[0], k == 0): outs.append((b.succs[k], e2))
            elif t.op == 'switch':
                v = absval(e, t.ops[0])
                outs = self._switch(b, t, e, v)
            else:
                for s in dict.fromkeys(b.succs): outs.append((s, e.copy()))
            for s, e2 in outs:
                p2 = self.onedge(p, e2, b, s)
                if p2 is None: continue
                # phis
                new = {}
                for i in s.insts:
                    if i.op != 'phi': break
                    for o, pb in zip(i.ops, i.x):
                        if pb is b: new[i] = (absval(e2, o), o); break
                if not self.phis(p2, e2, b, s, new): continue
                for i, (v, o) in new.items():
                    e2.pop(i, None)
                    if i in self.kvals: self.redefine(e2, i)
                    if v is not None: e2[i] = v
                if '_prop' in e2: p2 = e2.pop('_prop')
                cur = IN[s].get(p2)
                if cur is None:
                    if len(IN[s]) >= MAXP: raise AnalysisError('too many property states in %s' % self.fn.name)
                    IN[s][p2] = e2; chg = True
                    self.trace[(s, p2)] = (b, prop)
                else:
                    m = self.merge(cur, e2)
                    chg = m != cur
                    if chg: IN[s][p2] = m
                if chg:
                    if not hasattr(self, 'pending'): self.pending = {}
                    self.pending.setdefault(s, {})[p2] = 1
                    n = idx[s]
                    if n not in inw: inw.add(n); heapq.heappush(work, n)

    def merge(self, a, b): return meetenv(a, b)
    def phis(self, prop, env, b, s, new): return True

    def retphis(self):
        """phis that the returned value comes from"""
        out = set()
        w = [b.insts[-1].ops[0] for b in self.fn.blocks if b.insts[-1].op == 'ret' and b.insts[-1].ops]
        while w:
            v = w.pop()
            while isinstance(v, Inst) and v.op in ('zext', 'trunc', 'bitcast', 'freeze'): v = v.ops[0]
            if isinstance(v, Inst) and v.op == 'phi' and v not in out: out.add(v); w += v.ops
        return out

    def _switch(self, b, t, e, v):
        cases = list(zip(t.x, b.succs))     # (constant or None for default, block)
        vals = frozenset(c for c, _ in cases if c is not None)
        out = []
        for c, s in cases:
            e2 = e.copy()
            if c is not None:
                if v is not None and ((v[0] == 'eq' and v[1] != c) or (v[0] == 'ne' and c in v[1])): continue
                learn(e2, t.ops[0], ('eq', c))
            else:
                if v is not None and v[0] == 'eq' and v[1] in vals: continue
                learn(e2, t.ops[0], ('ne', vals))
            out.append((s, e2))
        return out

    def path(self, b, prop, n=40):
        out = []
        seen = set()
        k = (b, prop)
        while k in self.trace and k not in seen and n:
            seen.add(k); out.append(k[0]); k = self.trace[k]; n -= 1
        out.append(k[0])
        ls = []
        for x in reversed(out):
            l = [i.line for i in x.insts if i.line]
            if l and (not ls or ls[-1] != l[0]): ls.append(l[0])
        return ls
