"""Upward-exposed reads and must-writes of mutable global variables (flow-sensitive, interprocedural)."""
import cfg, pta
from irload import *

def isnull(v): return isinstance(v, Const) and v.ck in ('null', 'zero')

CMPCALLS = {'qsort': 3, 'bsearch': 4}

def cells(P, A, fn, v):
    """global cells a pointer value denotes exactly: (gkey, constpath) or None.  Whole-variable or constant element."""
    if isinstance(v, Const):
        if v.ck == 'global': return (P.gkey(fn, v.v), ())
        if v.ck == 'expr' and v.v[0] == 'gep':
            b = cells(P, A, fn, v.v[1][0])
            if b is None or not all(o.ck == 'int' for o in v.v[1][1:]): return None
            ix = tuple(o.v for o in v.v[1][1:])
            while ix and ix[-1] == 0: ix = ix[:-1]
            return (b[0], b[1] + ix)
        return None
    if isinstance(v, Inst) and v.op == 'gep' and all(isinstance(o, Const) and o.ck == 'int' for o in v.ops[1:]):
        b = cells(P, A, fn, v.ops[0])
        if b is None: return None
        ix = tuple(o.v for o in v.ops[1:])
        while ix and ix[-1] == 0: ix = ix[:-1]
        return (b[0], b[1] + ix)
    return None

class GState:
    def __init__(self, P, A):
        self.P, self.A = P, A
        # mutable globals: written by some function (directly, by name)
        self.mut = {}
        for k, f in P.fns.items():
            pts = A.state[k][0]
            for i in f.insts():
                if i.op == 'store':
                    for (o, p) in A.loc_of(f, pts, i.ops[1]):
                        if o[0] == 'G': self.mut.setdefault(o[1], []).append((k, i.line))
                elif i.op == 'call':
                    fs, e = A.targets(f, i, pts)
                    from pta import MODS, COPIES, SCANF
                    idx = MODS.get(e, []) if e else []
                    if e in COPIES: idx = [0]
                    if e in SCANF: idx = range(2, len(i.ops))
                    for a in idx:
                        if a < len(i.ops):
                            for (o, p) in A.loc_of(f, pts, i.ops[a]):
                                if o[0] == 'G': self.mut.setdefault(o[1], []).append((k, i.line))
        self.mut = {g: w for g, w in self.mut.items() if not A._constg(('G', g))}
        self.allcells = {}
        self.UE = {}; self.MUST = {}
        self.REST = {}       # key -> (globals that may be left off their initial value, globals surely back at it) on return
        self.init = {}
        for g in self.mut: self.init[g] = self._initval(g)
        TOP = None
        for scc in A.sccs:
            for k in scc: self.UE[k] = {}; self.MUST[k] = TOP; self.REST[k] = (frozenset(), frozenset())
            rec = len(scc) > 1 or any(k in A.callees[k] for k in scc)
            for _ in range(8 if rec else 1):
                ch = False
                for k in scc:
                    ue, must = self._fn(P.fns[k])
                    rest = self._rest(P.fns[k])
                    if set(ue) != set(self.UE[k]) or must != self.MUST[k] or rest != self.REST[k]: ch = True
                    self.UE[k], self.MUST[k], self.REST[k] = ue, must, rest
                if not ch: break

    def callees(self, f, i, pts):
        fs, e = self.A.targets(f, i, pts)
        out = [t for t in fs if t.name not in CMPCALLS]
        if len(out) != len(fs): e = [t.name for t in fs if t.name in CMPCALLS][0]
        if e in CMPCALLS:
            c = i.ops[CMPCALLS[e]]
            if isinstance(c, Const) and c.ck == 'func':
                t = self.P.resolve(f, c.v)
                if t is not None: out.append(t)
        return out

    def _fn(self, f):
        P, A = self.P, self.A
        pts = A.state[f.key][0]
        order = cfg.rpo(f)
        IN = {b: None for b in order}; IN[order[0]] = frozenset()
        ue = {}
        exits = []; OUT = {}
        ch = True
        while ch:
            ch = False
            ue = {}; exits = []
            for b in order:
                st = IN[b]
                if st is None: continue
                s = set(st)
                dead = False
                for i in b.insts:
                    if i.op == 'load':
                        c = cells(P, A, f, i.ops[0])
                        if c is not None:
                            if c[0] in self.mut and c not in s and not (c[0], ()) in s and not self._cov(c, s):
                                self._exp(ue, c[0], s, ((f.key, i.line), None))
                        else:
                            for (o, p) in A.loc_of(f, pts, i.ops[0]):
                                if o[0] == 'G' and o[1] in self.mut and not self._allw(o[1], s):
                                    self._exp(ue, o[1], s, ((f.key, i.line), None))
                    elif i.op == 'store':
                        c = cells(P, A, f, i.ops[1])
                        if c is not None and c[0] in self.mut: s.add(c); self.allcells.setdefault(c[0], set()).add(c)
                        ls = A.loc_of(f, pts, i.ops[1])
                        if len(ls) == 1:
                            o = next(iter(ls))[0]
                            if o[0] == 'G' and o[1] in self.mut:
                                if isinstance(i.ops[0], Const): s.discard(('memo', o[1]))
                                else: s.add(('memo', o[1]))
                    elif i.op == 'call':
                        must = None; first = True
                        if isinstance(i.x, Const) and i.x.v in pta.COPIES:
                            for (o, p) in A.loc_of(f, pts, i.ops[1]):
                                if o[0] == 'G' and o[1] in self.mut and not self._allw(o[1], s):
                                    self._exp(ue, o[1], s, ((f.key, i.line), None))
                            c = cells(P, A, f, i.ops[0])
                            if c is not None and c[0] in self.mut: s.add(c); self.allcells.setdefault(c[0], set()).add(c)
                        for t in self.callees(f, i, pts):
                            for g, w in self.UE[t.key].items():
                                if isinstance(g, tuple):
                                    if not self._allw(g[1], s) and not self._killed(g[2], s): ue.setdefault(g, ((f.key, i.line), t.key))
                                elif not self._allw(g, s): self._exp(ue, g, s, ((f.key, i.line), t.key))
                            m = self.MUST[t.key]
                            if m is None: continue
                            must = m if first else must & m
                            first = False
                        if must: s |= must
                    elif i.op == 'ret': exits.append((frozenset(s), i, b))
                s = frozenset(s)
                OUT[b] = s
                for x in b.succs:
                    e = s
                    kk = self._memoedge(f, b, x)
                    if kk: e = s | {('memo', kk)}
                    n = e if IN[x] is None else IN[x] & e
                    if n != IN[x]: IN[x] = n; ch = True
        # returning the null pointer is the library's way of reporting failure: what holds after a call is what holds
        # on the other returns (if there are any)
        flat = []
        for s, i, b in exits:
            v = i.ops[0] if i.ops else None
            if isinstance(v, Inst) and v.op == 'phi' and v.bb is b and f.retty == 'ptr':
                own = set(s)
                for x in b.preds: own -= OUT.get(x) or set()
                for o, pb in zip(v.ops, v.x):
                    if OUT.get(pb) is not None: flat.append(((OUT[pb] | own), isnull(o)))
            else: flat.append((s, f.retty == 'ptr' and v is not None and isnull(v)))
        good = [s for s, n in flat if not n] or [s for s, n in flat]
        must = None
        for e in good: must = e if must is None else must & e
        if must is not None: must = frozenset(x for x in must if x[0] != 'memo')
        return ue, must

    # memoisation: a read of V that is only reachable over the edge `key == x` of a test of another global, the key, is
    # recorded as (memo, V, key): it is harmless wherever the key itself is not left over from an earlier call
    def _memoedge(self, f, b, x):
        t = b.insts[-1]
        if t.op != 'br' or len(b.succs) != 2 or b.succs[0] is b.succs[1]: return None
        c = t.ops[0]
        if not (isinstance(c, Inst) and c.op == 'icmp' and c.x in ('eq', 'ne')): return None
        want = b.succs[0] if c.x == 'eq' else b.succs[1]
        if x is not want or len(x.preds) == 0: return None
        for o in c.ops:
            if isinstance(o, Inst) and o.op == 'load' and o.bb is b:
                ls = self.A.loc_of(f, self.A.state[f.key][0], o.ops[0])
                if len(ls) == 1:
                    g = next(iter(ls))[0]
                    if g[0] == 'G' and g[1] in self.mut: return g[1]
        return None

    def _exp(self, ue, g, s, w):
        ks = [x[1] for x in s if x[0] == 'memo']
        ks = [k for k in ks if k != g and self._tied(g, k)]
        if ks: ue.setdefault(('m', g, ks[0]), w)
        else: ue.setdefault(g, w)

    def _killed(self, k, s):
        return False

    def _tied(self, g, k):
        """every place that sets the key k to a non-constant also sets g"""
        c = self.tied.get((g, k)) if hasattr(self, 'tied') else None
        if c is not None: return c
        if not hasattr(self, 'tied'): self.tied = {}
        ok = True
        for fk in {w[0] for w in self.mut[k]}:
            f = self.P.fns[fk]; pts = self.A.state[fk][0]
            sk = [i for i in f.insts() if i.op == 'store' and any(o == ('G', k) for o, p in self.A.loc_of(f, pts, i.ops[1]))
                  and not isinstance(i.ops[0], Const)]
            sg = [i for i in f.insts() if (i.op == 'store' and any(o == ('G', g) for o, p in self.A.loc_of(f, pts, i.ops[1])))
                  or (i.op == 'call' and i.ops and any(o == ('G', g) for v in i.ops for o, p in self.A.loc_of(f, pts, v)))]
            for a in sk:
                if not any(cfg.dominates(f, b.bb, a.bb) or cfg.postdominates(f, b.bb, a.bb) for b in sg): ok = False
        self.tied[(g, k)] = ok
        return ok

    # at rest: does the global hold its initial value again when the function returns (given it did on entry)?
    def _initval(self, g):
        v = self.P.globals.get(g)
        if v is None or v.init is None: return None
        c = v.init
        if v.ty.startswith(('[', '%', '{')): return None
        if c.ck in ('zero', 'null'): return ('z',)
        if c.ck == 'int': return ('z',) if c.v == 0 else ('i', c.v)
        if c.ck == 'fp': return ('z',) if c.v == 0 else ('f', c.v)
        return None

    def _isinit(self, g, v):
        if self.init.get(g) is None or not isinstance(v, Const): return False
        if v.ck in ('zero', 'null'): return self.init[g] == ('z',)
        if v.ck == 'int': return self.init[g] == (('z',) if v.v == 0 else ('i', v.v))
        if v.ck == 'fp': return self.init[g] == (('z',) if v.v == 0 else ('f', v.v))
        return False

    def _rest(self, f):
        P, A = self.P, self.A
        pts = A.state[f.key][0]
        order = cfg.rpo(f)
        # state: (dirty set, reset set)
        IN = {order[0]: (frozenset(), frozenset())}
        ret = None
        ch = True
        while ch:
            ch = False; ret = None
            for b in order:
                if b not in IN: continue
                d, r = set(IN[b][0]), set(IN[b][1])
                for i in b.insts:
                    if i.op == 'store':
                        for (o, p) in A.loc_of(f, pts, i.ops[1]):
                            if o[0] == 'G' and o[1] in self.mut:
                                g = o[1]
                                if not p and cells(P, A, f, i.ops[1]) == (g, ()) and self._isinit(g, i.ops[0]): d.discard(g); r.add(g)
                                else: d.add(g); r.discard(g)
                    elif i.op == 'call':
                        ts = self.callees(f, i, pts)
                        if ts:
                            dd = set(); rr = None
                            for t in ts:
                                x, y = self.REST[t.key]
                                dd |= x; rr = set(y) if rr is None else rr & y
                            d = (d - rr) | dd; r = (r - dd) | rr
                    elif i.op == 'ret':
                        ret = (frozenset(d), frozenset(r)) if ret is None else (ret[0] | d, ret[1] & r)
                for x in b.succs:
                    n = (frozenset(d), frozenset(r))
                    if x in IN: n = (IN[x][0] | n[0], IN[x][1] & n[1])
                    if IN.get(x) != n: IN[x] = n; ch = True
        return ret if ret is not None else (frozenset(), frozenset())

    def _cov(self, c, s):
        return any(x[0] == c[0] and c[1][:len(x[1])] == x[1] and len(x[1]) < len(c[1]) and not x[1] for x in s)

    def _allw(self, g, s):
        """is the whole variable written?"""
        if (g, ()) in s:
            gv = self._ty(g)
            if gv is None or not gv.startswith('['): return True
            d = self.P.types[gv]
            return all(((g, ()) in s) if n == 0 else ((g, (0, n)) in s) for n in range(min(d[1], 64)))
        return False

    def _ty(self, g):
        v = self.P.globals.get(g)
        return v.ty if v is not None else None

    def chain(self, k, g):
        out = []
        while k:
            w = self.UE[k].get(g)
            if w is None: break
            (fk, line), nxt = w
            f = self.P.fns[fk]
            out.append('%s:%d %s' % (f.file, line, f.name)); k = nxt
            if len(out) > 12: break
        return ' -> '.join(out)
