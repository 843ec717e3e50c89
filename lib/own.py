"""Ownership of heap memory and files: what a call allocates, releases, stores away."""
import pta, cfg, esp
from irload import *
from pta import ALLOC, DEALLOC

OPEN = {'fopen', 'fdopen', 'tmpfile', 'popen', 'opendir'}
CLOSE = {'fclose': 0, 'pclose': 0, 'closedir': 0}
NOHEAP = {'llvm.stacksave.p0'}

class Own:
    def __init__(self, A):
        self.A, self.P = A, A.P
        self._ev = {}

    def events(self, fn, i):
        """for call i: (acquired objects that are roots: one set per result or out-parameter, objects released, [(container objects, stored objects)])"""
        k = (fn.key, i.id)
        r = self._ev.get(k)
        if r is not None: return r
        A = self.A
        pts, mem, copies = A.state[fn.key]
        acq = []; rel = set(); sto = []
        fs, e = A.targets(fn, i, pts)
        if e is not None:
            if (e in ALLOC and e not in NOHEAP) or e == 'realloc' or e in OPEN:
                acq.append(frozenset({('H', None, (fn.key, i.id))}))
            if e in DEALLOC or e == 'realloc': rel |= {l for l in A.loc_of(fn, pts, i.ops[0])}
            if e in CLOSE: rel |= {l for l in A.loc_of(fn, pts, i.ops[CLOSE[e]])}
        for f in fs:
            s = A.sum[f.key]
            m = A.mapcall(fn, i)
            r = set()
            for l in s.rets:
                if l[0][0] == 'H' and not l[1]: r |= {x[0] for x in m(l)}
            if r: acq.append(frozenset(r))
            cells = {}
            for l in s.frees: rel |= m(l)
            for l in self.closes(f): rel |= m(l)
            for (o, p), ls in s.mem.items():
                if pta.root(o)[0] == 'G' and not self.freed(o, p):
                    ls = {l for l in ls if pta.root(l[0])[0] != 'P'}    # a context pointer for a comparator: borrowed
                src = {x for l in ls for x in m(l)}
                if not src: continue
                tgt = m((o, p))
                new = {x[0] for l in ls if l[0][0] == 'H' for x in m(l)}
                for t in tgt:
                    if t[0][0] == 'A' and new: cells.setdefault(t, set()).update(new)
                sto.append(({t for t in tgt}, src))
            acq += [frozenset(v) for k, v in sorted(cells.items(), key=str)]
        acq = list(dict.fromkeys(acq))
        r = (acq, rel, sto)
        self._ev[k] = r
        return r

    def freed(self, o, p):
        """does any function of the library release what this global location points to?"""
        if not hasattr(self, '_gfreed'):
            self._gfreed = set()
            for s in self.A.sum.values():
                for l in s.frees:
                    if pta.root(l[0])[0] == 'G': self._gfreed.add(pta.root(l[0]))
        return pta.root(o) in self._gfreed

    def closes(self, f):
        """locations whose file the function closes (not part of the memory effect summary)"""
        c = getattr(self, '_cl', None)
        if c is None:
            self._cl = c = {}
        if f.key in c: return c[f.key]
        c[f.key] = set()
        out = set()
        pts = self.A.state[f.key][0]
        for i in f.insts():
            if i.op != 'call': continue
            fs, e = self.A.targets(f, i, pts)
            if e in CLOSE: out |= {l for l in self.A.loc_of(f, pts, i.ops[CLOSE[e]]) if pta.isnonlocal(l[0])}
            for t in fs:
                m = self.A.mapcall(f, i)
                for l in self.closes(t): out |= {x for x in m(l) if pta.isnonlocal(x[0])}
        c[f.key] = out
        return out


class LeakSim(esp.Sim):
    """property state: set of acquisition call ids still owned by this function"""
    def __init__(self, O, fn):
        super().__init__(O.A, fn)
        self.O = O
        self.leaks = {}
        self.site = {}          # object -> acquisition id
        self.acqs = {}; self.byid = {}
        self._cl = {}; self._arr = {}; self._cnt = {}
        for i in fn.insts():
            if i.op == 'call':
                a, r, s = O.events(fn, i)
                for n, objs in enumerate(a):
                    self.acqs[(i.id, n)] = (i, objs)
                    self.byid.setdefault(i.id, []).append((i.id, n))
                    for o in objs: self.site.setdefault(o, set()).add((i.id, n))
        # a loop that releases s is taken to run whenever there is something to release: leaving the loop kills s
        self.loopkill = {}
        if self.acqs:
            for h, body in cfg.loops(fn).items():
                k = set()
                for b in body:
                    for i in b.insts:
                        if i.op == 'call': k |= self.sites(O.events(fn, i)[1])
                k = {x for x in k if self.acqs[x][0].bb not in body}
                if k:
                    for b in body:
                        for x in b.succs:
                            if x not in body: self.loopkill.setdefault((b, x), set()).update(k)

    def sites(self, locs):
        r = set()
        for (o, p) in locs:
            if p: continue
            r |= self.site.get(o, set())
        return r

    def closure(self, objs):
        """objects reachable from these through memory"""
        key = frozenset(objs)
        r = self._cl.get(key)
        if r is not None: return r
        pts, mem, copies = self.A.state[self.fn.key]
        seen = set(objs); w = list(objs)
        if not hasattr(self, '_succ'):
            self._succ = {}
            for (o, p), ls in mem.items():
                self._succ.setdefault(o, set()).update(l[0] for l in ls)
            for o, cs in copies.items():
                for (pre, so, sp, ex) in cs: self._succ.setdefault(o, set()).update(self._succ.get(so, ()))
        while w:
            o = w.pop()
            for n in self._succ.get(o, ()):
                if n not in seen: seen.add(n); w.append(n)
        self._cl[key] = seen
        return seen

    def escape(self, locs):
        r = set()
        for o in self.closure({l[0] for l in locs}): r |= self.site.get(o, set())
        return r

    def outside(self, tg):
        """does a store to one of these locations hand the pointer to somebody else?"""
        for o, p in tg:
            if o[0] in ('P', 'D', 'G', 'X'): return True
            if o[0] == 'H' and o not in self.site: return True
        return not tg

    def handover(self, prop, tg, src):
        have = {x[0] for x in prop}
        ss = self.escape(src) & have
        if not ss: return prop
        if self.outside(tg): return self.drop(prop, ss)
        # into a container acquired here
        own = {x for o, p in tg if o[0] == 'H' for x in self.site.get(o, ())}
        if any(o[0] == 'A' and p for o, p in tg) or any(o[0] == 'A' and self.isarray(o) for o, p in tg):
            d = self.sites(src)         # element of a local array: other elements may hold earlier acquisitions
            prop = frozenset((x, h or x in d) for x, h in prop)
        if own:
            if not own & have: return self.drop(prop, ss)      # ... that has already been handed over
            d = self.sites(src)
            return frozenset((x, h or x in d) for x, h in prop)
        return prop

    def isarray(self, o):
        if o not in self._arr:
            self._arr[o] = False
            for i in self.fn.insts():
                if i.op == 'alloca' and ('A', self.fn.key, i.id) == o: self._arr[o] = str(i.x).startswith('[')
        return self._arr[o]

    @staticmethod
    def drop(prop, ss): return frozenset(x for x in prop if x[0] not in ss)

    def transfer(self, prop, env, i):
        if i.op == 'store':
            v = i.ops[0]
            raw = False
            while isinstance(v, Inst) and v.op in ('ptrtoint', 'inttoptr'): v = v.ops[0]; raw = True
            if raw: prop = self.drop(prop, self.escape(self.objs(v)))     # kept as a machine word (Judy arrays)
            elif not isinstance(v, Const): prop = self.handover(prop, self.objs(i.ops[1]), self.objs(v))
        elif i.op == 'call':
            acq, rel, sto = self.O.events(self.fn, i)
            k = self.sites(rel)
            if k: prop = self.drop(prop, k)
            for tg, src in sto: prop = self.handover(prop, tg, src)
            # struct copy: the pointers inside go along
            if isinstance(i.x, Const) and i.x.v in pta.COPIES:
                d = self.objs(i.ops[0])
                src = {o for o, p in self.objs(i.ops[1])}
                inner = {(o, ()) for o in self.closure(src) - src}
                prop = self.handover(prop, d, inner)
            for k in self.byid.get(i.id, ()):
                if (k, False) in prop: self.leaks.setdefault(k, []).append((i.bb, prop, 'overwritten'))
                prop = prop | {(k, False)}
        return ((prop, env),)

    def onedge(self, prop, env, b, s):
        # pointer known null on this edge
        drop = set(self.loopkill.get((b, s), ()))
        for v, a in env.items():
            if a == ('eq', 0):
                if isinstance(v, Inst) and v.op == 'call' and v.id in self.byid: drop.update(self.byid[v.id])     # reported failure
                if isinstance(v, tuple) and v[0] == 'cell' and v[1].x != 'ptr': drop |= self.counted(v[1])
                if isinstance(v, Inst) and v.op == 'load' and v.ty != 'ptr': drop |= self.counted(v.ops[0])
                if isinstance(v, Inst) and v.ty == 'ptr' and not self.searched(v): drop |= self.sites(self.objs(v))
                elif isinstance(v, tuple) and v[0] == 'cell':
                    pts, mem, copies = self.A.state[self.fn.key]
                    if v[1].x == 'ptr': drop |= self.sites(self.A.contents(mem, copies, ('A', self.fn.key, v[1].id), ()))
        return self.drop(prop, drop) if drop else prop

    def searched(self, v, seen=None):
        """v may be the result of a search in a block (strstr and the like): null then says nothing about the block"""
        seen = seen if seen is not None else set()
        if v in seen or not isinstance(v, Inst): return False
        seen.add(v)
        if v.op == 'call': return isinstance(v.x, Const) and v.x.v in pta.RET_ARG0
        if v.op in ('phi', 'select', 'bitcast', 'gep', 'freeze'): return any(self.searched(o, seen) for o in v.ops)
        return False

    def counted(self, cell):
        """acquisitions whose call also fills in this integer cell (element count 0: nothing was handed out)"""
        if cell not in self._cnt:
            r = set()
            for k, (c, a) in self.acqs.items():
                if cell in c.ops and any(self.objs(cell) & self.A.callmods(self.fn, c, t)
                                         for t in self.A.targets(self.fn, c, self.pts)[0]): r.add(k)
            self._cnt[cell] = r
        return self._cnt[cell]

    def phis(self, prop, env, b, s, new):
        t = s.insts[-1]
        if t.op == 'ret' and t.ops and isinstance(t.ops[0], Inst) and t.ops[0] in new:
            v, o = new[t.ops[0]]
            if getattr(o, 'ty', None) == 'ptr' or getattr(o, 'ty', ' ')[0] in '%{[':
                k = self.escape(self.objs(o))
                if v == ('eq', 0): k = set()
                if k: env['_prop'] = self.drop(prop, k)
        return True

    def onret(self, prop, env, i, val, frm):
        if val is not None and isinstance(val, (Inst, Arg)) and not (isinstance(val, Inst) and val.op == 'phi' and val.bb is i.bb):
            prop = self.drop(prop, self.escape(self.objs(val)))
        for s, h in prop:
            self.leaks.setdefault(s, []).append((i.bb, frm, 'returns'))
