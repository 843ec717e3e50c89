"""Use of released memory: path-sensitive typestate of pointers (released / not) inside each function, with must-release
summaries of callees."""
import esp, cfg, pta
from irload import *
from pta import DEALLOC
from own import CLOSE
from esp import absval, cval

_UP = {}
IGNORE_USE = {'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.declare', 'llvm.dbg.value'}

def strip(v):
    while isinstance(v, Inst) and (v.op in ('bitcast', 'freeze', 'addrspacecast') or
                                   (v.op == 'gep' and all(cval(o) == 0 for o in v.ops[1:]))): v = v.ops[0]
    return v

def base(v):
    while isinstance(v, Inst) and v.op in ('gep', 'bitcast', 'freeze', 'addrspacecast'): v = v.ops[0]
    return v

def mentions(k, out=None):
    if out is None: out = set()
    if isinstance(k, tuple):
        for x in k: mentions(x, out)
    elif isinstance(k, Inst): out.add(k)
    return out

def has(k, sub):
    if k == sub: return True
    return isinstance(k, tuple) and any(has(x, sub) for x in k)


def varindex(k):
    if not isinstance(k, tuple): return False
    if k and k[0] == 'mem' and any(not isinstance(x, int) for x in k[3]): return True
    return any(varindex(x) for x in k)


class Uaf(esp.Sim):
    def __init__(self, A, fn, must):
        super().__init__(A, fn)
        self.must = must
        self.reports = {}
        self.left = {}
        self.rets = []      # per return: released locations
        self.S = A.sum[fn.key]
        self.body = {}
        self._ment = {}
        for h, b in cfg.loops(fn).items():
            self.body[h] = (b, {i for x in b for i in x.insts})

    def ment(self, k):
        r = self._ment.get(k)
        if r is None: r = self._ment[k] = frozenset(mentions(k))
        return r

    def akey(self, p):
        q = p
        if isinstance(q, Inst) and q.op == 'alloca': k = ('cell', q)
        else: k = self.memkey(q)
        if k is not None: self.klocs.setdefault(k, set()).update(self.objs(p))
        return k

    @staticmethod
    def can(env, v): return env.get(('can', v), v)

    def dang(self, prop, env, v):
        v = self.can(env, v)
        for k, s in prop:
            if k is v: return s
        return None

    def report(self, kind, i, site, prop, env):
        self.reports.setdefault((kind, i.id, site), (i, self._blk, self._frm))

    def kill(self, prop, env, locs, key=None):
        """contents of these locations change"""
        ls = set(locs)
        def hit(k):
            if key is not None and has(k, key): return True
            kl = self.klocs.get(k)
            if kl and kl & ls: return True
            for x in (k if isinstance(k, tuple) else ()):
                if isinstance(x, tuple) and x and x[0] in ('mem', 'cell', 'L') and hit(x): return True
            return False
        for e in [e for e in env if isinstance(e, tuple) and e[0] == 'val' and hit(e[1])]: env.pop(e)
        d = {(k, s) for k, s in prop if isinstance(k, tuple) and k[0] != 'obj' and hit(k)}
        return prop - d if d else prop

    def release(self, prop, env, v, i, nullok=True):
        v = strip(v)
        if isinstance(v, Const): return prop
        a = absval(env, v)
        if a == ('eq', 0): return prop
        c = self.can(env, v)
        add = {(c, i.id)}
        if isinstance(v, Inst) and v.op == 'gep' and len(v.ops) == 2 and cval(v.ops[1]) is not None:
            w = self.can(env, base(v))      # the block starts a fixed distance from the pointer in use
            if isinstance(w, (Inst, Arg)): add.add((w, i.id))
        for e, x in env.items():
            if isinstance(e, tuple) and e[0] == 'val' and x is c: add.add((e[1], i.id))
        ls = self.objs(v)
        if len(ls) == 1:
            l = next(iter(ls))
            if pta.isnonlocal(l[0]) and not l[1]: add.add((('obj', l), i.id))
        return prop | frozenset(add)

    def use(self, prop, env, v, i, kind):
        s = self.dang(prop, env, base(v))
        if s is not None: self.report(kind, i, s, prop, env)
        return s is not None

    def transfer(self, prop, env, i):
        self._blk, self._frm = i.bb, prop
        if i.op == 'load':
            self.use(prop, env, i.ops[0], i, 'read')
            env.pop(('can', i), None)
            if i.ty == 'ptr':
                k = self.akey(i.ops[0])
                if k is not None:
                    w = env.get(('val', k))
                    if w is not None: env[('can', i)] = w
                    else:
                        env[('val', k)] = i
                        s = [s for kk, s in prop if kk == k]
                        if s: prop = prop | {(i, s[0])}
        elif i.op == 'store':
            self.use(prop, env, i.ops[1], i, 'written')
            v = i.ops[0]
            k = self.akey(i.ops[1])
            if getattr(v, 'ty', None) == 'ptr' or not isinstance(v, Const) or k is not None:
                prop = self.kill(prop, env, self.objs(i.ops[1]), k)
            if k is not None and isinstance(v, (Inst, Arg)) and v.ty == 'ptr':
                b = strip(v)
                env[('val', k)] = self.can(env, b)
                s = self.dang(prop, env, b)
                if s is None: s = self.dang(prop, env, base(b))
                if s is not None: prop = prop | {(k, s)}
        elif i.op == 'call':
            prop = self.call(prop, env, i)
        return ((prop, env),)

    def call(self, prop, env, i):
        A = self.A
        fs, e = A.targets(self.fn, i, self.pts)
        if e is not None:
            if e in IGNORE_USE: return prop
            if e in DEALLOC or e == 'realloc' or e in CLOSE:
                v = strip(i.ops[0])
                s = self.dang(prop, env, v)
                if s is not None: self.report('released again', i, s, prop, env)
                return self.release(prop, env, v, i)
            for o in i.ops:
                if getattr(o, 'ty', None) == 'ptr' and not isinstance(o, Const): self.use(prop, env, o, i, 'passed to %s' % e)
            if e in pta.MODS or e in pta.COPIES or e in pta.SCANF:
                ls = set()
                for o in i.ops:
                    if getattr(o, 'ty', None) == 'ptr': ls |= self.objs(o)
                prop = self.kill(prop, env, ls)
            return prop
        mk = None
        for f in fs:
            s = A.sum[f.key]
            m = self.must.get(f.key, frozenset())
            for n, o in enumerate(i.ops):
                if getattr(o, 'ty', None) != 'ptr' or isinstance(o, Const) or n >= len(f.params): continue
                if n in self.used(f):
                    rel = (('P', n), ()) in m
                    self.use(prop, env, o, i, ('released again by %s' if rel else 'passed to %s') % f.name)
                # pointer variable handed by address whose content was released
                if (('D', ('P', n), ()), ()) in m:
                    k = self.akey(o)
                    d = [x for kk, x in prop if kk == k]
                    if d and absval(env, k) != ('eq', 0): self.report('released again by %s' % f.name, i, d[0], prop, env)
        for f in fs:
            # values of pointer variables before the callee changed them
            s = A.sum[f.key]
            m = self.must.get(f.key, frozenset()) if len(fs) == 1 else frozenset()
            before = {}
            for l in m:
                if l[0][0] == 'D' and l[0][1][0] == 'P' and not l[0][2] and l[0][1][1] < len(i.ops):
                    k = self.akey(i.ops[l[0][1][1]])
                    if k is not None: before[l] = env.get(('val', k))
            if s.mods or s.frees:
                mp = A.mapcall(self.fn, i)
                ls = set()
                for l in s.mods: ls |= mp(l)
                prop = self.kill(prop, env, ls)
            for l in m:
                o = l[0]
                if o[0] == 'P' and o[1] < len(i.ops): prop = self.release(prop, env, i.ops[o[1]], i)
                elif l in before:
                    n = o[1][1]
                    k = self.akey(i.ops[n])
                    if before[l] is not None and absval(env, before[l]) != ('eq', 0): prop = self.release(prop, env, before[l], i)
                    if (('P', n), ()) not in s.mods and k is not None: prop = prop | {(k, i.id)}
                    for t in A.mapcall(self.fn, i)(l):
                        if pta.isnonlocal(t[0]) and not t[1]: prop = prop | {(('obj', t), i.id)}
        return prop

    def recount(self, l):
        """the function also changes the fields beside the array pointer (its element count)"""
        o = l[0]
        while o[0] == 'D':
            if any(m[0] == o[1] and m[1] != o[2] for m in self.S.mods): return True
            o = o[1]
        return False

    def nrel(self):
        n = 0
        for i in self.fn.insts():
            if i.op == 'call':
                fs, e = self.A.targets(self.fn, i, self.pts)
                if e in DEALLOC or e in CLOSE or e == 'realloc' or any(self.must.get(t.key) for t in fs): n += 1
        return n

    def used(self, f):
        r = _UP.get(f.key)
        if r is None:
            r = set()
            for i in f.insts():
                if i.op in ('icmp',): continue
                for o in i.ops:
                    b = base(o) if isinstance(o, Inst) else o
                    if isinstance(b, Arg): r.add(b.idx)
            _UP[f.key] = r
        return r

    def onedge(self, prop, env, b, s):
        d = set()
        for k, st in prop:
            if isinstance(k, (Inst, Arg)):
                if absval(env, k) == ('eq', 0): d.add((k, st))
        if d:
            # nothing was released if the pointer is null here
            vs = {k for k, _ in d}
            prop = frozenset((k, st) for k, st in prop if (k, st) not in d and not env.get(('val', k)) in vs)
        return prop

    def phis(self, prop, env, b, s, new):
        add = set()
        for i, (v, o) in new.items():
            if isinstance(o, (Inst, Arg)) and i.ty == 'ptr':
                st = self.dang(prop, env, strip(o)) or self.dang(prop, env, base(o))
                if st is not None: add.add((i, st))
        drop = set(new)
        if s in self.body and b in self.body[s][0]: drop |= self.body[s][1]
        if drop:
            prop = frozenset((k, st) for k, st in prop if not (isinstance(k, Inst) and k in drop or
                             isinstance(k, tuple) and k[0] != 'obj' and self.ment(k) & drop))
            for e in [e for e in env if isinstance(e, tuple) and e[0] in ('val', 'can') and
                      (env[e] in drop or (e[1] in drop if isinstance(e[1], Inst) else self.ment(e[1]) & drop))]: env.pop(e)
        prop = prop | frozenset(add)
        env['_prop'] = prop
        return True

    def onret(self, prop, env, i, val, frm):
        self._blk, self._frm = i.bb, frm
        if isinstance(val, (Inst, Arg)) and val.ty == 'ptr':
            s = self.dang(prop, env, base(val))
            if s is not None: self.report('returned', i, s, prop, env)
        rel = {k[1] for k, s in prop if isinstance(k, tuple) and k[0] == 'obj'}
        nul = set()
        for v, a in env.items():
            if a == ('eq', 0) and isinstance(v, (Inst, Arg)) and v.ty == 'ptr': nul |= self.objs(v)
        self.rets.append((rel, nul))
        for k, s in prop:
            if not isinstance(k, tuple) or k[0] == 'obj': continue
            ls = self.klocs.get(k, ())
            if not ls or not all(pta.root(l[0])[0] in ('P', 'G') for l in ls): continue
            if any((l[0], ()) in self.S.frees for l in ls): continue
            if varindex(k) and any(self.recount(l) for l in ls): continue   # element of an array taken out of the counted part
            if any(pta.root(l[0])[0] == 'P' and pta.root(l[0])[1] in self.fn.byval for l in ls): continue
            self.report('left behind', i, s, prop, env)
            self.left[(i.id, s)] = sorted(pta.locstr(l, self.fn) for l in ls)


def analyse(A, only=None):
    """run bottom-up; returns {fn key: Uaf}"""
    must = {}
    out = {}
    rel = set()
    for scc in A.sccs:
        for k in scc:
            f = A.P.fns[k]
            frees = any(i.op == 'call' and (A.targets(f, i, A.state[k][0])[1] in DEALLOC or A.targets(f, i, A.state[k][0])[1] in CLOSE or
                        A.targets(f, i, A.state[k][0])[1] == 'realloc' or
                        any(must.get(t.key) for t in A.targets(f, i, A.state[k][0])[0])) for i in f.insts())
            if not frees: continue
            U = Uaf(A, f, must)
            U.run()
            out[k] = U
            cand = None
            for r, n in U.rets:
                x = {l for l in A.sum[k].frees if l in r or l in n}
                cand = x if cand is None else cand & x
            # closes are not in frees
            rr = None
            for r, n in U.rets:
                x = {l for l in set().union(*[q[0] for q in U.rets]) if l in r or l in n}
                rr = x if rr is None else rr & x
            must[k] = frozenset(l for l in (rr or ()) if not l[1] and pta.root(l[0])[0] == 'P')
    return out, must
