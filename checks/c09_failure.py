"""C09: failures are reported through the channel the caller gave, and only through it."""
import esp, pta, typed, cfg
from esp import Sim, Env, absval
from irload import *

META = dict(
    rule='for every function with an error channel (int *err / int *error_num, bool *ok), with the channel given: no path ends the program by exit or '
         'abort; a path that returns NULL, or that reported a failure with pd_error, stores a nonzero code; a path that returns an object stores no nonzero code; '
         'a failure stored by a callee is not replaced by success unseen; the out-parameter of plc_read/nplc_read and every ok flag is assigned on every path. Functions that read a file and have no channel '
         'never end the program by exit',
    explanation='Path-sensitive property simulation of every such function; calls that hand the channel on are replaced by the outcomes of the callee.',
    assumptions=['an allocation that fails, and other failed assertions, may end the program'])

READ = {'fscanf', '__isoc99_fscanf', 'fgets', 'fgetc', 'getc', 'fread', 'getline', 'vfscanf', '__isoc99_vfscanf'}

def localof(o):
    """the local variable an argument is the address of (given ? &x : NULL included)"""
    if isinstance(o, Inst) and o.op in ('select', 'phi'):
        vs = [v for v in (o.ops[1:] if o.op == 'select' else o.ops) if not (isinstance(v, Const) and v.ck in ('null', 'zero'))]
        if len(vs) == 1: o = vs[0]
    return o if isinstance(o, Inst) and o.op == 'alloca' else None

class Proto(Sim):
    def __init__(self, A, fn, k, sums, given=True):
        Sim.__init__(self, A, fn)
        self.k = k; self.arg = fn.params[k] if k is not None else None
        self.sums = sums; self.given = given
        self.exits = []; self.rets = {}; self.masks = []; self.unseen = set(); self.nlocal = set(); self.kind = 'err'
        if k is not None and fn.params[k].name == 'ok': self.kind = 'ok'

        self.retphi = self.retphis() if fn.retty == 'ptr' else set()

    def init(self): return ('same', False, frozenset(), frozenset())
    def initenv(self):
        e = Env()
        if self.arg is not None: e[self.arg] = ('ne', frozenset([0])) if self.given else ('eq', 0)
        return e

    def isarg(self, v):
        while isinstance(v, Inst) and v.op in ('bitcast', 'freeze'): v = v.ops[0]
        return v is self.arg and v is not None

    def transfer(self, prop, env, i):
        if i.op == 'store' and self.isarg(i.ops[1]):
            v = absval(env, i.ops[0])
            st = 'any' if v is None else ('zero' if v == ('eq', 0) else 'nz' if v[0] == 'eq' or 0 in v[1] else 'any')
            o = self.fwd(i)
            if o is not None and any(a is o for a, c in prop[2]):
                # the failure that is pending in the local is handed on, unseen
                st = 'call-zero' if self.kind == 'ok' else 'call-nz'
                return (((st,) + prop[1:], env),)
            self.masked(prop, 'nz' if st == 'any' and o is not None and self.kind == 'ok' else 'zero' if st == 'any' and o is not None else st, i)
            return (((st,) + prop[1:], env),)
        if i.op == 'load' and self.isarg(i.ops[0]) and prop[0].startswith('call-'):
            return (((prop[0][5:],) + prop[1:], env),)
        if i.op == 'call':
            n = i.x.v if isinstance(i.x, Const) else None
            if n == 'pd_error': return (((prop[0], True) + prop[2:], env),)
            js = [j for j, o in enumerate(i.ops) if self.isarg(o)]
            if js:
                fs, e = self.A.targets(self.fn, i, self.pts)
                if fs:
                    out = {}
                    for g in fs:
                        S = self.sums(g, js[0], self.given)
                        for (st, fl, rv) in S:
                            if st.startswith('call-'): st = st[5:]
                            self.masked(prop, st, i)
                            out[(prop[0] if st == 'same' else 'call-' + st, prop[1] or fl, rv)] = 1
                    r = []
                    for st, fl, rv in out:
                        e2 = env.copy()
                        if rv is not None: e2[i] = rv; e2 = self.after(e2, i, rv)
                        r.append(((st, fl) + prop[2:], e2))
                    return r
            # a failure stored in a local: somebody has to look at it
            if n in self.P.defs or i.x is not None:
                fs, e = self.A.targets(self.fn, i, self.pts)
                for j, o in enumerate(i.ops):
                    o = localof(o)
                    if o is not None and fs:
                        fl = False
                        for g in fs:
                            if j < len(g.params) and typed.channel(self.P, g, j):
                                bad = 'zero' if g.params[j].name == 'ok' else 'nz'
                                if any(st in (bad, 'any', 'call-' + bad, 'call-any') for st, _, _ in self.sums(g, j, True)): fl = True
                        if fl:
                            self.nlocal.add((i, j))
                            if any(a is o for a, c in prop[2]) and not prop[0].startswith('call-'): self.unseen.update((a, c) for a, c in prop[2] if a is o)
                            rest = frozenset((a, c) for a, c in prop[2] if a is not o)
                            return (((prop[0], prop[1], rest | {(o, i)}, prop[3]), env), ((prop[0], prop[1], rest, prop[3]), env.copy()))
        if i.op == 'load' and any(a is i.ops[0] for a, c in prop[2]):
            us = cfg.uses(self.fn).get(i, ())
            while len(us) == 1 and us[0].op in ('zext', 'trunc', 'freeze', 'sext') : us = cfg.uses(self.fn).get(us[0], ())
            if len(us) == 1 and us[0].op == 'store' and self.isarg(us[0].ops[1]): return ((prop, env),)
            if prop[0].startswith('call-'): prop = (prop[0][5:],) + prop[1:]
            return (((prop[0], prop[1], frozenset((a, c) for a, c in prop[2] if a is not i.ops[0]), prop[3]), env),)
        return ((prop, env),)

    def fwd(self, i):
        """the local variable whose value the store hands on to the channel"""
        v = i.ops[0]
        while isinstance(v, Inst) and v.op in ('zext', 'trunc', 'freeze', 'sext'): v = v.ops[0]
        if isinstance(v, Inst) and v.op == 'load' and isinstance(v.ops[0], Inst) and v.ops[0].op == 'alloca': return v.ops[0]
        return None

    def phis(self, prop, env, b, s, new):
        # paths that return NULL and paths that return an object are kept apart
        ch = [i for i in new if i in self.retphi]
        if ch:
            m = dict(prop[3])
            for i in ch:
                v = new[i][0]
                m[i] = None if v is None else 'null' if v == ('eq', 0) else 'obj' if v[0] == 'ne' and 0 in v[1] else None
            env['_prop'] = prop[:3] + (frozenset(m.items()),)
        return True

    def masked(self, prop, st, i):
        # a failure that a callee stored and nobody looked at, replaced by success
        bad = ('call-nz', 'zero') if self.kind == 'err' else ('call-zero', 'nz')
        if (prop[0], st) == bad: self.masks.append(i)

    def after(self, env, i, rv):
        # the environment effects of the call itself, then the known result
        self.step(env, i); env[i] = rv; env['_stepped'] = True
        return env

    def _block(self, b, prop, env, IN, idx, work, inw):
        for i in b.insts:
            if i.op == 'call' and isinstance(i.x, Const) and i.x.v in ('exit', '_exit', 'abort', '_Exit'): self.exits.append(i)
            elif i.op == 'call' and isinstance(i.x, Const) and i.x.v != '__assert_fail' and self.A.noreturn(self.fn, i): self.exits.append(i)
        Sim._block(self, b, prop, env, IN, idx, work, inw)

    def onret(self, prop, env, i, val, frm):
        v = absval(env, val) if val is not None else None
        if v is not None and v[0] == 'eq' and v[1] not in (0, 1): v = ('ne', frozenset([0]))
        if prop[0].startswith('call-'): prop = (prop[0][5:],) + prop[1:]
        bad = prop[0] not in ('nz',) if self.kind == 'err' else prop[0] != 'zero'
        if prop[2] and self.k is not None and bad: self.unseen.update(prop[2])
        prop = prop[:2]
        src = self.retline(i, val, env)
        self.rets.setdefault((prop, v), set()).add(src)
        self.last = (i.bb, frm)

    def retline(self, i, val, env): return i.line

def channels(ctx):
    """(function, parameter index, kind)"""
    P = ctx.prog
    out = []
    for f in P.fns.values():
        if f.internal: continue
        for k in range(len(f.params)):
            t = typed.channel(P, f, k)
            if t: out.append((f, k, t))
    return out

def check(ctx):
    P, A = ctx.prog, ctx.pta
    cache = {}; exits = {}
    def sums(f, k, given):
        key = (f.key, k, given)
        if key in cache: return cache[key]
        cache[key] = set()
        s = Proto(A, f, k, sums, given).run()
        cache[key] = {(p[0], p[1], v) for (p, v) in s.rets}
        exits[key] = s
        return cache[key]
    ch = channels(ctx)
    seen = set()
    for f, k, kind in ch:
        seen.add(f.key)
        sums(f, k, True)
        s = exits[(f.key, k, True)]
        nm = f.params[k].name
        for ex in {e.line: e for e in s.exits}.values():
            ctx.violation('%s/exit/%s' % (f.name, ''), f.file, ex.line, f.name, 'the program is ended although the caller gave %s to report the failure' % nm)
        for m in {e.line: e for e in s.masks}.values():
            ctx.violation('%s/masked/' % f.name, f.file, m.line, f.name, 'a failure that a callee stored in *%s is replaced by success without having been looked at' % nm)
        for a, c in sorted(s.unseen, key=lambda x: x[1].line):
            ctx.violation('%s/unseen/%s' % (f.name, ''), f.file, c.line, f.name, 'the failure that this call may report is not looked at before *%s reports success' % nm)
        ctx.ok(1 + len(s.nlocal))
        lastb = [b for b in f.blocks if b.insts[-1].op == 'ret']
        for ((st, fl), v), lines in sorted(s.rets.items(), key=str):
            ctx.ok()
            where = f.file, f.line, f.name
            if kind == 'ok':
                if st == 'same': ctx.violation('%s/ok/unassigned' % f.name, *where, 'a path returns without having set *%s' % nm)
                continue
            fails = (v == ('eq', 0) and f.retty == 'ptr') or fl
            if fails and st != 'nz':
                ctx.violation('%s/err/%s' % (f.name, 'unset' if st != 'zero' else 'zero'), *where,
                              'a path %s without storing an error code in *%s%s' % ('returns NULL' if not fl else 'reports a failure and returns', nm, pathtext(s, f, st, fl, v)))
            if f.retty == 'ptr' and v is not None and v[0] == 'ne' and 0 in v[1] and st in ('nz', 'any'):
                ctx.violation('%s/err/object' % f.name, *where, 'a path returns an object and an error code in *%s' % nm)
            if nm == 'error_num' and st == 'same':
                ctx.violation('%s/err/same' % f.name, *where, 'a path leaves *%s unassigned' % nm)
        if kind == 'ok':
            ctx.ok()
            sts = {st for ((st, fl), v) in s.rets}
            if not sts & {'zero', 'any'}: ctx.violation('%s/ok/never' % f.name, f.file, f.line, f.name, 'no path reports a failure in *%s' % nm)
            if not sts & {'nz', 'any'}: ctx.violation('%s/ok/always' % f.name, f.file, f.line, f.name, 'no path reports success in *%s' % nm)
        ctx.sample('%s: %s %s' % (f.name, nm, sorted((p[0], p[1], str(v)) for (p, v) in s.rets)))
    # functions the channel is handed to
    for (fk, k, given), s in list(exits.items()):
        if fk in seen or not given: continue
        f = P.fns[fk]; ctx.ok()
        for ex in {e.line: e for e in s.exits}.values():
            ctx.violation('%s/exit/' % f.name, f.file, ex.line, f.name, 'the program is ended although the caller gave a place to report the failure')
    # readers
    nread = 0
    for f in P.fns.values():
        if f.internal or f.file in ('ordie.c',): continue
        if not any('FILE' in str(t) for t in typed.ptypes(P, f).values()): continue
        cs = {i.x.v for i in f.insts() if i.op == 'call' and isinstance(i.x, Const)}
        if not cs & READ and not any(c in P.defs and {i.x.v for i in P.defs[c].insts() if i.op == 'call' and isinstance(i.x, Const)} & READ for c in cs): continue
        nread += 1; ctx.ok()
        k = next((k for g, k, kd in ch if g is f), None)
        s = Proto(A, f, k, sums, False).run()
        for ex in {e.line: e for e in s.exits}.values():
            ctx.violation('%s/reader/exit' % f.name, f.file, ex.line, f.name, 'the program is ended because of the contents of a file')
    ctx.cov.update(channels=len(ch), functions_handed_a_channel=len([1 for (fk, k, g) in exits if fk not in seen]), readers=nread)
    ctx.need(40, 'channel obligations')

def pathtext(s, f, st, fl, v): return ''
