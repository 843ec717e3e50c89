"""Comparison functions as decision procedures over order atoms.

A comparison function is evaluated abstractly on two unknown objects X and Y. Every value is an access-path term; a test between two
terms is decided by the sign (<, =, >) the abstract state holds for that pair, and splits the state when it holds none. The state is a set of signs, closed under
transitivity of the order (inconsistent states are dropped). Loops are entered with an unknown index and left after one round: a round that goes back to the test
must have found the elements equal."""
import cfg, loops
from irload import *

class Undecided(Exception): pass

def isc(t): return t[0] == 'c'

class Facts:
    """signs between terms; d maps (a, b) with a < b (as repr) to -1, 0, 1"""
    __slots__ = ('d',)
    def __init__(self, d=None): self.d = d or {}

    def get(self, a, b):
        """sign of a - b when it follows from the facts, else None"""
        if a == b: return 0
        if isc(a) and isc(b): return (a[1] > b[1]) - (a[1] < b[1])
        m = self.rel({a, b})
        if m is None: return 'bad'
        lt, le = m
        if (a, b) in lt: return -1
        if (b, a) in lt: return 1
        if (a, b) in le and (b, a) in le: return 0
        return None

    def rel(self, extra=()):
        """(strict, weak) closure or None when contradictory"""
        T = set(extra)
        for a, b in self.d: T |= {a, b}
        le = {(t, t) for t in T}; lt = set()
        cs = sorted((t for t in T if isc(t)), key=lambda t: t[1])
        for i, a in enumerate(cs):
            for b in cs[i + 1:]: (lt if a[1] < b[1] else le).add((a, b)); le.add((a, b))
        for (a, b), s in self.d.items():
            if s <= 0: le.add((a, b))
            if s >= 0: le.add((b, a))
            if s < 0: lt.add((a, b))
            if s > 0: lt.add((b, a))
        T = list(T)
        # strictness: shortest paths with strict flags
        for k in T:
            ik = [i for i in T if (i, k) in le]
            kj = [j for j in T if (k, j) in le]
            for i in ik:
                for j in kj:
                    le.add((i, j))
                    if (i, k) in lt or (k, j) in lt: lt.add((i, j))
        for t in T:
            if (t, t) in lt: return None
        # integers between neighbours are not considered
        return lt, le

    def add(self, a, b, s):
        if repr(a) > repr(b): a, b, s = b, a, -s
        d = dict(self.d); d[(a, b)] = s
        f = Facts(d)
        return f if f.rel() is not None else None

    def canon(self, t):
        """equal parts of a computed term are written the same way"""
        if t[0] != 'op': return t
        rep = {}
        for (a, b), s in self.d.items():
            if s == 0 and a[0] != 'op' and b[0] != 'op':
                if isc(a): rep[b] = a
                else: rep.setdefault(b, a) if isc(b) is False else rep.setdefault(a, b)
        def go(x):
            n = 0
            while x in rep and n < 8: x = rep[x]; n += 1
            return tuple(go(y) if isinstance(y, tuple) and y else y for y in x) if x[0] == 'op' else x
        return go(t)

    def signs(self, a, b):
        """possible (sign, facts)"""
        a, b = self.canon(a), self.canon(b)
        g = self.get(a, b)
        if g == 'bad': return []
        if g is not None: return [(g, self)]
        out = []
        for s in (-1, 0, 1):
            f = self.add(a, b, s)
            if f is not None: out.append((s, f))
        return out

def has(t, what):
    if t == what: return True
    return any(isinstance(x, tuple) and has(x, what) for x in t)

def hassym(t, ids):
    if t and t[0] == 'sym': return t[1] in ids
    return any(isinstance(x, tuple) and hassym(x, ids) for x in t)

X, Y = ('X',), ('Y',)

def swap(t):
    if t == X: return Y
    if t == Y: return X
    return tuple(swap(x) if isinstance(x, tuple) else x for x in t)

def name(t):
    """field path of a term below X, Y or a global"""
    if t in (X, Y): return ''
    k = t[0]
    if k in ('ld', 'obj'): return name(t[1])
    if k in CMPS.values(): return name(t[1]).removesuffix('[]') + ('' if k == 'str' else '~')
    if k == 'at':
        b = name(t[1])
        for s in t[2]:
            if isinstance(s, str): b = b + '.' + s if b else s
            elif s == ('c', 0): pass
            else: b += '[]'
        return b
    if k == 'g': return t[1]
    return '?'

CMPS = {'strcmp': 'str', 'strcoll': 'str', 'strcasecmp': 'stri', 'memcmp': 'mem', 'strncmp': 'strn'}
INT = {'sext', 'zext', 'bitcast', 'freeze', 'fpext', 'sitofp', 'uitofp', 'addrspacecast'}

class Eval:
    def __init__(self, A, fn, domains=()):
        self.A, self.P, self.fn = A, A.P, fn
        self.problems = {}      # (kind) -> (inst, text)
        self.loopkeys = {}      # loop -> names of the element pairs compared in it
        self.looprange = {}
        self.domains = domains
        self.steps = 0

    def paths(self, args, facts=None):
        """all (facts, return term, passed loops) of the function on these arguments"""
        return list(self.run(self.fn, args, facts or Facts(), {}, (), frozenset()))

    def bits(self, ty): return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64

    def val(self, fn, v, env):
        if isinstance(v, (Inst, Arg)):
            if v not in env: raise Undecided('value of %r' % (v,))
            return env[v]
        if isinstance(v, Const):
            if v.ck in ('int', 'fp'):
                x = v.v
                if v.ck == 'int' and self.bits(v.ty) == 1: x = x & 1
                return ('c', float(x) if v.ck == 'fp' else x)
            if v.ck in ('null', 'zero'): return ('c', 0)
            if v.ck == 'global': return ('g', v.v)
            if v.ck == 'func': return ('f', v.v)
            if v.ck == 'expr' and v.v[0] == 'gep':
                return self.gep(fn, ('g',) and self.val(fn, v.v[1][0], env), v.v[2], v.v[1], env, None)
            if v.ck == 'undef': return ('u',)
        return ('k', repr(v))

    def gep(self, fn, base, sty, ops, env, inst):
        st = []
        first = self.val(fn, ops[1], env)
        if first != ('c', 0): st.append(first)
        t = self.A._named(sty, ops[0])
        for ix in ops[2:]:
            d = self.P.types.get(t)
            if d is None: st.append(self.val(fn, ix, env)); continue
            if d[0] == 'struct':
                nm = d[1].split('.', 1)[1] if '.' in d[1] else d[1]
                fs = self.P.fields.get(nm)
                st.append(fs[ix.v] if fs else 'f%d' % ix.v); t = d[2][ix.v]
            else:
                st.append(('ix', self.val(fn, ix, env))); t = d[2]
        if not st: return base
        if base[0] == 'at' and base[2][-1] == ('ix', ('c', 0)) and first != ('c', 0):       # a decayed array
            return ('at', base[1], base[2][:-1] + (('ix', first),) + tuple(st[1:]))
        if base[0] == 'at': return ('at', base[1], base[2] + tuple(st))
        return ('at', base, tuple(st))

    def load(self, addr, mem):
        if addr in mem: return mem[addr]
        if addr[0] == 'al':
            return ('u',)
        if addr[0] == 'at' and addr[1][0] == 'al':
            b = addr[1]
            if ('copy', b) in mem:
                s = mem[('copy', b)]
                na = ('at', s[1], s[2] + addr[2]) if s[0] == 'at' else ('at', s, addr[2])
                return self.load(na, mem)
            raise Undecided('local aggregate')
        return ('ld', addr)

    def run(self, fn, args, facts, mem, chain, passed):
        if len(chain) > 5: raise Undecided('recursion')
        env = {}
        for p, a in zip(fn.params, args): env[p] = a
        lp = cfg.loops(fn)
        st = [(fn.blocks[0], None, 0, env, facts, mem, passed)]
        while st:
            b, frm, n, env, facts, mem, passed = st.pop()
            self.steps += 1
            if self.steps > 60000: raise Undecided('too many cases')
            if n == 0 and b in lp and frm is not None:
                L = (chain, fn.key, b.id)
                if frm in lp[b]:
                    self.back(fn, b, env, facts, L, chain)
                    continue
                passed = passed | {L}
            insts = b.insts
            dead = False
            if n == 0:
                new = {}
                for i in insts:
                    if i.op != 'phi': break
                    o = i.ops[i.x.index(frm)]
                    if b in lp and any(x in lp[b] and q is not i for q, x in zip(i.ops, i.x)):
                        if i.ty == 'ptr': raise Undecided('moving pointer')
                        new[i] = ('sym', (chain, i.id))
                    else: new[i] = self.val(fn, o, env)
                env = {**env, **new} if new else env
                while n < len(insts) and insts[n].op == 'phi': n += 1
            env = dict(env)
            while n < len(insts):
                i = insts[n]; n += 1
                if i.op == 'br':
                    if len(b.succs) == 1: st.append((b.succs[0], b, 0, env, facts, mem, passed)); break
                    c = self.val(fn, i.ops[0], env)
                    for v, f in self.truth(c, facts):
                        s = b.succs[0] if v else b.succs[1]
                        p2 = passed
                        for h, body in lp.items():
                            if b in body and s not in body:
                                self.range(fn, h, b, chain, env)
                                if h in b.succs and h is not b: self.back(fn, h, env, f, (chain, fn.key, h.id), chain)      # tested after the round
                                p2 = p2 | {('exit', (chain, fn.key, h.id), b.id)}
                        st.append((s, b, 0, env, f, mem, p2))
                    break
                if i.op == 'switch': raise Undecided('switch')
                if i.op == 'ret':
                    yield facts, (self.val(fn, i.ops[0], env) if i.ops else None), passed, mem, i
                    break
                if i.op == 'unreachable': break
                if i.op == 'call':
                    if self.A.noreturn(fn, i): break
                    k = self.call(fn, i, env, facts, mem, chain, passed)
                    if k is None: continue
                    for f2, r, p2, m2 in k:
                        e2 = dict(env); e2[i] = r
                        st.append((b, frm, n, e2, f2, m2, p2))
                    break
                if i.op in ('icmp', 'fcmp'):
                    alts = self.cmp(fn, i, env, facts)
                    if len(alts) == 1: env[i] = ('c', int(alts[0][0])); facts = alts[0][1]; continue
                    for v, f in alts:
                        e2 = dict(env); e2[i] = ('c', int(v))
                        st.append((b, frm, n, e2, f, mem, passed))
                    break
                if i.op == 'select':
                    alts = self.truth(self.val(fn, i.ops[0], env), facts)
                    for v, f in alts:
                        e2 = dict(env); e2[i] = self.val(fn, i.ops[1 if v else 2], env)
                        st.append((b, frm, n, e2, f, mem, passed))
                    break
                if i.op == 'store':
                    a = self.val(fn, i.ops[1], env)
                    if not has2(a, 'al'): raise Undecided('store')
                    mem = dict(mem); mem[a] = self.val(fn, i.ops[0], env); continue
                if i.op == 'load':
                    t = self.load(self.val(fn, i.ops[0], env), mem)
                    env[i] = t
                    dom = self.domain(t) if i.ty != 'ptr' else None
                    if dom and not any(facts.get(t, ('c', v)) == 0 for v in dom):
                        for v in dom:
                            f = facts.add(t, ('c', v), 0)
                            if f is not None: st.append((b, frm, n, env, f, mem, passed))
                        break
                    continue
                env[i] = self.pure(fn, i, env, chain)

    def domain(self, t):
        nm = name(t) if t[0] == 'ld' else ''
        for suffix, dom in self.domains:
            if nm in (suffix, suffix + '[]') or nm.endswith(('.' + suffix, '.' + suffix + '[]')): return dom
        return None

    def pure(self, fn, i, env, chain):
        if i.op == 'alloca': return ('al', fn.key, i.id, chain)
        if i.op == 'gep': return self.gep(fn, self.val(fn, i.ops[0], env), i.x, i.ops, env, i)
        if i.op in INT: return self.val(fn, i.ops[0], env)
        a = [self.val(fn, o, env) for o in i.ops]
        if i.op in ('trunc', 'fptrunc'):
            if a[0][0] in ('sub', 'fsub'): return ('cut', a[0], self.bits(i.ty), i.line)
            if a[0][0] == 'c' and i.op == 'trunc':
                w = self.bits(i.ty); v = int(a[0][1]) & ((1 << w) - 1)
                if w > 1 and v >> (w - 1): v -= 1 << w
                return ('c', v)
            return a[0]
        if i.op in ('fptosi', 'fptoui'):
            if a[0][0] == 'fsub': return ('cut', a[0], 0, i.line)
            return ('op', i.op, a[0])
        if i.op in ('sub', 'fsub'):
            x, y = a
            if isc(x) and isc(y): return ('c', x[1] - y[1])
            if x == y: return ('c', 0)
            if y == ('c', 0): return x
            if x == ('c', 0) and y[0] in ('sub', 'fsub', 'sgn'): return (y[0], y[2], y[1]) + y[3:]
            return (i.op, x, y, self.width(i))
        if i.op in ('add', 'mul', 'and', 'or', 'xor') and isc(a[0]) and isc(a[1]):
            x, y = int(a[0][1]), int(a[1][1])
            return ('c', {'add': x + y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y}[i.op])
        if i.op == 'add' and a[1] == ('c', 0): return a[0]
        if i.op == 'mul' and a[1] == ('c', -1) and a[0][0] in ('sub', 'sgn'): return (a[0][0], a[0][2], a[0][1]) + a[0][3:]
        if i.op in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'): a = sorted(a, key=repr)
        return ('op', i.op) + tuple(a)

    def width(self, i):
        """widest operand before extension"""
        w = 0
        for o in i.ops:
            while isinstance(o, Inst) and o.op in ('sext', 'zext'): o = o.ops[0]
            if isinstance(o, (Inst, Arg)): w = max(w, self.bits(o.ty))
        return w

    def truth(self, c, facts):
        if isc(c): return [(bool(c[1]), facts)]
        return [(s != 0, f) for s, f in self.signed(c, ('c', 0), facts)]

    def signed(self, a, b, facts):
        if b == ('c', 0) and a[0] in ('sub', 'fsub', 'sgn'): return facts.signs(a[1], a[2])
        if a == ('c', 0) and b[0] in ('sub', 'fsub', 'sgn'): return facts.signs(b[2], b[1])
        if a[0] == 'cut' or b[0] == 'cut': raise Undecided('test of a shortened difference')
        return facts.signs(a, b)

    def cmp(self, fn, i, env, facts):
        a, b = (self.val(fn, o, env) for o in i.ops)
        if a[0] == 'u' or b[0] == 'u': raise Undecided('undefined value')
        p = i.x
        if p in ('true', 'false'): return [(p == 'true', facts)]
        if i.op == 'fcmp':
            if p == 'ord': return [(True, facts)]
            if p == 'uno': return [(False, facts)]
            p = p[1:] if p[0] in 'ou' and p[1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') else p
        elif p[0] in 'su' and p[1:] in ('lt', 'le', 'gt', 'ge'): p = p[1:]
        if i.op == 'icmp' and p in ('le', 'gt') and less1(b) is not None: b, p = less1(b), {'le': 'lt', 'gt': 'ge'}[p]      # i <= n - 1
        elif i.op == 'icmp' and p in ('ge', 'lt') and less1(a) is not None: a, p = less1(a), {'ge': 'gt', 'lt': 'le'}[p]
        ok = {'eq': (0,), 'ne': (-1, 1), 'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1)}[p]
        if p in ('lt', 'le', 'gt', 'ge') and (issym(a) or issym(b)):
            # the test of a loop: on leaving it the index is the bound
            a, b = facts.canon(a), facts.canon(b)
            g = facts.get(a, b)
            if g is None:
                yes = -1 if p in ('lt', 'le') else 1
                out = [(True, facts.add(a, b, yes)), (False, facts.add(a, b, 0 if p in ('lt', 'gt') else -yes))]
                return [x for x in out if x[1] is not None]
        return [(s in ok, f) for s, f in self.signed(a, b, facts)]

    def call(self, fn, i, env, facts, mem, chain, passed):
        nm = i.x.v if isinstance(i.x, Const) else None
        if nm and nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')): return None
        if nm and nm.startswith('llvm.memcpy'):
            d, s = self.val(fn, i.ops[0], env), self.val(fn, i.ops[1], env)
            if d[0] != 'al': raise Undecided('block copy')
            m2 = dict(mem); m2[('copy', d)] = s
            return [(facts, ('u',), passed, m2)]
        if nm and (nm in ('fabs', 'abs', 'labs') or nm.startswith(('llvm.fabs', 'llvm.abs'))):
            a = self.val(fn, i.ops[0], env)
            if a == ('c', 0) or isc(a): return [(facts, ('c', abs(a[1])), passed, mem)]
            if a[0] in ('sub', 'fsub'): a = (a[0],) + tuple(sorted(a[1:3], key=repr))
            return [(facts, ('op', 'abs', a), passed, mem)]
        args = [self.val(fn, o, env) for o in i.ops]
        if nm in CMPS:
            k = CMPS[nm]
            if k == 'strn' and isc(args[2]) and args[2][1] >= 1024: k = 'str'
            return [(facts, ('sgn', (k, args[0]), (k, args[1])) if args[0] != args[1] else ('c', 0), passed, mem)]
        if nm is None:
            if len(args) == 2 and all(o.ty == 'ptr' for o in i.ops):
                return [(facts, ('sgn', ('obj', args[0]), ('obj', args[1])) if args[0] != args[1] else ('c', 0), passed, mem)]
            raise Undecided('indirect call')
        g = self.P.resolve(fn, nm)
        if g is not None and g.blocks:
            out = []
            for f2, r, p2, m2, ri in self.run(g, args, facts, mem, chain + (i.id,), passed): out.append((f2, r if r is not None else ('u',), p2, m2))
            return out
        if nm in ('printf', 'fprintf', 'puts'): return [(facts, ('u',), passed, mem)]
        return [(facts, ('op', nm) + tuple(args), passed, mem)]

    def back(self, fn, h, env, facts, L, chain):
        """a round of the loop ends without a verdict"""
        ids = {(chain, i.id) for i in h.insts if i.op == 'phi'}
        T = {x for ab in facts.d for x in ab if hassym(x, ids) and has(x, X) and not has(x, Y)}
        for a in T:
            s = facts.get(a, swap(a))
            if s == 0: self.loopkeys.setdefault(L, set()).add(name(a))
            elif s in (-1, 1): self.problems.setdefault('carry', (h.insts[-1].line, 'goes on to the next element although the elements compared differ (%s)' % name(a)))

    def range(self, fn, h, b, chain, env):
        """the test in block b that leaves the loop: looprange[loop][block] = (start, step, bound term, offset, line)"""
        L = (chain, fn.key, h.id)
        R = self.looprange.setdefault(L, {})
        if b.id in R: return
        for C in loops.counted(fn):
            if C.header is not h: continue
            for p, off, bound, bb in C.conds:
                if bb is not b or C.step < 0 or p not in ('slt', 'ult', 'ne', 'sle', 'ule'): continue
                bv, c = loops.affine(bound)
                i0 = C.init.v if isinstance(C.init, Const) and C.init.ck == 'int' else None
                try: bt = self.val(fn, bv, env)
                except Undecided: bt = None
                late = C.step if b is not h and off else 0            # tested after the element was handled
                R[b.id] = (i0, C.step, bt, c - off + late + (1 if p in ('sle', 'ule') else 0), b.insts[-1].line)

    def sign(self, t, facts):
        """possible (sign, facts) of a returned term"""
        if isc(t): return [((t[1] > 0) - (t[1] < 0), facts)]
        if t[0] in ('sub', 'fsub', 'sgn'): return facts.signs(t[1], t[2])
        if t[0] == 'cut':
            s = t[1]
            if t[2] == 0: self.problems.setdefault('cut', (t[3], 'returns a floating-point difference without its fraction: values less than 1 apart count as equal'))
            elif s[3] > t[2]: self.problems.setdefault('cut', (t[3], 'returns the low %d bits of a %d-bit difference' % (t[2], s[3])))
            return facts.signs(s[1], s[2])
        raise Undecided('sign of %s' % (t[0],))

def issym(t): return t[0] == 'sym' or t[:2] == ('op', 'add') and any(issym(x) for x in t[2:]) and any(isc(x) for x in t[2:])

def less1(t):
    """n for the term n - 1"""
    if t[:2] == ('op', 'add') and len(t) == 4:
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x == ('c', -1) and not isc(y): return y
    if t[0] == 'sub' and t[2] == ('c', 1): return t[1]
    return None

def has2(t, k): return t[0] == k or t[0] == 'at' and t[1][0] == k
