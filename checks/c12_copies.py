"""C12: a copy holds everything the original holds."""
import os, re
import irload, bounds, loops, cfg, prov
from bounds import lconst, ladd
from prov import shape, nm
from irload import *

META = dict(
    rule='in every copy function each part of the object (scalar fields, every element of every counted array, every node of every list) is written from the same '
         'part of the original, with the same index, over the whole range of the count, on every path that returns the copy, and not overwritten afterwards',
    explanation='Constructors are inlined. Addresses are access paths rooted in the argument or in the returned object; a store or block copy whose target path equals '
                'its source path covers that part. The loops around it run from the first to the last element, and the branches around it are only left out when '
                'the part they guard is empty. contracts/copies.txt lists the parts of each kind of object.',
    assumptions=['the copy functions named as trusted copiers of sub-objects are themselves in the list'])

def load_spec(path):
    out = []
    for l in open(path):
        l = l.split('#', 1)[0] if l.lstrip().startswith('#') else l
        l = l.strip()
        if not l: continue
        w = l.split()
        if w[0] == 'copy': out.append(dict(fn=w[1], arg=int(w[2]), file=w[3], inline=[] if w[4] == '-' else w[4].split(','), parts=[], alt={}, type=w[5] if len(w) > 5 else None))
        elif w[0] == 'self': out[-1]['parts'].append(('self', parse(w[1])))
        elif w[0] == 'alt': out[-1]['alt'][w[1]] = w[2:]
        elif '~' in l:
            a, b = l.split(':', 1)
            out[-1]['parts'].append(('list', a.split('~')[0], b.split()))
        else: out[-1]['parts'].append(('part', parse(l)))
    return out

def parse(s):
    """steps; array steps are (low, count steps, extra)"""
    steps = []
    i = 0
    while i < len(s):
        if s[i] == '.': i += 1
        elif s[i] == '[':
            d = 0
            for j in range(i, len(s)):
                d += (s[j] == '[') - (s[j] == ']')
                if d == 0: break
            lo, hi = s[i + 1:j].split(':')
            steps.append((int(lo), int(hi) if hi.isdigit() else parse(hi.replace('[#]', '[0:0]'))))
            i = j + 1
        else:
            m = re.match(r'\w+', s[i:]); steps.append(m.group(0)); i += m.end()
    return steps

def pname(p): return ''.join('[]' if isinstance(s, tuple) else ('.' + s) for s in p).lstrip('.')

def check(ctx):
    spec = load_spec(os.path.join(VERIF, 'contracts', 'copies.txt'))
    inl = sorted({x for s in spec for x in s['inline']})
    files = sorted({s['file'] for s in spec})
    lib = ctx.prog
    where = {}
    for s in spec:
        f = lib.defs.get(s['fn'])
        if f is not None: where[s['fn']] = f.mod.src
    files = sorted(set(where.values()))
    mods = irload.load_sources(files, inline=inl)
    P = Program([mods[f] for f in files])
    mem = bounds.Mem(P)
    copiers = {s['fn'] for s in spec}
    for s in spec:
        fn = P.defs.get(s['fn'])
        if fn is None: continue
        One(ctx, P, lib, mem, fn, s, copiers).run()
    ctx.need(40, 'parts of copied objects')

class One:
    def __init__(self, ctx, P, lib, mem, fn, s, copiers):
        self.ctx, self.P, self.fn, self.s, self.lib = ctx, P, fn, s, lib
        self.B = bounds.Bounds(P, mem, {}, fn)
        self.V = prov.Prov(P, fn, self.B, s['arg'], copiers)
        self.V.fills = []
        t = self.roottype()
        self.V.rtype = 'struct %s*' % t if t else None
        self.copiers = copiers
        self.mem = mem
        self.S = ('arg', s['arg'])

    def bad(self, part, line, msg): self.ctx.violation('%s/%s' % (self.fn.name, part), self.fn.mod.src, line, self.fn.name, msg)

    def run(self):
        V = self.V; fn = self.fn
        res = V.results()
        main = []
        for v, blks in res.items():
            n = V.callee(v) if v.op == 'call' else None
            if n in self.copiers:
                p = V.path(v.ops[0])
                if p == (self.S, ()): self.ctx.ok(); continue
                self.bad('result', v.line, 'returns a copy of something else than its argument'); continue
            if n in self.s['alt']:
                self.alt(v, n); continue
            if v.op == 'call' and n in prov.ALLOC: main.append(v); continue
            p = V.path(v)
            if p is not None and p[0] == self.S: self.bad('result', v.line, 'returns the original (or a part of it), not a copy'); continue
            self.bad('result', v.line, 'returns an object that is not made from the argument')
        if not self.s['parts']: return
        if not main:
            if self.s['parts']: self.bad('result', fn.line, 'returns no newly built copy')
            return
        self.sites = list(self.collect())
        for kind, *a in self.s['parts']:
            if kind == 'self': self.selfref(a[0])
            elif kind == 'part': self.part(a[0])
            else: self.list(*a)

    # ------------------------------------------------------------ sites
    def collect(self):
        """(instruction, target steps in the result, source path or None, covers everything below, whole array)"""
        V = self.V
        for i in self.fn.insts():
            if i.op == 'store':
                p = V.own(V.acc(i.ops[1]))
                if p is None: continue
                V.fills = []
                src = V.value(i.ops[0])
                yield i, p[1], src, False, None, list(V.fills)
            elif i.op == 'call':
                n = V.callee(i) or ''
                if n.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) or n in ('strcpy', 'strncpy'):
                    p = V.own(V.path(i.ops[0]))
                    if p is None: continue
                    q = V.path(i.ops[1])
                    if q is not None and q[0][0] == 'loc':
                        V.fills = []; r = V.through(q, i, 0); q = r if r else q
                    yield i, p[1], V.norm(q) if q else None, True, ('str' if n.startswith('str') else i.ops[2]), []
                elif n == 'nplc_vect_copy':
                    ps = [o for o in i.ops if o.ty == 'ptr']
                    if len(ps) != 2: continue
                    p, q = (self.vect(o) for o in ps)
                    p = V.own(p) if p else None
                    if p is None: continue
                    yield i, p[1], V.norm(q) if q else None, True, None, []

    def vect(self, o):
        """the nplc_vector whose coordinates (or whose by-value copy) are passed"""
        p = self.V.path(o)
        if p is not None and p[0][0] == 'loc':
            r = self.V.through(p, None, 0)
            p = r if r else p
        if p is not None and p[1] and p[1][-1] in ('c', 'f0'): return p[0], p[1][:-1]
        return p

    def size(self, steps):
        """element type size of the target is what a plain structure copy covers"""

    # ------------------------------------------------------------ one part
    def part(self, spec):
        want = shape(spec)
        name = pname(spec)
        cover = []; other = []; wrong = []
        for st in self.sites:
            i, dst, src, blk, size, fills = st
            sh = shape(dst)
            whole = None
            if blk and size is not None and len(sh) < len(want) and want[:len(sh)] == sh and want[len(sh)] == '[]':
                whole = len(sh)      # block copy of a whole array
            elif blk and sh and sh == want[:len(sh)] and sh[-1] == '[]' and not dst[-1][1][0] and self.several(dst, spec[:len(sh)], size):
                whole = len(sh) - 1  # the same, from a constant index on
            elif not (sh == want[:len(sh)] if blk else sh == want or (want[:len(sh)] == sh and self.structval(i))):
                # a sub-part of a structure element
                if sh[:len(want)] == want and len(sh) > len(want): other.append(st)
                continue
            if not self.same(dst, src): wrong.append(st); continue
            cover.append((st, whole))
        # a structure copied field by field
        if not cover and other:
            return self.fields(spec, other)
        if not cover:
            if self.vague(): self.ctx.sample('%s: %s undecided' % (self.fn.name, name)); return
            if wrong:
                i = wrong[-1][0]
                return self.bad(name, i.line, 'the copy\'s %s is not taken from the original\'s %s' % (name, name))
            return self.bad(name, self.fn.line, 'nothing is copied to %s' % name)
        why = None
        for (st, whole) in cover:
            why = self.range(spec, st, whole) or self.must(spec, st[0])
            if why is None: break
        if why: return self.bad(name, st[0].line, why)
        for w in wrong:
            if isinstance(w[0].ops[0], Const) and w[0].op == 'store' and w[0].ops[0].ck == 'null': pass
            if self.after(st[0], w[0]): return self.bad(name, w[0].line, 'the %s just copied is overwritten' % name)
        if self.clobbered(spec, st[0]): return
        self.ctx.ok(); self.ctx.sample('%s: %s' % (self.fn.name, name))

    def vague(self):
        """the function writes or reads through a pointer whose place in the object is not known (a moving pointer, say)"""
        V = self.V
        for i in self.fn.insts():
            if i.op == 'store':
                v = i.ops[0]
                while isinstance(v, Inst) and v.op in prov.CASTS: v = v.ops[0]
                if V.path(i.ops[1]) is None or isinstance(v, Inst) and v.op == 'load' and V.path(v.ops[0]) is None: return True
            elif i.op == 'call' and (V.callee(i) or '').startswith(('llvm.mem', 'mem')) and any(V.path(o) is None for o in i.ops[:2] if o.ty == 'ptr'): return True
        return False

    def selfref(self, spec):
        """a back pointer of the copy leads to the copy"""
        name = pname(spec)
        why = 'the %s of the copy is not set to the copy' % name
        for i in self.fn.insts():
            if i.op != 'store': continue
            p = self.V.acc(i.ops[1]); v = self.V.path(i.ops[0])
            o = self.V.own(p); w = self.V.own(v)
            if w is None or w[1] != () : continue
            if o is None or shape(o[1]) != shape(spec): continue
            st = (i, o[1], None, False, None, [])
            why = self.range(spec, st, None) or self.must(spec, i)
            if why is None: break
        if why: return self.bad(name, self.fn.line, why)
        self.ctx.ok(); self.ctx.sample('%s: %s is the copy' % (self.fn.name, name))

    def several(self, dst, spec, size):
        """the block is more than one element"""
        if not isinstance(size, (Inst, Const)): return False
        if isinstance(size, Inst): return True
        es = self.esize(dst, spec)
        return bool(es) and size.v > es

    def structval(self, i): return False

    def fields(self, spec, sites):
        """every field of the element type is copied on its own"""
        want = shape(spec)
        t = self.elem(spec)
        names = self.P.fields.get(t) if t else None
        if not names: return self.bad(pname(spec), sites[0][0].line, 'only parts of %s are copied' % pname(spec))
        for k, f in enumerate(names):
            sub = list(spec) + [f]
            ty = self.P.types.get('%struct.' + t)
            ft = self.P.types.get(ty[2][k]) if ty else None
            if ft and ft[0] == 'array': sub.append((0, ft[1]))
            self.part(sub)

    def elem(self, spec):
        """struct name of the elements of an array field, following the field names"""
        cur = None
        names = [s for s in spec if isinstance(s, str)]
        for st, fl in self.P.fields.items():
            if names[0] in fl and st == self.roottype():
                cur = self.P.stypes[st][fl.index(names[0])]
        for n in names[1:]:
            if cur is None: return None
            b = re.sub(r'^(struct|union) ', '', cur.replace('const ', '').rstrip('*[] '))
            fl = self.P.fields.get(b)
            if not fl or n not in fl: return None
            cur = self.P.stypes[b][fl.index(n)]
        return re.sub(r'^(struct|union) ', '', cur.replace('const ', '').rstrip('*[] ')) if cur else None

    def roottype(self):
        import typed
        if self.s['type']: return self.s['type']
        t = typed.ptypes(self.lib, self.lib.defs[self.fn.name]).get(self.s['arg'])
        return re.sub(r'\b(struct|union|const)\b|[*\s]', '', t) if t else None

    def same(self, dst, src):
        """the target path of the result is the source path of the original"""
        if src is None: return False
        if src[0] == 'copy': src = src[1]
        if src is None or src[0] != self.S: return False
        a, b = list(dst), list(src[1])
        return canon(a) == canon(b)

    # ------------------------------------------------------------ ranges
    def range(self, spec, st, whole):
        """None when the loops around the site cover the whole range"""
        i, dst, src, blk, size, fills = st
        arr = [(k, s) for k, s in enumerate(spec) if isinstance(s, tuple)]
        idx = [d for d in dst if isinstance(d, tuple)]
        seen = []
        for n, (k, (lo, cnt)) in enumerate(arr):
            if whole is not None and k >= whole:
                at = 0
                if n < len(idx):
                    at = idx[n][1][1]
                    if at > lo: return 'the block copied to %s starts %d elements late' % (pname(spec), at - lo)
                return self.wholesize(cnt, size, idx[:n], dst, spec, at)
            if n >= len(idx): return None      # the copied structure contains the rest
            r = self.covers(idx[n][1], lo, cnt, idx[:n], i)
            if r: return 'the loop that copies %s %s' % (pname(spec), r)
            seen.append(idx[n])
        for s, l, at in fills:
            lo, cnt = 0, None
            for n, (k, c) in enumerate(arr):
                if n < len(idx) and idx[n][1] == at: lo, cnt = c
            r = self.covers(l, lo, cnt, (), s)
            if not r and self.inner(spec, s): r = 'leaves out elements'
            if r: return 'the loop that collects the values for %s %s' % (pname(spec), r)
        return None

    def covers(self, lin, lo, cnt, outer, at):
        if not lin[0]:
            # a constant index: an unrolled loop over a fixed number of elements
            if isinstance(cnt, int) and cnt <= 8:
                return None if self.unrolled(at, cnt) else 'does not copy every element'
            return 'copies a single element'
        if len(lin[0]) != 1 or lin[0][0][1] != 1: return 'uses an index that is not the loop variable'
        sym = lin[0][0][0]; off = lin[1]
        i = self.B.inst(sym[1]) if sym[0] == 'v' else None
        L = self.B.phis.get(i) if i is not None else None
        if L is None: return 'is not a counted loop'
        if abs(L.step) != 1: return 'moves in steps of %d' % L.step
        init = self.B.lin(L.init)
        ends = [c for c in L.conds]
        if len([b for b in L.body if any(s not in L.body for s in b.succs) and not self.dying(b, L.body)]) > 1: return 'can end early'
        if L.step == 1:
            if not init[0]:
                if init[1] + off > lo: return 'starts %d elements late' % (init[1] + off - lo)
            else: return 'does not start with the first element'
            for p, o, bound, b in ends:
                if p not in ('slt', 'ult', 'sle', 'ule', 'ne'): continue
                return self.limit(bound, (1 if p in ('sle', 'ule') else 0) - o + off, cnt, outer)
            return 'has no limit that can be recognised'
        # downwards: starts at the count, ends at the lowest
        for p, o, bound, b in ends:
            bl = self.B.lin(bound)
            if bl[0] or p not in ('sgt', 'sge', 'ne', 'ugt'): continue
            low = bl[1] - o + (0 if p == 'sge' else 1) + off
            if low > lo: return 'ends %d elements early' % (low - lo)
            v, c = loops.affine(L.init)
            return self.limit(v, c + 1 + off, cnt, outer)
        return 'has no limit that can be recognised'

    def dying(self, b, body):
        """the edges of b that leave the loop only lead to the end of the program"""
        outs = [s for s in b.succs if s not in body]
        return all(self.dead(s) for s in outs)

    def dead(self, b):
        seen = {b}; work = [b]
        while work:
            x = work.pop()
            if x.insts[-1].op == 'ret': return False
            for s in x.succs:
                if s not in seen: seen.add(s); work.append(s)
        return True

    def limit(self, bound, add, cnt, outer):
        if cnt is None: return None
        v, c = loops.affine(bound)
        c += add
        if isinstance(cnt, int):
            n = v.v + c if isinstance(v, Const) else None
            if n is None: return 'has a limit that is not %d' % cnt
            return None if n >= cnt else 'ends %d elements early' % (cnt - n)
        if c < 0: return 'ends %d elements early' % -c
        p = self.V.value(v)
        if p is None:
            pp = self.V.acc(v.ops[0]) if isinstance(v, Inst) and v.op == 'load' else None
            p = self.V.own(pp) if pp else None
        if p is None or p[0] not in (self.S, ('ret',)):
            o = self.V.own(p) if p is not None and p[0] != 'copy' else None
            if o is None: return 'has a limit that is not the count of the original'
            p = o
        if shape(p[1]) != shape(cnt): return 'has the limit %s instead of %s' % (pname(p[1]), pname(cnt))
        have = [s[1] for s in p[1] if isinstance(s, tuple)]
        if have and [x[1] for x in outer][:len(have)] != have: return 'has the limit of another element'
        return None

    def unrolled(self, at, cnt):
        """sites with every constant index 0..cnt-1 exist"""
        d0 = next(d for (i, d, *_) in self.sites if i is at)
        got = set()
        for i, d, src, *_ in self.sites:
            if shape(d) != shape(d0) or not self.same(d, src): continue
            last = [x for x in d if isinstance(x, tuple)][-1]
            if not last[1][0]: got.add(last[1][1])
        return got >= set(range(cnt))

    def wholesize(self, cnt, size, idx, dst, spec, at=0):
        if size == 'str': return None
        v = size
        k = 1
        while isinstance(v, Inst):
            if v.op in ('zext', 'sext', 'trunc'): v = v.ops[0]
            elif v.op == 'mul' and isinstance(v.ops[1], Const): k *= v.ops[1].v; v = v.ops[0]
            elif v.op == 'mul' and isinstance(v.ops[0], Const): k *= v.ops[0].v; v = v.ops[1]
            elif v.op == 'shl' and isinstance(v.ops[1], Const): k <<= v.ops[1].v; v = v.ops[0]
            else: break
        es = self.esize(dst, spec)
        if isinstance(cnt, int):
            return None if isinstance(v, Const) and v.v * k >= (cnt - at) * (es or 1) else 'the block copied to %s is not the whole array' % pname(spec)
        if es and k < es: return 'the block copied to %s is %d bytes per element instead of %d' % (pname(spec), k, es)
        r = self.limit(v, at, cnt, idx)
        return 'the block copied to %s %s' % (pname(spec), r) if r else None

    def esize(self, dst, spec):
        t = self.elem(spec)
        if t is None: return None
        it = bounds.irtype(self.P, t)
        return bounds.sizeof(self.P, it)[0] if it else None

    # ------------------------------------------------------------ every path
    def must(self, spec, site):
        """None when every path that returns the copy executes the site (or the guarded part is empty)"""
        fn = self.fn
        ls = sorted(((h, b) for h, b in cfg.loops(fn).items() if site.bb in b), key=lambda x: -len(x[1]))
        # outside: from the entry to a return of the object
        target = ls[0][0] if ls else site.bb
        if self.missed(target, spec): return 'is not copied on every path (%s)' % pname(spec)
        return self.inner(spec, site)

    def inner(self, spec, site):
        ls = sorted(((h, b) for h, b in cfg.loops(self.fn).items() if site.bb in b), key=lambda x: -len(x[1]))
        for n, (h, body) in enumerate(ls):
            inner = ls[n + 1][0] if n + 1 < len(ls) else site.bb
            if inner is h: continue
            latches = {(b, h) for b in body if h in b.succs}
            if self.skips(h, inner, latches, body, spec): return 'is not copied for every element (%s)' % pname(spec)
        return None

    def missed(self, target, spec):
        """a path from the making of the copy to its return avoids target, other than by a test that finds the part empty"""
        for v in self.V.results():
            if v.op != 'call' or self.V.callee(v) not in prov.ALLOC or v.bb is target: continue
            st = (v.bb, frozenset([v]))
            seen = {st}; work = [st]
            while work:
                b, hold = work.pop()
                r = b.insts[-1]
                if r.op == 'ret' and r.ops and r.ops[0] in hold: return True
                for k, s in enumerate(b.succs):
                    if s is target or self.empty(b, k, spec): continue
                    h = set(hold)
                    for p in s.insts:
                        if p.op != 'phi': break
                        h.discard(p)
                        for o, f in zip(p.ops, p.x):
                            if f is b and self.V.strip(o) in hold: h.add(p)
                    if not h: continue
                    st = (s, frozenset(h))
                    if st not in seen: seen.add(st); work.append(st)
        return False

    def skips(self, start, target, ends, body, spec):
        """a path from start to one of the end edges avoids target, other than by a test that finds the part empty"""
        if start is target: return False
        seen = {start}; work = [start]
        while work:
            b = work.pop()
            for k, s in enumerate(b.succs):
                if (b, s) in ends and b is not target: return True
                if body is not None and s not in body: continue
                if s is target or s in seen: continue
                if self.empty(b, k, spec): continue
                seen.add(s); work.append(s)
            if (b, None) in ends: return True
        return False

    def empty(self, b, k, spec):
        """edge k of b is taken when (a prefix of) the part is NULL or has no elements"""
        t = b.insts[-1]
        if t.op != 'br' or not t.ops: return False
        c = t.ops[0]
        if not (isinstance(c, Inst) and c.op == 'icmp'): return False
        pred = c.x if k == 0 else loops.NEG[c.x]
        x, y = c.ops
        if isinstance(x, Const): x, y, pred = y, x, loops.SWP[pred]
        if not isinstance(y, Const) or y.ck not in ('int', 'null'): return False
        z = y.v if y.ck == 'int' else 0
        if not (pred in ('eq', 'sle', 'ule') and z == 0 or pred in ('slt', 'ult') and z == 1): return False
        p = self.V.value(x)
        if p is not None and p[0] == 'copy': p = p[1]
        if p is None: return False
        if p[0] != self.S:
            p = self.V.own(p) if p[0] not in ('copy', ('ret',)) else p
            if p is None or p[0] != ('ret',): return False
        sh = shape(p[1])
        if sh == shape(spec)[:len(sh)]: return True
        return any(isinstance(s, tuple) and not isinstance(s[1], int) and shape(s[1]) == sh for s in spec)

    def after(self, site, w):
        """w is executed after the site (not counting the next round of a common loop)"""
        fn = self.fn
        if site.bb is w.bb: return w.pos > site.pos
        back = {(b, h) for h, body in cfg.loops(fn).items() if site.bb in body and w.bb in body for b in body if h in b.succs}
        seen = {site.bb}; work = [site.bb]
        while work:
            b = work.pop()
            for s in b.succs:
                if (b, s) in back or s in seen: continue
                if s is w.bb: return True
                seen.add(s); work.append(s)
        return False

    def clobbered(self, spec, site):
        """a function called afterwards with the copy changes the part"""
        f = [s for s in spec if isinstance(s, str)]
        if not f: return False
        libmem = self.libmem()
        for i in self.fn.insts():
            if i.op != 'call' or not self.after(site, i): continue
            n = self.V.callee(i)
            g = self.lib.defs.get(n) if n else None
            if g is None or n in ('plc_fix_wrap', 'nplc_fix_wrap'): continue
            if not any(o.ty == 'ptr' and (self.V.own(self.V.path(o)) or (None, (1,)))[1] == () for o in i.ops if hasattr(o, 'ty')): continue
            for c in libmem.all[g.key]:
                if isinstance(c[1], int) and c[0].startswith('%'):
                    fl = self.lib.fields.get(nm(c[0]))
                    if fl and c[1] < len(fl) and fl[c[1]] == f[-1]:
                        self.bad(pname(spec), i.line, '%s changes the %s just copied' % (n, pname(spec))); return True
        return False

    def libmem(self):
        if not hasattr(self.ctx, '_libmem'): self.ctx._libmem = bounds.Mem(self.lib)
        return self.ctx._libmem

    # ------------------------------------------------------------ lists
    def list(self, head, fields):
        V = self.V; fn = self.fn
        nodes = {}
        it = bounds.irtype(self.P, self.elem([head]) or '')
        es0 = bounds.sizeof(self.P, it)[0] if it else None
        for i, dst, src, blk, size, fills in self.sites:
            if not dst or dst[0] != head: continue
            q = V.acc(i.ops[1]) if i.op == 'store' else V.path(i.ops[0])
            rest = [s for s in dst[1:] if s != '~']
            if not rest and not (blk and isinstance(size, Const) and es0 and size.v >= es0): continue
            if q[0][0] == 'heap': nodes.setdefault(q[0][1], []).append((i, rest, src, size))
        if not nodes and self.vague(): return
        if not nodes: return self.bad(head, fn.line, 'the list %s is not copied' % head)
        looped = False; first = False;
        for node, sts in nodes.items():
            inloop = [(h, b) for h, b in cfg.loops(fn).items() if node.bb in b]
            for f in fields:
                got = set(); line = node.line
                n, es = self.extent(head, f)
                for i, rest, src, size in sts:
                    if rest and rest[0] != f: continue
                    if not rest:
                        if src is not None and src[0] == self.S and src[1] and src[1][0] == head and not [s for s in src[1][1:] if s != '~']: got |= set(range(n))
                        continue
                    line = i.line
                    if src is not None and src[0] == self.S and src[1] and src[1][0] == head:
                        r = [s for s in src[1][1:] if s != '~']
                        if canon(r) != canon(rest): continue
                        ix = [s for s in canon(rest) if isinstance(s, tuple)]
                        if not ix: k = 0
                        elif len(ix) == 1 and not ix[0][1][0]: k = ix[0][1][1]
                        else:
                            if not ix[0][1][0] or self.covers(ix[0][1], 0, n, (), i) is None: got |= set(range(n))
                            continue
                        m = 1
                        if size == 'str': m = n
                        elif isinstance(size, Const) and es: m = size.v // es
                        got |= set(range(k, k + m))
                if not got >= set(range(n)): return self.bad('%s.%s' % (head, f), line, 'a node of the list %s is made without the original\'s %s' % (head, f))
            raws = [r for r in (self.raw(x[0]) for x in sts) if r is not None and r[0] == self.S and r[1] and r[1][0] == head]
            walk = any('~' in r[1] for r in raws); nxt = any('next' in r[1] for r in raws)
            if not raws: first = True
            elif not nxt: first = True
            if inloop and raws and not walk: return self.bad(head, node.line, 'the same node of the list %s is copied every time' % head)
            if inloop:
                looped = True
                if not any('~' in (V.acc(st.ops[1]) or (0, ('~',)))[1] for st in V.hstore.get(node, ())): return self.bad(head, node.line, 'every node made replaces the one before (%s)' % head)
                h, body = max(inloop, key=lambda x: -len(x[1]))
                latches = {(b, h) for b in body if h in b.succs}
                if h is not node.bb and self.skips(h, node.bb, latches, body, [head]): return self.bad(head, node.line, 'not every node of the list %s is copied' % head)
                for b in body:
                    for k, s in enumerate(b.succs):
                        if s not in body and not self.dead(s) and not self.empty(b, k, [head, '~']): return self.bad(head, b.insts[-1].line, 'the walk along the list %s can end before its end' % head)
                if self.missed(h, [head]): return self.bad(head, node.line, 'the list %s is not copied on every path' % head)
        if not looped: return self.bad(head, next(iter(nodes)).line, 'only the first node of the list %s is copied' % head)
        if not first: return self.bad(head, next(iter(nodes)).line, 'the first node of the list %s is not copied' % head)
        self.ctx.ok(len(fields)); self.ctx.sample('%s: list %s (%s)' % (fn.name, head, ', '.join(fields)))

    def raw(self, i):
        """unfolded path a node's member was read from"""
        if i.op != 'store': return self.V.path(i.ops[1])
        v = i.ops[0]
        while isinstance(v, Inst) and v.op in prov.CASTS: v = v.ops[0]
        return self.V.acc(v.ops[0]) if isinstance(v, Inst) and v.op == 'load' else None

    def extent(self, head, f):
        """number and size of the elements of an array member of a node"""
        t = self.elem([head])
        names = self.P.fields.get(t) or ()
        ty = self.P.types.get('%struct.' + t) if t else None
        ft = self.P.types.get(ty[2][names.index(f)]) if ty and f in names else None
        if ft and ft[0] == 'array': return ft[1], bounds.sizeof(self.P, ft[2])[0]
        return 1, None

    # ------------------------------------------------------------ other results
    def alt(self, v, n):
        """the result of a constructor for a special case: the named parts are copied onto it"""
        V = self.V
        for part in self.s['alt'][n]:
            want = tuple(part.split('.'))
            ok = False
            for i in self.fn.insts():
                if i.op != 'store': continue
                p = V.acc(i.ops[1])
                if p is None or p[0] != ('heap', v) or tuple(s for s in p[1] if not isinstance(s, tuple)) != want: continue
                q = V.value(i.ops[0])
                if q is not None and q[0] == self.S and tuple(s for s in q[1] if not isinstance(s, tuple)) == want: ok = True
            if ok: self.ctx.ok()
            else: self.bad('%s/%s' % (n, part), v.line, 'the object made by %s is returned without the original\'s %s' % (n, part))

def canon(steps):
    return [('i', s[1]) if isinstance(s, tuple) else s for s in steps if not (isinstance(s, tuple) and s[1] == lconst(0))]
