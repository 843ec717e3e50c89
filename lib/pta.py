"""Summary-based (bottom-up) points-to and effect analysis over the IR of irload.

Abstract objects (tuples):
  ('P', i)            what parameter i points to
  ('D', o, path)      what the pointer initially held in o.path points to
  ('A', fn, id)       a local variable
  ('H', where, site)  heap memory allocated at `site` (fnkey, inst id), seen from call site `where`
  ('G', name)         a global variable / string literal
  ('F', name)         a function
  ('X', name)         memory owned by an external library (result of an unmodelled call)
A location is (object, path); array indices are collapsed, struct fields are kept.
"""
import sys
from irload import *
import cfg

MAXPATH = 6
VA = 1000        # ('P', VA): what the pointers in the variable part of an argument list point to

def isnonlocal(o):
    while o[0] == 'D': o = o[1]
    return o[0] in ('P', 'G', 'X')

def root(o):
    while o[0] == 'D': o = o[1]
    return o

def objstr(o, fn=None):
    if o[0] == 'P':
        if fn is not None and o[1] < len(fn.params): return '*' + fn.params[o[1]].name
        return '*param%d' % o[1]
    if o[0] == 'D':
        f = '.'.join(o[2])
        return '*(%s%s)' % (objstr(o[1], fn), ('.' + f) if f else '')
    if o[0] == 'G': return o[1]
    if o[0] == 'H': return 'heap@%s' % (o[2],)
    if o[0] == 'A': return 'local%s' % (o[2],)
    return '%s:%s' % (o[0], o[1])

def locstr(l, fn=None):
    return objstr(l[0], fn) + (('.' + '.'.join(l[1])) if l[1] else '')

def mkD(o, path):
    # collapse recursion: an ancestor reached through the same non-empty path
    c = o; n = 0; depth = 0
    while c[0] == 'D':
        if c[2] == path:
            if path: return c
            n += 1
            if n >= 3: return c
        depth += 1
        if depth > 8: return o
        c = c[1]
    return ('D', o, path)

PURE_EXT = set('''strstr strchr strrchr __assert_fail sqrt memcmp strlen exit abort printf puts putchar fprintf fputs fputc fputs pow cos sin tan atan atan2 acos asin log log2 log10 exp
floor ceil fabs fmod strcmp strncmp strcasecmp clock time write lseek open creat close signal fopen fclose mkdir strerror chmod system chdir
feof ferror fseek rewind ftell fflush getc fgetc ungetc rand srand random srandom drand48 lrand48 srand48 getpid isspace isdigit isalpha toupper tolower
__ctype_b_loc __errno_location cblas_ddot gsl_combination_get gsl_combination_next atoi atof strtol strtod strtoul fwrite perror gettimeofday
vprintf vfprintf llvm.stackrestore.p0 llvm.va_start llvm.va_end llvm.va_copy __muldc3 __divdc3 __mulxc3 __divxc3 cexp clog csqrt cpow cabs carg creal cimag
gsl_ran_dir_2d_unused qsort_unused getenv remove unlink vsnprintf_unused JudyLCount erf erfc tgamma lgamma isnan isinf hypot fmax fmin round trunc lround rint cbrt sinh cosh tanh abs labs
'''.split())
RET_ARG0 = {'strtok': 0, 'strchr': 0, 'strrchr': 0, 'strstr': 0, 'fgets': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0,
            'strpbrk': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'stpcpy': 0, 'memchr': 0, 'strtok_r': 0}
MODS = {'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'sprintf': [0], 'snprintf': [0], 'vsprintf': [0],
        'vsnprintf': [0], 'fgets': [0], 'memset': [0], 'read': [1], 'fread': [0], 'strtok': [0], 'strtok_r': [0, 2], 'qsort': [0],
        'llvm.memset.p0.i64': [0], 'gsl_ran_flat': [0], 'gsl_ran_dir_3d': [0, 1, 2, 3], 'gsl_ran_choose': [0, 1],
        'gsl_ran_shuffle': [0, 1], 'gsl_rng_uniform': [0], 'gsl_rng_uniform_int': [0], 'gsl_ran_ugaussian_ratio_method': [0],
        'gsl_ran_ugaussian': [0], 'gsl_ran_gaussian': [0], 'gsl_rng_uniform_pos': [0], 'gsl_ran_dirichlet': [0, 3], 'gsl_rng_set': [0], 'gsl_rng_get': [0],
        'gsl_combination_next': [0], 'gsl_ran_dir_2d': [0, 1, 2], 'gsl_ran_sample': [0, 1],
        'JudySLFirst': [1], 'JudySLNext': [1], 'JudyLFirst': [1], 'JudyLNext': [1], 'JudyLFreeArray': [0], 'JudySLFreeArray': [0],
        'JudySLIns': [0], 'JudyLIns': [0], 'JudyLDel': [0], 'JudySLDel': [0], 'frexp': [1], 'modf': [1], 'getline': [0, 1], 'strtol': [1], 'strtod': [1], 'strtoul': [1], 'time': [0], 'sincos': [1, 2]}
COPIES = {'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'}
ALLOC = {'malloc': 0, 'calloc': 0, 'strdup': 0, 'strndup': 0, 'aligned_alloc': 0, 'gsl_combination_calloc': 0,
         'gsl_rng_alloc': 0, 'gsl_combination_alloc': 0, 'llvm.stacksave.p0': 0, 'gsl_rng_clone': 0, 'gsl_ran_discrete_preproc': 0}
DEALLOC = {'free': 0, 'gsl_combination_free': 0, 'gsl_rng_free': 0}
SCANF = {'__isoc99_fscanf', '__isoc99_sscanf', 'fscanf', 'sscanf', 'scanf', '__isoc99_scanf'}
JUDYRET = {'JudySLFirst': (0, True), 'JudySLNext': (0, True), 'JudyLFirst': (0, True), 'JudyLNext': (0, True), 'JudySLGet': (0, True),
           'JudySLIns': (0, False), 'JudyLIns': (0, False), 'JudyLGet': (0, True)}


class Summary:
    __slots__ = ('rets', 'mods', 'frees', 'grefs', 'mem', 'copies', 'ext', 'params_ref')
    def __init__(s):
        s.rets = set(); s.mods = {}; s.frees = {}; s.grefs = {}; s.mem = {}; s.copies = {}; s.ext = {}; s.params_ref = set()
    def sig(s):
        return (len(s.rets), len(s.mods), len(s.frees), len(s.grefs), sum(len(v) for v in s.mem.values()),
                sum(len(v) for v in s.copies.values()), len(s.ext))


class PTA:
    def __init__(self, prog):
        self.P = prog
        self.sum = {}
        self.state = {}     # key -> (pts, mem, copies)
        self.unmodelled = {}
        self._exc = {}
        self._addr_taken()
        self._order()
        for scc in self.sccs:
            rec = len(scc) > 1 or any(f in self.callees[f] for f in scc)
            for _ in range(6 if rec else 1):
                before = [self.sum[f].sig() if f in self.sum else None for f in scc]
                for f in scc: self._analyze(prog.fns[f])
                if not rec or before == [self.sum[f].sig() for f in scc]: break

    # ---- call graph
    def _addr_taken(self):
        P = self.P
        self.taken = {}
        self.slot = {}     # (struct, field) -> functions placed there by initialisers
        def visit(c, mod, ctx=None):
            if c is None or not isinstance(c, Const): return
            if c.ck == 'func':
                f = mod.funcs.get(c.v)
                k = None
                if f is not None and not f.decl: k = f.key
                elif c.v in P.defs: k = P.defs[c.v].key
                if k: self.taken[k] = 1
                if ctx and k: self.slot.setdefault(ctx, set()).add(k)
            elif c.ck == 'agg':
                st = P.types.get(c.ty)
                for i, e in enumerate(c.v):
                    cx = ctx
                    if st and st[0] == 'struct': cx = (st[1], i)
                    visit(e, mod, cx)
            elif c.ck == 'expr':
                for e in c.v[1]: visit(e, mod)
        for m in P.mods:
            for g in m.globals.values():
                if g.init is not None: visit(g.init, m)
            for f in m.funcs.values():
                for i in f.insts():
                    for o in i.ops:
                        if isinstance(o, Const): visit(o, m)

    def _sigmatch(self, call, f):
        if f.vararg: return len(call.ops) >= len(f.params)
        return len(call.ops) == len(f.params) and f.retty == call.ty and all(
            (getattr(o, 'ty', None) == p.ty) for o, p in zip(call.ops, f.params))

    def targets(self, fn, call, pts=None):
        """(list of Fn, external name or None)"""
        c = call.x
        if isinstance(c, Const) and c.ck == 'func':
            f = self.P.resolve(fn, c.v)
            return ([f], None) if f is not None else ([], c.v)
        if pts is not None:
            locs = pts.get(call.x) if isinstance(call.x, (Inst, Arg)) else None
            fs = [l[0][1] for l in (locs or ()) if l[0][0] == 'F']
            if fs and all(l[0][0] == 'F' for l in locs):
                return ([self.P.fns[k] for k in fs if k in self.P.fns], None)
        return ([self.P.fns[k] for k in self.taken if self._sigmatch(call, self.P.fns[k])], None)

    def _order(self):
        P = self.P
        self.callees = {}
        self.qsortcmp = {}
        for k, f in P.fns.items():
            cs = set()
            for i in f.insts():
                if i.op == 'call':
                    fs, e = self.targets(f, i)
                    for t in fs: cs.add(t.key)
                    for o in i.ops:
                        if isinstance(o, Const) and o.ck == 'func':
                            t = P.resolve(f, o.v)
                            if t is not None: cs.add(t.key)
            self.callees[k] = cs
        # Tarjan (iterative)
        idx = {}; low = {}; st = []; on = set(); self.sccs = []; n = [0]
        for r in P.fns:
            if r in idx: continue
            work = [(r, iter(self.callees[r]))]
            idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in P.fns: continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(self.callees[w]))); adv = True; break
                    elif w in on: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    self.sccs.append(c)
        self.callers = {}
        for k, cs in self.callees.items():
            for c in cs: self.callers.setdefault(c, set()).add(k)

    # ---- helpers
    def _named(self, ty, base):
        """named struct type a literal struct type `ty` (ABI coercion) stands for, given the pointer it is applied to"""
        d = self.P.types.get(ty)
        if not d or d[0] != 'struct' or d[1]: return ty
        b = base
        while isinstance(b, Inst) and b.op in ('bitcast', 'addrspacecast'): b = b.ops[0]
        t = None
        if isinstance(b, Inst) and b.op == 'alloca': t = b.x
        elif isinstance(b, Inst) and b.op == 'gep':
            t = b.x
            for ix in b.ops[2:]:
                dd = self.P.types.get(t)
                if not dd: t = None; break
                if dd[0] == 'struct': t = dd[2][ix.v]
                elif dd[0] in ('array', 'vector'): t = dd[2]
                else: t = None; break
        if t is not None and self._shape(t) == d[2]: return t
        if not hasattr(self, '_byshape'):
            self._byshape = {}
            for k, v in self.P.types.items():
                if v[0] == 'struct' and v[1] and 'ptr' in v[2]: self._byshape.setdefault(v[2], []).append(k)
        c = self._byshape.get(d[2], [])
        if 'nplc_vector_type' in ' '.join(c): c = [x for x in c if 'nplc_vector_type' in x]
        return c[0] if len(c) == 1 else ty

    def _shape(self, t):
        d = self.P.types.get(t)
        return d[2] if d and d[0] == 'struct' else None

    def aggptr(self, ty, base):
        """field paths of the pointers inside an aggregate of type ty accessed through `base`"""
        ty = self._named(ty, base)
        d = self.P.types.get(ty)
        if not d: return []
        if d[0] == 'struct':
            nm = d[1].split('.', 1)[1] if '.' in d[1] else d[1]
            names = self.P.fields.get(nm)
            out = []
            for k, e in enumerate(d[2]):
                n = names[k] if names and k < len(names) else 'f%d' % k
                if e == 'ptr': out.append((n,))
                else: out += [(n,) + q for q in self.aggptr(e, None)]
            return out
        if d[0] == 'array': return self.aggptr(d[2], None) or ([()] if d[2] == 'ptr' else [])
        return []

    def gepsteps(self, sty, idxs, base=None):
        """field names selected by the indices after the first"""
        t = self._named(sty, base) if base is not None else sty; out = []
        for ix in idxs:
            d = self.P.types.get(t)
            if d is None: break
            if d[0] == 'struct':
                if not (isinstance(ix, Const) and ix.ck == 'int'): break
                nm = d[1].split('.', 1)[1] if '.' in d[1] else d[1]
                names = self.P.fields.get(nm)
                out.append(names[ix.v] if names and ix.v < len(names) else 'f%d' % ix.v)
                t = d[2][ix.v]
            elif d[0] in ('array', 'vector'): t = d[2]
            else: break
        return tuple(out)

    def cloc(self, fn, c):
        """locations denoted by a constant pointer"""
        if c.ck == 'global': return {(('G', self.P.gkey(fn, c.v)), ())}
        if c.ck == 'func':
            f = self.P.resolve(fn, c.v)
            return {(('F', f.key if f is not None else c.v), ())}
        if c.ck == 'expr':
            op, ops, sty = c.v
            if op == 'gep':
                st = self.gepsteps(sty, ops[2:])
                return {(o, (p + st)[:MAXPATH]) for o, p in self.cloc(fn, ops[0])}
            if op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'): return self.cloc(fn, ops[0])
        return set()

    def analyze_state(self, key): return self.state[key]

    def contents(self, mem, copies, o, path, seen=None):
        r = set()
        v = mem.get((o, path))
        if v: r |= v
        if o[0] in ('P', 'D') or (o[0] == 'G' and not self._constg(o)):
            r.add((mkD(o, path), ()))
        elif o[0] == 'G': r |= self._ginit(o, path)
        elif o[0] == 'X': r.add((o, ()))
        cs = copies.get(o)
        if cs:
            if seen is None: seen = set()
            if (o, path) not in seen:
                seen.add((o, path))
                for (pre, so, sp, excl) in cs:
                    if path[:len(pre)] == pre:
                        if any(path[len(pre):len(pre) + len(q)] == q for q in excl): continue
                        np = (sp + path[len(pre):])[:MAXPATH]
                        r |= self.contents(mem, copies, so, np, seen)
        return r

    def _gv(self, o):
        g = self.P.globals.get(o[1])
        if g is None:
            for m in self.P.mods:
                if o[1] in m.globals and m.globals[o[1]].init is not None: return m.globals[o[1]]
        return g

    def _constg(self, o):
        g = self._gv(o)
        return g is not None and g.const

    def _ginit(self, o, path):
        return set()

    def loc_of(self, fn, pts, v):
        if isinstance(v, Const): return self.cloc(fn, v)
        return pts.get(v, _E)

    # ---- per function
    def _analyze(self, fn):
        key = fn.key
        pts = {}; mem = {}; copies = {}
        S = Summary()
        for a in fn.params:
            if a.ty == 'ptr': pts[a] = {(('P', a.idx), ())}
        insts = [i for i in fn.insts()]
        changed = True
        rounds = 0
        self._chg = False
        while True:
            self._chg = False
            rounds += 1
            for i in insts: self._visit(fn, i, pts, mem, copies, S)
            if not self._chg or rounds > 40: break
        # summary restricted to reachable objects
        for i in insts:
            if i.op == 'ret' and i.ops: S.rets |= self.loc_of(fn, pts, i.ops[0])
        keep = set()
        work = [o for o, p in S.rets] + [o for (o, p) in mem if isnonlocal(o)] + [o for o in copies if isnonlocal(o)]
        while work:
            o = work.pop()
            if o in keep: continue
            keep.add(o)
            for (o2, p), ls in mem.items():
                if o2 == o: work += [l[0] for l in ls]
            for (pre, so, sp, ex) in copies.get(o, ()): work.append(so)
        S.mem = {k: set(v) for k, v in mem.items() if k[0] in keep}
        S.copies = {k: set(v) for k, v in copies.items() if k in keep}
        # struct values that went through a local variable: say where they came from, the local dies here
        for o in list(S.copies):
            if o[0] == 'A': continue
            w = [c for c in S.copies[o] if c[1][0] == 'A']; seen = set(w)
            while w:
                (pre, so, sp, ex) = w.pop()
                for (o2, p), ls in mem.items():
                    if o2 == so and p[:len(sp)] == sp:
                        q = p[len(sp):]
                        if not any(q[:len(x)] == x for x in ex): S.mem.setdefault((o, (pre + q)[:MAXPATH]), set()).update(ls)
                for (pre2, so2, sp2, ex2) in copies.get(so, ()):
                    if pre2[:len(sp)] == sp: n = ((pre + pre2[len(sp):])[:MAXPATH], so2, sp2, ex2)
                    elif sp[:len(pre2)] == pre2: n = (pre, so2, (sp2 + sp[len(pre2):])[:MAXPATH], ex)
                    else: continue
                    if n[1] == o and n[2] == n[0]: continue
                    if n[1][0] != 'A': S.copies[o].add(n)
                    elif n not in seen: seen.add(n); w.append(n)
        self.sum[key] = S
        self.state[key] = (pts, mem, copies)

    def _add(self, d, k, s):
        if not s: return
        cur = d.get(k)
        if cur is None:
            d[k] = set(s); self._chg = True
        else:
            n = len(cur); cur |= s
            if len(cur) != n: self._chg = True

    def _mod(self, S, fn, loc, inst, why):
        o = loc[0]
        r = root(o)
        if r[0] == 'P' and o == r and r[1] in fn.byval: return
        if not isnonlocal(o): return
        if loc not in S.mods:
            S.mods[loc] = (fn.key, inst.line, why, inst.id); self._chg = True

    def _visit(self, fn, i, pts, mem, copies, S):
        op = i.op
        if op == 'gep':
            base = self.loc_of(fn, pts, i.ops[0])
            if base:
                st = self.gepsteps(i.x, i.ops[2:], i.ops[0])
                self._add(pts, i, {(o, (p + st)[:MAXPATH]) for o, p in base} if st else base)
        elif op == 'load':
            for (o, p) in self.loc_of(fn, pts, i.ops[0]):
                r = root(o)
                if r[0] == 'G':
                    if (o, p) not in S.grefs: S.grefs[(o, p)] = (fn.key, i.line, '', i.id); self._chg = True
                if i.ty == 'ptr': self._add(pts, i, self.contents(mem, copies, o, p))
                elif i.ty[0] in '%{[':
                    for q in self.aggptr(i.ty, i.ops[0]): self._add(pts, i, self.contents(mem, copies, o, (p + q)[:MAXPATH]))
        elif op == 'store':
            v = i.ops[0]
            ls = self.loc_of(fn, pts, i.ops[1])
            rest = cfg.restored_stores(fn)
            vl = self.loc_of(fn, pts, v) if getattr(v, 'ty', None) == 'ptr' else None
            for (o, p) in ls:
                if vl: self._add(mem, (o, p), vl)
                elif getattr(v, 'ty', ' ')[0] in '%{[' and isinstance(v, Inst):
                    for q in self.aggptr(v.ty, i.ops[1]): self._add(mem, (o, (p + q)[:MAXPATH]), pts.get(v, _E))
                if i not in rest: self._mod(S, fn, (o, p), i, 'store')
        elif op == 'alloca':
            self._add(pts, i, {(('A', fn.key, i.id), ())})
        elif op == 'phi' or op == 'select':
            if i.ty == 'ptr' or i.ty[0] in '%{':
                for v in (i.ops if op == 'phi' else i.ops[1:]):
                    self._add(pts, i, self.loc_of(fn, pts, v))
        elif op in ('extractvalue', 'insertvalue'):
            if op == 'insertvalue' or i.ty == 'ptr' or i.ty[0] in '%{[':
                for v in i.ops: self._add(pts, i, self.loc_of(fn, pts, v))
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
            self._add(pts, i, self.loc_of(fn, pts, i.ops[0]))
        elif op in ('add', 'sub') and i.ops[0] in pts if isinstance(i.ops[0] if i.ops else None, Inst) else False:
            pass
        elif op == 'call':
            self._call(fn, i, pts, mem, copies, S)

    def _call(self, fn, i, pts, mem, copies, S):
        fs, ext = self.targets(fn, i, pts)
        if ext is not None: return self._extern(fn, i, ext, pts, mem, copies, S)
        for f in fs:
            s = self.sum.get(f.key)
            if s is None: continue
            self._apply(fn, i, f, s, pts, mem, copies, S)

    def _apply(self, fn, i, f, s, pts, mem, copies, S):
        cache = {}
        def mapo(o):
            r = cache.get(o)
            if r is not None: return r
            k = o[0]
            if k == 'P':
                r = set()
                if o[1] == VA:
                    for a in i.ops[len(f.params):]:
                        if getattr(a, 'ty', None) == 'ptr': r |= self.loc_of(fn, pts, a)
                elif o[1] < len(i.ops): r = set(self.loc_of(fn, pts, i.ops[o[1]]))
            elif k == 'D':
                cache[o] = set()
                r = set()
                for (po, pp) in mapo(o[1]):
                    r |= self.contents(mem, copies, po, (pp + o[2])[:MAXPATH])
            elif k == 'H':
                r = {(('H', (fn.key, i.id), o[2]), ())}
            elif k == 'A':
                r = set()     # callee's locals are dead
            else:
                r = {(o, ())}
            cache[o] = r
            return r
        def mapl(l):
            return {(o2, (p2 + l[1])[:MAXPATH]) for (o2, p2) in mapo(l[0])}
        if s.rets and (i.ty == 'ptr' or i.ty[0] in '%{['):
            r = set()
            for l in s.rets: r |= mapl(l)
            self._add(pts, i, r)
        for (o, p), ls in s.mem.items():
            tgt = mapl((o, p))
            if not tgt: continue
            src = set()
            for l in ls: src |= mapl(l)
            for t in tgt: self._add(mem, t, src)
        for o, cs in s.copies.items():
            for (pre, so, sp, ex) in cs:
                for (to, tp) in mapl((o, pre)):
                    for (s2, sp2) in mapl((so, sp)):
                        if (s2, sp2) != (to, tp): self._add(copies, to, {(tp, s2, sp2, ex)})
        for l, w in s.mods.items():
            for t in mapl(l): self._mod(S, fn, t, i, (f.key, l))
        for l, w in s.frees.items():
            for t in mapl(l):
                if isnonlocal(t[0]) and t not in S.frees:
                    S.frees[t] = (fn.key, i.line, (f.key, l), i.id); self._chg = True
        for l, w in s.grefs.items():
            if l not in S.grefs: S.grefs[l] = (fn.key, i.line, (f.key, l), i.id); self._chg = True
        for e, w in s.ext.items():
            if e not in S.ext: S.ext[e] = (fn.key, i.line, f.key, i.id); self._chg = True

    def _excl(self, i):
        """fields of the destination of the struct copy i that are overwritten right after it (same block, same base,
        before any call or any load through that base): the copied value of such a field is never observable"""
        r = self._exc.get(i)
        if r is not None: return r
        base = i.ops[0]; ex = set(); derived = {base: ()}
        if isinstance(base, Inst):
            fresh = base.op in ('call', 'alloca')
            bb, pos, seen, go = i.bb, i.pos + 1, set(), True
            while go:
                for j in bb.insts[pos:]:
                    if j.op == 'gep' and j.ops[0] in derived and all(isinstance(x, Const) and x.ck == 'int' for x in j.ops[1:]) \
                            and j.ops[1].v == 0:
                        derived[j] = derived[j.ops[0]] + self.gepsteps(j.x, j.ops[2:], j.ops[0])
                    elif j.op == 'store' and j.ops[1] in derived: ex.add(derived[j.ops[1]])
                    elif j.op == 'load' and j.ops[0] in derived and derived[j.ops[0]] not in ex: go = False; break
                    elif any(o in derived for o in j.ops) and j.op not in ('icmp', 'call', 'ret'): go = False; break
                    elif j.op == 'call' and (not fresh or any(o in derived for o in j.ops)): go = False; break
                seen.add(bb)
                # on to the next block when there is one way on (other ways end in an abort)
                nx = [x for x in bb.succs if not (x.insts and x.insts[-1].op == 'unreachable')]
                if len(nx) != 1 or nx[0] in seen or len(seen) > 40: break
                bb, pos = nx[0], 0
        ex.discard(())
        r = self._exc[i] = frozenset(ex)
        return r

    def _extern(self, fn, i, name, pts, mem, copies, S):
        if name not in S.ext: S.ext[name] = (fn.key, i.line, None, i.id); self._chg = True
        A = lambda k: self.loc_of(fn, pts, i.ops[k]) if k < len(i.ops) else _E
        if name.startswith('llvm.va_start'):
            for (o, p) in A(0):
                v = ('A', fn.key, 'va')
                for q in ('reg_save_area', 'overflow_arg_area', 'f2', 'f3'): self._add(mem, (o, p + (q,)), {(v, ())})
                self._add(mem, (v, ()), {(('P', VA), ())})
            return
        if name in COPIES:
            for (o, p) in A(0):
                for (so, sp) in A(1):
                    if (so, sp) != (o, p): self._add(copies, o, {(p, so, sp, self._excl(i))})
                self._mod(S, fn, (o, p), i, name)
            if name in RET_ARG0: self._add(pts, i, A(0))
            return
        if name in ALLOC:
            self._add(pts, i, {(('H', None, (fn.key, i.id)), ())}); return
        if name == 'realloc':
            h = ('H', None, (fn.key, i.id))
            self._add(pts, i, {(h, ())})
            for (o, p) in A(0):
                if (o, p) != (h, ()): self._add(copies, h, {((), o, p, NOEX)})
                if isnonlocal(o) and (o, p) not in S.frees:
                    S.frees[(o, p)] = (fn.key, i.line, 'realloc', i.id); self._chg = True
            return
        if name in DEALLOC:
            for (o, p) in A(0):
                if isnonlocal(o) and (o, p) not in S.frees:
                    S.frees[(o, p)] = (fn.key, i.line, 'free', i.id); self._chg = True
            return
        if name in SCANF:
            for k in range(1 if 'fscanf' not in name and 'sscanf' not in name else 2, len(i.ops)):
                for l in A(k): self._mod(S, fn, l, i, name)
            return
        if name in JUDYRET:
            k, deref = JUDYRET[name]
            for (o, p) in A(k):
                if deref:
                    # argument is the Judy root value itself: (o,p) already names the array
                    self._add(pts, i, {(o, (p + ('*judy',))[:MAXPATH])})
                else:
                    for (o2, p2) in self.contents(mem, copies, o, p) or {(o, p)}:
                        self._add(pts, i, {(o2, (p2 + ('*judy',))[:MAXPATH])})
        if name in RET_ARG0 and i.ty == 'ptr': self._add(pts, i, A(RET_ARG0[name]))
        if name in MODS:
            for k in MODS[name]:
                for l in A(k): self._mod(S, fn, l, i, name)
        elif name in ('fopen', 'fdopen', 'popen', 'tmpfile'):
            self._add(pts, i, {(('H', None, (fn.key, i.id)), ())})
        elif name in PURE_EXT or name.startswith('llvm.') or name in JUDYRET: pass
        else:
            self.unmodelled.setdefault(name, (fn.key, i.line))
        if i.ty == 'ptr' and i not in pts: self._add(pts, i, {(('X', name), ())})

    # ---- call-site queries
    def mapcall(self, fn, i):
        """mapping of the callee's abstract locations to those of the caller at call i"""
        pts, mem, copies = self.state[fn.key]
        cache = {}
        def mapo(o):
            r = cache.get(o)
            if r is not None: return r
            k = o[0]
            if k == 'P' and o[1] == VA:
                r = set()
                for f in self.targets(fn, i, pts)[0]:
                    for a in i.ops[len(f.params):]:
                        if getattr(a, 'ty', None) == 'ptr': r |= self.loc_of(fn, pts, a)
            elif k == 'P': r = set(self.loc_of(fn, pts, i.ops[o[1]])) if o[1] < len(i.ops) else set()
            elif k == 'D':
                cache[o] = set(); r = set()
                for (po, pp) in mapo(o[1]): r |= self.contents(mem, copies, po, (pp + o[2])[:MAXPATH])
            elif k == 'H': r = {(('H', (fn.key, i.id), o[2]), ())}
            elif k == 'A': r = set()
            else: r = {(o, ())}
            cache[o] = r
            return r
        return lambda l: {(o2, (p2 + l[1])[:MAXPATH]) for (o2, p2) in mapo(l[0])}

    def callmods(self, fn, i, f):
        k = (fn.key, i.id, f.key)
        if not hasattr(self, '_cm'): self._cm = {}
        r = self._cm.get(k)
        if r is None:
            m = self.mapcall(fn, i); r = set()
            s = self.sum[f.key]
            for l in list(s.mods) + list(s.frees): r |= m(l)
            self._cm[k] = r
        return r

    def noreturn(self, fn, i):
        """the call never returns"""
        if not hasattr(self, '_nr'):
            self._nr = set()
            for scc in self.sccs:
                for k in scc:
                    f = self.P.fns[k]
                    if f.noreturn: self._nr.add(k); continue
                    # reachable ret avoiding blocks with a no-return call
                    seen = set(); w = [f.blocks[0]]; live = False
                    while w and not live:
                        b = w.pop()
                        if b in seen: continue
                        seen.add(b)
                        stop = False
                        for j in b.insts:
                            if j.op == 'call' and self._nrc(f, j): stop = True; break
                            if j.op == 'ret': live = True
                        if not stop: w += b.succs
                    if not live: self._nr.add(k)
        return self._nrc(fn, i)

    def _nrc(self, fn, i):
        c = i.x
        if isinstance(c, Const) and c.ck == 'func':
            t = self.P.resolve(fn, c.v)
            if t is None: return c.v in ('exit', 'abort', '_exit', '__assert_fail', 'longjmp', 'siglongjmp')
            return t.key in self._nr
        return False

    # ---- reporting
    def chain(self, key, loc, kind='mods', depth=12):
        """call chain from function `key` to the instruction that writes loc"""
        out = []
        cur = (key, loc)
        while depth > 0:
            d = getattr(self.sum[cur[0]], kind)
            w = d.get(cur[1])
            if w is None: break
            f, line, why, iid = w
            fo = self.P.fns[f]
            out.append('%s:%d %s' % (fo.file, line, fo.name))
            if isinstance(why, tuple): cur = why
            else: out.append(str(why)); break
            depth -= 1
        return ' -> '.join(out)

_E = frozenset()
NOEX = frozenset()
