"""C14: a missing object (NULL result of a call, NULL argument the function allows) is never used as if it were there."""
import esp, pta, typed, cfg
from esp import Sim, Env, absval
from irload import *

META = dict(
    rule='a pointer that a called function returns as NULL on some path, or an argument that the function itself compares with NULL and goes on, is not '
         'dereferenced, nor handed to a function that needs it, on any path on which it is NULL',
    explanation='Path-sensitive property simulation: every call that can return NULL is split into the two outcomes, and every optional argument is '
                'followed once as NULL; which functions return NULL, and which cannot go on with a NULL argument, is computed bottom-up.',
    assumptions=['an allocation that fails is not followed further', 'a NULL argument that a function never tests is the caller\'s mistake'])

NULLEXT = {'fopen', 'fdopen', 'freopen', 'popen', 'tmpfile', 'opendir', 'getenv', 'strstr', 'strchr', 'strrchr', 'bsearch', 'strtok', 'lfind', 'fgets', 'strcasestr', 'strpbrk', 'memchr', 'readdir',
           'JudySLGet', 'JudySLFirst', 'JudySLNext', 'JudySLLast', 'JudySLPrev', 'JudyLGet', 'JudyLFirst', 'JudyLNext', 'JudyLLast', 'JudyLPrev'}
NEEDS = {'fclose': [0], 'fscanf': [0], '__isoc99_fscanf': [0], 'fprintf': [0], 'fgetc': [0], 'getc': [0], 'fgets': [0, 2], 'fputs': [0, 1], 'fputc': [1], 'fread': [0, 3], 'fwrite': [0, 3],
         'feof': [0], 'fflush': [], 'rewind': [0], 'fseek': [0], 'ungetc': [1], 'strlen': [0], 'strcpy': [0, 1], 'strncpy': [0, 1], 'strcat': [0, 1], 'strcmp': [0, 1], 'strncmp': [0, 1],
         'strstr': [0, 1], 'strchr': [0], 'atoi': [0], 'atof': [0], 'sprintf': [0, 1], 'snprintf': [2], 'sscanf': [0], '__isoc99_sscanf': [0], 'memcpy': [0, 1], 'memmove': [0, 1],
         'llvm.memcpy.p0.p0.i64': [0, 1], 'llvm.memmove.p0.p0.i64': [0, 1], 'llvm.memset.p0.i64': [0], 'pclose': [0]}
MAXK = 5

# what the headers leave optional: fields that may be NULL ...
FIELDS = {('plc_type', 'cst'), ('plc_type', 'quant'), ('plc_type', 'G'), ('plc_constraint_type', 'next'), ('plc_vert_quant_type', 'next'),
          ('nplc_type', 'cst'), ('nplc_type', 'quant'), ('nplc_constraint_type', 'next'), ('nplc_vert_quant_type', 'next'), ('plc_spline_type', 'cst'),
          ('tsmcmc_run_parameters_struct', 'logfile'), ('tsmcmc_run_parameters_type', 'logfile')}
# ... and arguments a caller may leave out (function -> argument positions)
ARGS = {'plc_normalize_vect': [-1], 'nplc_normalize_vect': [-1], 'plc_component_div': [-1], 'nplc_component_div': [-1], 'plc_turning_angle': [-1], 'plc_dihedral_angle': [-1],
        'plc_normal': [-1], 'plc_circumcenter': [-2], 'plc_free': [0], 'nplc_free': [0], 'plc_spline_free': [0], 'plc_add_component': [-1], 'nplc_add_component': [-1],
        'plc_edges': [1], 'nplc_edges': [1], 'plc_num_edges': [], 'plc_totalcurvature': [1], 'plc_totaltorsion': [1], 'plc_arclength': [1], 'nplc_arclength': [1],
        'plc_version': [0], 'nplc_version': [0], 'octrope_version': [0], 'plc_edgelength_stats': [1, 2, 3, 4], 'plc_is_constrained': [3],
        'plc_nearest_vertex': [5, 6], 'plc_nearest_neighbor': [3, 4], 'plc_convert_to_spline': [1], 'octrope': [0, 1, 2, 3, 4, 5, 10, 15, 16], 'octrope_struts': [0, 5, 6], 'octrope_minrad': [5],
        'octrope_poca': [1], 'octrope_minradval': [], 'pd_component_and_pos': [2, 3], 'pd_free_container': [1], 'pd_new_multidx': [1],
        'tsmcmc_equilateral_expectation': [7, 8], 'tsmcmc_confined_equilateral_expectation': [8, 9], 'tsmcmc_fixed_ftc_expectation': [8, 9], 'geyer_ips_value': [1],
        'octrope_curvelength': [0], 'octrope_strut_ends': [1, 2], 'plc_symmetry_check': [0, 1], 'plc_symmetry_variation_check': [0, 2], 'pd_copy_crossmap': [0], 'pd_stor_nelts': [0],
        'homfly_polynomial_free': [0], 'pd_free_compgrps': [0], 'octrope_strutfile_write': [4], 'plc_symmetry_copy': [0], 'plc_symmetry_group_copy': [0], 'plc_matrix_copy': [0], 'plc_nearest_vertex_pc_data_free': [0], 'plc_nearest_neighbor_pc_data_free': [0], 'plc_symmetry_group_free': [0]}

class Null(Sim):
    def __init__(self, A, fn, S, given=None, consts=None):
        Sim.__init__(self, A, fn)
        self.S = S; self.given = given; self.consts = consts
        self.bad = {}; self.retnull = False; self.rets = 0
        self.retphi = self.retphis() if fn.retty == 'ptr' else set()
        self.sites = set(); self.watch = None; self.left = set()

    def init(self): return (frozenset(), frozenset())
    def initenv(self):
        e = Env()
        if self.watch is not None: e[self.fn.params[self.watch]] = ('ne', frozenset([0]))
        if self.consts:
            for k, c in self.consts: e[self.fn.params[k]] = ('eq', c)
        if isinstance(self.given, tuple):
            p = self.fn.params[self.given[1]]
            e[p] = ('ne', frozenset([0])); e[self.memkey(p)] = ('eq', 0)
        elif self.given is not None: e[self.fn.params[self.given]] = ('eq', 0)
        return e

    def clobber(self, env, locs, skip=None):
        # a write that only may reach a cell known to be set is not taken to empty it
        had = [k for k, v in env.items() if isinstance(k, tuple) and k[0] == 'mem' and v[0] == 'ne' and 0 in v[1]]
        Sim.clobber(self, env, locs, skip)
        for k in had:
            if k not in env: env[('was', k)] = True

    def redefine(self, env, i):
        Sim.redefine(self, env, i)
        for k in self.kvals.get(i, ()): env.pop(('was', k), None)

    def step(self, env, i):
        Sim.step(self, env, i)
        if i.op == 'store':
            k = self.memkey(i.ops[1])
            if k is not None: env.pop(('was', k), None)
            if isinstance(i.ops[1], Inst) and i.ops[1].op == 'alloca':
                for k in [k for k in env if isinstance(k, tuple) and k[0] == 'was' and esp.mentions_cell(k, i.ops[1])]: env.pop(k)
        return env

    def optfield(self, a):
        if isinstance(a, Inst) and a.op == 'gep' and len(a.ops) >= 3 and isinstance(a.x, str) and a.x.startswith('%struct.'):
            st = a.x[8:]; c = esp.cval(a.ops[-1])
            if len(a.ops) == 3 and c is not None:
                names = self.P.fields.get(st)
                return bool(names) and c < len(names) and (st, names[c]) in FIELDS
        return False

    def root(self, v):
        while isinstance(v, Inst) and v.op in ('gep', 'bitcast', 'freeze'): v = v.ops[0]
        return v

    def isnull(self, env, v):
        v = self.root(v)
        if isinstance(v, Const): return v.ck == 'null'
        return absval(env, v) == ('eq', 0)

    def who(self, prop, env, v):
        return self.root(v)

    def transfer(self, prop, env, i):
        if i.op == 'load' and self.isnull(env, i.ops[0]): return self.hit(prop, env, i, i.ops[0], 'read through')
        if i.op == 'load' and i.ty == 'ptr' and self.optfield(i.ops[0]):
            self.step(env, i)
            if absval(env, i) is None:
                k = self.memkey(i.ops[0])
                if not (k is not None and env.get(('was', k))): return self.two(prop, env, i)
                env[i] = ('ne', frozenset([0]))
            env['_stepped'] = True
            return (((prop[0] - {i}, prop[1]), env),)
        if i.op == 'store' and self.isnull(env, i.ops[1]): return self.hit(prop, env, i, i.ops[1], 'written through')
        if i.op == 'sub':
            for o in i.ops:
                if isinstance(o, Inst) and o.op == 'ptrtoint' and self.isnull(env, o.ops[0]): return self.hit(prop, env, i, o.ops[0], 'used to compute a position')
        if i.op == 'call':
            fs, e = self.A.targets(self.fn, i, self.pts)
            if e is not None:
                for k in NEEDS.get(e, ()):
                    if k < len(i.ops) and getattr(i.ops[k], 'ty', None) == 'ptr' and self.isnull(env, i.ops[k]): return self.hit(prop, env, i, i.ops[k], 'given to ' + e)
            elif not fs:
                for o in i.ops:
                    if getattr(o, 'ty', None) == 'ptr' and not isinstance(self.root(o), Const) and self.isnull(env, o): return self.hit(prop, env, i, o, 'given to the caller\'s function')
            elif fs:
                for k, o in enumerate(i.ops):
                    if getattr(o, 'ty', None) == 'ptr' and self.isnull(env, o) and all(k < len(f.params) and self.S.needs(f, k) for f in fs):
                        return self.hit(prop, env, i, o, 'given to ' + fs[0].name + ', which needs it,')
            # destructors leave an empty handle behind
            if fs and any(getattr(o, 'ty', None) == 'ptr' and isinstance(o, Inst) and o.op in ('alloca', 'gep') and k < len(fs[0].params) and all(self.S.empties(f, k) for f in fs) for k, o in enumerate(i.ops)):
                self.step(env, i)
                for k, o in enumerate(i.ops):
                    if getattr(o, 'ty', None) == 'ptr' and isinstance(o, Inst) and o.op in ('alloca', 'gep') and all(self.S.empties(f, k) for f in fs):
                        m = ('cell', o) if o.op == 'alloca' else self.memkey(o)
                        if m is not None: env[m] = ('eq', 0); env.pop(('was', m), None)
                env['_stepped'] = True
                return ((prop, env),)
            # this call may come back empty-handed
            may = e in NULLEXT or (fs and any(self.S.maynull(f, self.consts_at(f, i)) for f in fs))
            if may and i.ty == 'ptr':
                self.step(env, i)
                return self.two(prop, env, i)
            if fs and i.ty == 'ptr':
                self.step(env, i)
                if absval(env, i) is None: env[i] = ('ne', frozenset([0]))
                env['_stepped'] = True
                return ((prop, env),)
            if e in pta.ALLOC or e in ('malloc', 'calloc', 'realloc', 'strdup'):
                self.step(env, i); env[i] = ('ne', frozenset([0])); env['_stepped'] = True
                return ((prop, env),)
        return ((prop, env),)

    def run(self):
        # fewer open outcomes at a time where there are too many
        for self.maxk in (MAXK, 2, 1):
            try: return Sim.run(self)
            except AnalysisError:
                self.bad = {}; self.retnull = False; self.rets = 0; self.sites = set(); self.pending = {}; self.trace = {}
        self.rets = 1
        return self

    def consts_at(self, f, i):
        return tuple((k, esp.cval(o)) for k, o in enumerate(i.ops) if k < len(f.params) and esp.cval(o) is not None and not f.vararg) if len(i.ops) == len(f.params) else ()

    def two(self, prop, env, i):
        self.sites.add(i)
        keep = frozenset(t for t in prop[0] if t is not i)
        e1 = env.copy(); esp.learn(e1, i, ('ne', frozenset([0]))); e1['_stepped'] = True
        e2 = env.copy(); esp.learn(e2, i, ('eq', 0)); e2['_stepped'] = True
        k2 = keep | {i}
        if len(k2) > self.maxk:
            # too many outcomes open at once: forget the oldest
            k2 = frozenset(sorted(k2, key=lambda x: x.id)[-self.maxk:]) | {i}
        return (((keep, prop[1]), e1), ((k2, prop[1]), e2))

    def hit(self, prop, env, i, v, how):
        self.bad.setdefault(i, (self.root(v), how))
        return ()

    def phis(self, prop, env, b, s, new):
        ch = [i for i in new if i in self.retphi]
        if ch:
            m = dict(prop[1])
            for i in ch:
                v = new[i][0]
                m[i] = None if v is None else 'null' if v == ('eq', 0) else 'obj' if v[0] == 'ne' and 0 in v[1] else None
            env['_prop'] = (prop[0], frozenset(m.items()))
        return True

    def onret(self, prop, env, i, val, frm):
        self.rets += 1
        if self.watch is not None: self.left.add(env.get(self.memkey(self.fn.params[self.watch])))
        if val is not None and getattr(val, 'ty', None) == 'ptr' and absval(env, val) == ('eq', 0): self.retnull = True

def emptier(f):
    """parameters through which f stores NULL"""
    if 'emptier' not in f._cache:
        f._cache['emptier'] = {f.params.index(i.ops[1]) for i in f.insts() if i.op == 'store' and i.ops[0].ty == 'ptr' and esp.isz(i.ops[0]) and i.ops[1] in f.params}
    return f._cache['emptier']

class Sums:
    def __init__(self, ctx):
        self.P, self.A = ctx.prog, ctx.pta
        self._n = {}; self._m = {}; self._e = {}
    def empties(self, f, k):
        """*argument k is NULL whenever f returns"""
        if k >= len(f.params) or f.retty not in ('void',) or k not in emptier(f): return False
        r = self._e.get((f.key, k))
        if r is None:
            self._e[(f.key, k)] = False
            s = Null(self.A, f, self); s.watch = k; s.run()
            r = self._e[(f.key, k)] = s.left == {('eq', 0)}
        return r
    def maynull(self, f, consts=()):
        k = (f.key, consts)
        r = self._m.get(k)
        if r is None:
            if f.retty != 'ptr': r = self._m[k] = False
            else:
                self._m[k] = False
                s = Null(self.A, f, self, None, consts).run()
                r = self._m[k] = s.retnull
        return r
    def needs(self, f, k):
        r = self._n.get((f.key, k))
        if r is None:
            self._n[(f.key, k)] = False
            s = Null(self.A, f, self, k).run()
            r = self._n[(f.key, k)] = s.rets == 0
        return r

def tested(A, fn, k, deep=False):
    """fn compares parameter k (deep: what it points to) with NULL"""
    p = fn.params[k]
    def is_(v):
        if deep: return isinstance(v, Inst) and v.op == 'load' and v.ops[0] is p
        return v is p
    return any(i.op == 'icmp' and i.x in ('eq', 'ne') and ((is_(i.ops[0]) and esp.isz(i.ops[1])) or (is_(i.ops[1]) and esp.isz(i.ops[0]))) for i in fn.insts())

def indexed(a, p):
    var = False
    while isinstance(a, Inst) and a.op in ('gep', 'bitcast'):
        if a.op == 'gep' and esp.cval(a.ops[1]) is None: var = True
        a = a.ops[0]
    return var and (a is p or isinstance(a, Inst) and a.op == 'phi')

def origin(v):
    if not isinstance(v, Inst): return getattr(v, 'name', None) or '?'
    if v.op == 'call' and isinstance(v.x, Const): return 'the result of %s, line %s' % (v.x.v, v.line)
    return '%s, line %s' % ({'load': 'field or variable read'}.get(v.op, v.op), v.line)

def check(ctx):
    P, A = ctx.prog, ctx.pta
    S = Sums(ctx)
    nc = no = nd = 0
    # arguments that some caller in the library leaves out
    left = {}
    for g in P.fns.values():
        for i in g.insts():
            if i.op != 'call' or not isinstance(i.x, Const): continue
            f = P.resolve(g, i.x.v)
            if f is None: continue
            for k, o in enumerate(i.ops):
                if k < len(f.params) and isinstance(o, Const) and o.ck == 'null': left.setdefault(f.key, set()).add(k)
    for key, f in sorted(P.fns.items()):
        s = Null(A, f, S).run()
        nc += len(s.sites)
        ctx.ok(len(s.sites))
        base = s.bad
        for i, (v, how) in sorted(base.items(), key=lambda x: x[0].line or 0):
            ctx.violation('%s/%s' % (f.name, i.line), f.file, i.line, f.name, 'a pointer that may be NULL (%s) is %s here without a test' % (origin(v), how))
        out = left.get(f.key, set())
        spec = {k if k >= 0 else len(f.params) + k for k in ARGS.get(f.name, ())}
        for k, p in enumerate(f.params):
            if p.ty != 'ptr': continue
            for deep in (False, True):
                if not (tested(A, f, k, deep) or (not deep and (k in spec or k in out))): continue
                if deep: nd += 1
                else: no += 1
                ctx.ok()
                s = Null(A, f, S, ('*', k) if deep else k).run()
                for i, (v, how) in sorted(s.bad.items(), key=lambda x: x[0].line or 0):
                    if i in base: continue
                    # a list that goes with a count: the count says whether it is used
                    if k not in spec and any(indexed(o, p) for o in i.ops): continue
                    ctx.violation('%s/%s%s/%s' % (f.name, '*' if deep else '', p.name, i.line), f.file, i.line, f.name, 'optional argument %s%s is %s here although it may be NULL' % ('*' if deep else '', p.name, how))
    ctx.cov['places_that_may_yield_null'] = nc; ctx.cov['optional_arguments'] = no; ctx.cov['optional_pointees'] = nd
