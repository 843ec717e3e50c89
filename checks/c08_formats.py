"""C08: formatted output and input agree with the values and variables they are given."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import irload, pta, typed, cfg
from irload import *

META = dict(
    rule='at every call of the printf and scanf families and of pd_printf/pd_error/pd_vfprintf-style functions in the library: the format is a '
         'string constant (or the function\'s own format parameter); it is well formed; every conversion is one the called function knows; there is exactly one argument of the right class '
         '(int, long, double, pointer; pointee size for scanf; object type for the %TAG conversions) per conversion; scanf string '
         'conversions are limited to the size of the fixed buffer they fill. In pd_vfprintf itself a tag is tested '
         'before any other tag that is a prefix of it, and the text is advanced by the length of the tag recognised',
    explanation='Every call site of the current source is examined in the IR, where default argument promotions and variadic argument types are explicit; '
                'formats chosen by a condition are examined for every choice. Pointer types, which the IR does not have, are compared by the compiler front end '
                '(-Wformat on every unit, in the normal and the verbose configuration).',
    assumptions=['LP64: int is 32, long and size_t are 64 bit'])

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1}
SCANF = {'scanf': 0, 'fscanf': 1, 'sscanf': 1, '__isoc99_scanf': 0, '__isoc99_fscanf': 1, '__isoc99_sscanf': 1}
# documented conversions of pd_vfprintf: tag -> argument classes
TAGS = {'FACE': ['i32'], 'EDGE': ['i32'], 'CROSS': ['i32'], 'COMP': ['i32'], 'PD': [], 'FEDGE': ['i32', 'i32'],
        'OR': ['ptr:int'], 'MULTIDX': ['ptr:pd_multidx_struct'], 'COMPGRP': ['ptr:pdint_compgrp_struct'], 'ISO': ['ptr:pd_iso_struct'],
        'PERM': ['ptr:pd_perm_struct'], 'DIHEDRAL': ['ptr:pd_dihedral_struct'], 'CYCLIC': ['ptr:pd_cyclic_struct'], 'ORIENTATION': ['ptr:pd_orientation_struct'],
        'EDGEMAP': ['ptr:pd_edgemap_struct'], 'CROSSMAP': ['ptr:pd_crossmap_struct'], 'FACEMAP': ['ptr:pd_facemap_struct'],
        'CROSSPTR': ['ptr:pd_crossing_struct'], 'TANGLE': ['ptr:pd_tangle_struct'], 'BDY_OR': ['ptr:'], 'd': ['i32'], 's': ['ptr:char']}
CONV = re.compile(r"%(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?(?P<len>hh|h|ll|l|L|z|j|t|q)?(?P<c>.)", re.S)
SCONV = re.compile(r"%(?P<sup>\*)?(?P<width>\d+)?(?P<len>hh|h|ll|l|L|z|j|t|q)?(?P<c>\[\^?\]?[^\]]*\]|.)", re.S)

def cstrs(P, fn, v, seen=None):
    """constant strings v may be; None when something else is possible, or ('param', k)"""
    seen = seen if seen is not None else set()
    if isinstance(v, Const):
        if v.ck == 'expr':
            op, ops, _ = v.v
            return cstrs(P, fn, ops[0], seen) if op == 'gep' and all(isinstance(o, Const) and o.v == 0 for o in ops[1:]) else None
        if v.ck != 'global': return None
        g = fn.mod.globals.get(v.v) or P.globals.get(v.v)
        if g is not None and g.init is not None and g.init.ck == 'str' and (g.const or g.name.startswith('.str')): return {g.init.v.split('\0')[0]}
        if g is not None and g.init is not None and g.init.ck == 'zero' and g.const: return {''}
        return None
    if isinstance(v, Arg): return ('param', v.idx)
    if isinstance(v, Inst):
        if v in seen: return set()
        seen.add(v)
        if v.op in ('phi', 'select'):
            r = set()
            for o in (v.ops if v.op == 'phi' else v.ops[1:]):
                x = cstrs(P, fn, o, seen)
                if not isinstance(x, set): return None
                r |= x
            return r
        if v.op == 'gep' and all(isinstance(o, Const) and o.ck == 'int' and o.v == 0 for o in v.ops[1:]): return cstrs(P, fn, v.ops[0], seen)
        if v.op == 'load' and isinstance(v.ops[0], Inst) and v.ops[0].op == 'alloca':
            # a local pointer variable whose address is taken: all stores
            r = set()
            for i in fn.insts():
                if i.op == 'store' and i.ops[1] is v.ops[0]:
                    x = cstrs(P, fn, i.ops[0], seen)
                    if not isinstance(x, set): return None
                    r |= x
            return r or None
    return None

def written_text(P, fn, v):
    """texts a local character array holds when everything stored in it comes from sprintf calls with constant arguments"""
    while isinstance(v, Inst) and v.op == 'gep' and all(isinstance(o, Const) and o.ck == 'int' and o.v == 0 for o in v.ops[1:]): v = v.ops[0]
    if not (isinstance(v, Inst) and v.op == 'alloca'): return None
    alias = {v}; out = set(); n = 0
    for i in fn.insts():
        if i.op in ('gep', 'bitcast') and i.ops[0] in alias: alias.add(i)
    for i in fn.insts():
        if not any(o in alias for o in i.ops if isinstance(o, Inst)): continue
        if i.op in ('gep', 'bitcast'): continue
        if i.op == 'call' and isinstance(i.x, Const):
            if i.x.v.startswith('llvm.'): continue
            k = PRINTF.get(i.x.v)
            if i.x.v in ('sprintf', 'snprintf') and i.ops[0] in alias and i.ops[0] is not None and not any(o in alias for o in i.ops[1:] if isinstance(o, Inst)):
                f = cstrs(P, fn, i.ops[k])
                if not isinstance(f, set) or not all(isinstance(a, Const) and a.ck == 'int' for a in i.ops[k + 1:]): return None
                for t in f:
                    try: out.add(t % tuple(a.v for a in i.ops[k + 1:]))
                    except (TypeError, ValueError): return None
                n += 1; continue
            if i.x.v in SCANF and i.ops[SCANF[i.x.v]] in alias: continue
            if i.x.v in PRINTF and i.ops[0] not in alias: continue
            return None
        return None
    return out or None

INTC = {None: 'i32', 'hh': 'i32', 'h': 'i32', 'l': 'i64', 'll': 'i64', 'z': 'i64', 'j': 'i64', 't': 'i64', 'q': 'i64'}

def printf_spec(fmt):
    """list of (class, conversion text) or raises ValueError"""
    out = []; pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0: return out
        m = CONV.match(fmt, k)
        if not m: raise ValueError('the format ends in an unfinished conversion')
        pos = m.end(); c = m.group('c'); t = m.group(0)
        if c == '%': continue
        if m.group('width') == '*': out.append(('i32', t))
        if m.group('prec') == '*': out.append(('i32', t))
        if c in 'diouxX': out.append((INTC.get(m.group('len')) or _bad(t), t))
        elif c == 'c': out.append(('i32', t))
        elif c in 'eEfFgGaA': out.append(('x86_fp80' if m.group('len') == 'L' else 'double', t))
        elif c in 's': out.append(('ptr', t))
        elif c == 'p': out.append(('ptr', t))
        elif c == 'n': out.append(('ptr', t))
        else: _bad(t)

def _bad(t): raise ValueError('%s is not a conversion' % t)

SC = {'d': {None: 4, 'hh': 1, 'h': 2, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8, 'q': 8}, 'f': {None: 4, 'l': 8, 'L': 16}}

def longest(P, fn, fmt, args):
    """(upper bound on the characters printf produces, the conversion that has none)"""
    n = 0; pos = 0; args = list(args)
    while True:
        k = fmt.find('%', pos)
        if k < 0: return n + len(fmt) - pos, None
        n += k - pos
        m = CONV.match(fmt, k); pos = m.end(); c = m.group('c')
        if c == '%': n += 1; continue
        if m.group('width') == '*' or m.group('prec') == '*': return None, m.group(0)
        w = int(m.group('width') or 0); pr = m.group('prec'); pr = None if pr is None else int(pr or 0)
        a = args.pop(0) if args else None
        if isinstance(a, Const) and a.ck == 'int' and c in 'di': l = len(str(a.v))
        elif c in 'diouxX':
            l = {'i32': 11, 'i64': 20}[INTC.get(m.group('len')) or 'i64']
            if c == 'o': l *= 2
            r = irange(a)
            if r is not None and c in 'diu': l = max(len(str(r[0])), len(str(r[1])))
            l = max(l, (pr or 0) + 1)
        elif c == 'c': l = 1
        elif c == 'p': l = 18
        elif c in 'eEgG': l = (6 if pr is None else pr) + 8
        elif c in 'fF': l = 310 + 2 + (6 if pr is None else pr)
        elif c == 's':
            t = cstrs(P, fn, a) if a is not None else None
            if isinstance(t, set): l = max([len(x) for x in t] or [0])
            else:
                b = bufsize(fn, a, fn.mod)
                if b is not None: l = b - 1
                elif pr is not None: l = pr
                else: return None, m.group(0)
            if pr is not None: l = min(l, pr)
        else: return None, m.group(0)
        n += max(l, w)

def irange(a):
    if isinstance(a, Inst) and a.op == 'zext' and isinstance(a.ops[0], (Inst, Arg)):
        m = re.match(r'i(\d+)$', str(a.ops[0].ty))
        if m: return 0, 2 ** int(m.group(1)) - 1
    if isinstance(a, Inst) and a.op == 'sext' and isinstance(a.ops[0], (Inst, Arg)):
        m = re.match(r'i(\d+)$', str(a.ops[0].ty))
        if m: return -2 ** (int(m.group(1)) - 1), 2 ** (int(m.group(1)) - 1) - 1
    return None

def scanf_spec(fmt):
    out = []; pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0: return out
        m = SCONV.match(fmt, k)
        if not m: raise ValueError('the format ends in an unfinished conversion')
        pos = m.end(); c = m.group('c'); t = m.group(0)
        if c == '%' or m.group('sup'): continue
        w = int(m.group('width')) if m.group('width') else None
        if c in 'diouxXn': out.append(('int', SC['d'].get(m.group('len')), w, t))
        elif c in 'eEfFgGaA': out.append(('fp', SC['f'].get(m.group('len')), w, t))
        elif c == 's' or c[0] == '[': out.append(('str', None, w, t))
        elif c == 'c': out.append(('chr', None, w or 1, t))
        elif c == 'p': out.append(('ptr', 8, w, t))
        else: _bad(t)

def tagtable(ctx):
    """[(text matched, length matched)] in the order in which pd_vfprintf tests them"""
    P, A = ctx.prog, ctx.pta
    f = ctx.fn('pd_vfprintf', required=False)
    if f is None: return None
    calls = []
    for i in f.insts():
        if i.op == 'call' and isinstance(i.x, Const) and i.x.v in ('strncmp', 'strncasecmp', 'memcmp') and len(i.ops) >= 3:
            s = cstrs(P, f, i.ops[1]); n = i.ops[2]
            if isinstance(s, set) and len(s) == 1 and isinstance(n, Const):
                s = next(iter(s))
                if s.startswith('%'): calls.append((i, s[:n.v], min(n.v, len(s))))
    if len(calls) < 10: return None         # written some other way: fall back on the documented table
    order = []
    todo = list(calls)
    # by dominance
    todo.sort(key=lambda c: sum(1 for d in calls if d[0] is not c[0] and cfg.inst_dom(f, d[0], c[0])))
    for i, s, n in todo: order.append((s, n))
    for a in range(len(todo)):
        for b in range(a + 1, len(todo)):
            sa, sb = todo[a][1], todo[b][1]
            ctx.ok()
            if sb.startswith(sa) and sb != sa and cfg.inst_dom(f, todo[a][0], todo[b][0]):
                ctx.violation('pd_vfprintf/order/%s' % sb.strip(), f.file, todo[b][0].line, 'pd_vfprintf', 'the test for %s comes after the test for its prefix %s and never matches' % (sb, sa))
    for i, s, n in todo:
        # blocks reached only when this test matched
        br = i.bb.insts[-1]
        if br.op != 'br' or len(i.bb.succs) != 2: continue
        hit = None
        c = br.ops[0]
        if isinstance(c, Inst) and c.op == 'icmp' and i in c.ops: hit = i.bb.succs[0] if c.x == 'eq' else i.bb.succs[1]
        if hit is None or len(hit.preds) != 1: continue
        for j in f.insts():
            if j.op == 'gep' and j.ops[0] is i.ops[0] and len(j.ops) == 2 and isinstance(j.ops[1], Const) and cfg.dominates(f, hit, j.bb) and j.ops[1].v > 1:
                ctx.ok()
                if j.ops[1].v not in (n, len(s.rstrip())):
                    ctx.violation('pd_vfprintf/advance/%s' % s.strip(), f.file, j.line, 'pd_vfprintf', 'after %s (%d characters) the text is advanced by %d' % (s.strip(), n, j.ops[1].v))
    return order

def pd_spec(fmt, order):
    out = []; pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0: return out
        rest = fmt[k:]
        for s, n in order:
            if rest[:n] == s[:n]:
                tag = s.strip().lstrip('%')
                if tag not in TAGS: raise ValueError('%%%s is not a documented conversion' % tag)
                out += [(c, '%' + tag) for c in TAGS[tag]]
                pos = k + len(s.rstrip()); break
        else: raise ValueError('conversion %s is not one pd_printf knows' % repr(rest.split()[0] if rest.split() else rest))

def bufsize(fn, v, mod):
    """size in bytes of the fixed buffer v points to the start of, or None"""
    off = 0
    while isinstance(v, Inst) and v.op == 'gep' and all(isinstance(o, Const) and o.ck == 'int' and o.v == 0 for o in v.ops[1:]): v = v.ops[0]
    ty = None
    if isinstance(v, Inst) and v.op == 'alloca': ty = v.x
    elif isinstance(v, Const) and v.ck == 'global' and v.v in mod.globals: ty = mod.globals[v.v].ty
    elif isinstance(v, Inst) and v.op == 'call' and isinstance(v.x, Const) and v.x.v in ('malloc', 'calloc') and all(isinstance(o, Const) and o.ck == 'int' for o in v.ops):
        r = 1
        for o in v.ops: r *= o.v
        return r
    m = re.match(r'\[(\d+) x i8\]$', str(ty)) if ty is not None else None
    return int(m.group(1)) if m else None

def pointee(P, A, fn, v, pt):
    """size of the scalar v points to, or None"""
    w = v
    if isinstance(w, Inst) and w.op == 'alloca': return size(w.x)
    if isinstance(w, Inst) and w.op == 'gep' and len(w.ops) == 2: return size(w.x)
    ls = A.loc_of(fn, A.state[fn.key][0], w)
    ts = {typed.ltype(P, fn, l, pt) for l in ls} if ls else set()
    if len(ts) == 1:
        t = typed.strip(next(iter(ts)) or '')
        while t.endswith('[]'): t = typed.strip(t[:-2])
        return {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'float': 4, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, '_Bool': 1}.get(t)
    return None

def size(t):
    m = re.match(r'i(\d+)$', str(t))
    if m: return max(1, int(m.group(1)) // 8)
    return {'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16}.get(str(t))

def passes_format(P, fn):
    """functions whose own parameter is used as a format: (format parameter, first variadic argument, kind)"""
    out = {}
    return out

def _unit(a):
    s, flags = a
    r = subprocess.run([irload.CLANG] + [x for x in irload.cflags(flags) if x != '-w'] + ['-fsyntax-only', '-fno-caret-diagnostics', '-Wno-everything', '-Wformat', '-Wformat-extra-args',
                        os.path.join(irload.REPO, 'src', s)], capture_output=True, text=True)
    return s, r.stderr

def compiler_formats(ctx):
    """the pointer types behind %s, %p and the scanf conversions are gone in the IR: the front end's own type check of formats"""
    lib, nlib, progs = irload.lib_sources()
    todo = [(s, fl) for s in dict.fromkeys(lib + nlib) for fl in ((), ('-DPD_VERBOSE=50',))]
    seen = set()
    with ThreadPoolExecutor(8) as ex:
        for s, err in ex.map(_unit, todo):
            ctx.ok()
            for m in re.finditer(r'^(?:.*/)?([^/:\n]+):(\d+):\d+: warning: (.*) \[-W(format[^\]]*)\]$', err, re.M):
                k = (m.group(1), m.group(3))
                if k in seen: continue
                seen.add(k)
                ctx.violation('%s/type/%s' % (m.group(1), m.group(3)[:60]), m.group(1), m.group(2), s, m.group(3))
    return len(todo)

def check(ctx):
    ctx.configure('-DPD_VERBOSE=50')
    P, A = ctx.prog, ctx.pta
    order = tagtable(ctx)
    if order is None:
        order = sorted((('%' + t, len(t) + 1) for t in TAGS), key=lambda x: -x[1])
    ncall = nconv = nbound = 0
    # wrappers: a function with a parameter that it uses as the format of a v*printf / pd_vfprintf call
    wrap = {}
    VF = {'pd_vfprintf': ('pd', 1), 'vprintf': ('std', 0), 'vfprintf': ('std', 1), 'vsnprintf': ('std', 2), 'vsprintf': ('std', 1)}
    grew = True
    while grew:
        grew = False
        for f in P.fns.values():
            if f.name in wrap or f.name in VF: continue
            for i in f.insts():
                if i.op == 'call' and isinstance(i.x, Const) and i.x.v in VF:
                    kd, k = VF[i.x.v]
                    a = i.ops[k] if k < len(i.ops) else None
                    if isinstance(a, Arg):
                        if f.vararg: wrap[f.name] = (kd, a.idx, len(f.params))
                        else: VF[f.name] = (kd, a.idx)
                        grew = True; break
    callers = {}
    for g in P.fns.values():
        for i in g.insts():
            if i.op == 'call' and isinstance(i.x, Const) and i.x.ck in ('func', 'global'): callers.setdefault(i.x.v, []).append((g, i))
    for f in P.fns.values():
        pt = typed.ptypes(P, f)
        nth = {}
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, Const): continue
            n = i.x.v
            if n in PRINTF: kind, k = 'printf', PRINTF[n]; first = k + 1
            elif n in SCANF: kind, k = 'scanf', SCANF[n]; first = k + 1
            elif n in wrap: kind, k, first = ('pd' if wrap[n][0] == 'pd' else 'printf'), wrap[n][1], wrap[n][2]
            else: continue
            if k >= len(i.ops): continue
            ncall += 1; ctx.ok()
            fm = cstrs(P, f, i.ops[k])
            if isinstance(fm, tuple) and f.name in wrap: continue
            if isinstance(fm, tuple) and f.internal:
                # a format handed down by the callers of a local function
                rs = [cstrs(P, g, c.ops[fm[1]]) for g, c in callers.get(f.name, []) if g.mod is f.mod and fm[1] < len(c.ops)]
                fm = set().union(*rs) if rs and all(isinstance(r, set) for r in rs) else None
            if not isinstance(fm, set):
                fm = written_text(P, f, i.ops[k])
            if not isinstance(fm, set):
                if len(i.ops) == first:    # no arguments at all: the text is used as a format
                    ctx.violation('%s/%s/nonconst' % (f.name, n), f.file, i.line, f.name, 'the format of %s is not a constant' % n)
                else: ctx.cov.setdefault('formats_built_at_run_time', []).append('%s:%d' % (f.file, i.line))
                continue
            args = i.ops[first:]
            for s in sorted(fm):
                def bad(what): ctx.violation('%s/%s/%s' % (f.name, n, s[:40]), f.file, i.line, f.name, '%s(..."%s"...): %s' % (n, s[:70].replace('\n', '\\n'), what))
                try: spec = printf_spec(s) if kind == 'printf' else scanf_spec(s) if kind == 'scanf' else pd_spec(s, order)
                except ValueError as e: bad(str(e)); continue
                nconv += len(spec)
                if n in ('sprintf', 'snprintf'):
                    b = bufsize(f, i.ops[0], f.mod)
                    if n == 'snprintf':
                        if b is not None and isinstance(i.ops[1], Const):
                            ctx.ok()
                            if i.ops[1].v > b: bad('the limit given is %d, the buffer has %d bytes' % (i.ops[1].v, b))
                    elif b is not None:
                        l, why = longest(P, f, s, args)
                        if l is None: ctx.cov.setdefault('sprintf_length_not_bounded', []).append('%s:%d %s' % (f.file, i.line, why))
                        else:
                            ctx.ok(); nbound += 1
                            if l + 1 > b: bad('the text can have %d characters and a terminator, the buffer has %d bytes' % (l, b))
                if len(spec) != len(args):
                    bad('%d conversions need an argument, %d given' % (len(spec), len(args))); continue
                if kind == 'pd':
                    d = [o for o in i.ops[k + 1:first]]
                    if d and isinstance(d[-1], Const) and d[-1].ck == 'null':
                        for t in re.findall(r'%(FACE(?!MAP)|EDGE(?!MAP)|CROSS(?!MAP|PTR)|COMP(?!GRP)|PD|FEDGE)', s):
                            bad('%%%s prints a part of the diagram, and no diagram is given' % t)
                for (c, a) in zip(spec, args):
                    ty = str(getattr(a, 'ty', '?'))
                    if kind == 'printf':
                        if ty != c[0] and not (c[0] == 'i32' and ty in ('i1', 'i8', 'i16')):
                            bad('%s takes %s, the argument is %s' % (c[1], c[0], ty))
                    elif kind == 'pd':
                        want, _, st = c[0].partition(':')
                        if ty != want: bad('%s takes %s, the argument is %s' % (c[1], 'an int' if want == 'i32' else 'a pointer', ty)); continue
                        if st:
                            ts = {typed.ltype(P, f, l, pt) for l in A.loc_of(f, A.state[f.key][0], a) if l[0][0] in 'PD'}
                            ts = {typed.base(t) for t in ts if t and t not in ('void', 'fn')}
                            if st.endswith('_struct') and ts and st not in ts:
                                bad('%s takes a pointer to %s, the argument points to %s' % (c[1], st, ', '.join(sorted(ts))))
                    else:
                        kd, sz, w, t = c
                        if ty != 'ptr': bad('%s takes a pointer, the argument is %s' % (t, ty)); continue
                        if kd in ('int', 'fp'):
                            ps = pointee(P, A, f, a, pt)
                            if ps is not None and sz is not None and ps != sz and ps < 64:
                                bad('%s stores %d bytes into a variable of %d' % (t, sz, ps))
                        elif kd == 'str':
                            b = bufsize(f, a, f.mod)
                            if b is not None and (w is None or w >= b):
                                bad('%s may store %s into a buffer of %d bytes' % (t, 'any number of characters' if w is None else '%d characters and the terminator' % w, b))
    ncomp = compiler_formats(ctx)
    ctx.cov.update(units_checked_by_compiler=ncomp, calls=ncall, conversions=nconv, sprintf_buffers_bounded=nbound, tag_order=[s for s, n in order], wrappers=sorted(wrap))
    ctx.need(400, 'formatted calls')
