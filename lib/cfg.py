"""Control-flow helpers over irload functions: dominators, post-dominators, control dependence,
structural value numbers, reachability."""
from irload import *

def vn(v, depth=0):
    """structural expression of a value (loads included: only meaningful when memory does not change in between)"""
    if isinstance(v, Arg): return ('a', v.idx)
    if isinstance(v, Const):
        if v.ck == 'expr': return ('ce', v.v[0], tuple(vn(o) for o in v.v[1]), v.v[2])
        if v.ck == 'agg': return ('agg', id(v))
        return ('c', v.ck, v.v, v.ty)
    if isinstance(v, Inst):
        if depth < 12 and v.op in ('gep', 'sext', 'zext', 'trunc', 'load', 'bitcast', 'add', 'sub', 'mul', 'urem', 'srem',
                                   'udiv', 'sdiv', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'extractvalue', 'ptrtoint',
                                   'sitofp', 'fptosi', 'fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'select', 'fneg'):
            return (v.op, v.x if isinstance(v.x, str) else None, tuple(vn(o, depth + 1) for o in v.ops))
        return ('i', v.id)
    return ('?', id(v))

def rpo(fn):
    if 'rpo' in fn._cache: return fn._cache['rpo']
    seen = set(); out = []
    st = [(fn.blocks[0], iter(fn.blocks[0].succs))]; seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succs))); break
        else:
            out.append(b); st.pop()
    out.reverse()
    fn._cache['rpo'] = out
    return out

def _idom(nodes, preds, entry):
    order = {b: k for k, b in enumerate(nodes)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b is entry: continue
            new = None
            for p in preds(b):
                if p in idom and p in order:
                    if new is None: new = p
                    else:
                        a, c = new, p
                        while a is not c:
                            while order[a] > order[c]: a = idom[a]
                            while order[c] > order[a]: c = idom[c]
                        new = a
            if new is not None and idom.get(b) is not new:
                idom[b] = new; ch = True
    return idom

def idom(fn):
    if 'idom' not in fn._cache:
        fn._cache['idom'] = _idom(rpo(fn), lambda b: b.preds, fn.blocks[0])
    return fn._cache['idom']

def dominates(fn, a, b):
    """block a dominates block b"""
    d = idom(fn)
    if b not in d: return True
    while True:
        if a is b: return True
        n = d[b]
        if n is b: return False
        b = n

def inst_dom(fn, i, j):
    if i.bb is j.bb: return i.pos < j.pos
    return dominates(fn, i.bb, j.bb)

class _Exit: pass

def ipdom(fn):
    """immediate post-dominators; virtual exit = None key object fn._cache['exit'].  Blocks ending in unreachable are
    connected to the exit too."""
    if 'ipdom' in fn._cache: return fn._cache['ipdom']
    EX = _Exit(); fn._cache['exit'] = EX
    bl = rpo(fn)
    exits = [b for b in bl if not b.succs]
    # blocks that cannot reach an exit (infinite loops): connect arbitrarily
    can = set(exits); work = list(exits)
    while work:
        b = work.pop()
        for p in b.preds:
            if p not in can: can.add(p); work.append(p)
    for b in bl:
        if b not in can and not any(x in can for x in b.succs): exits.append(b)
    exset = set(exits)
    # reverse graph
    rs = {EX: list(exits)}
    for b in bl: rs[b] = [p for p in b.preds]
    seen = {EX}; order = []; st = [(EX, iter(rs[EX]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(rs[s]))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    def preds(b): return list(b.succs) + ([EX] if b in exset else [])
    r = _idom(order, preds, EX)
    fn._cache['ipdom'] = r
    return r

def postdominates(fn, a, b):
    d = ipdom(fn); EX = fn._cache['exit']
    while b is not EX:
        if a is b: return True
        if b not in d: return False
        b = d[b]
    return False

def control_deps(fn):
    """block -> set of (branch block, successor index) it is control dependent on"""
    if 'cd' in fn._cache: return fn._cache['cd']
    d = ipdom(fn); EX = fn._cache['exit']
    cd = {b: set() for b in rpo(fn)}
    for b in rpo(fn):
        if len(b.succs) < 2: continue
        for k, s in enumerate(b.succs):
            r = s
            stop = d.get(b, EX)
            while r is not stop and r is not EX and r in cd:
                cd[r].add((b, k))
                if r not in d: break
                r = d[r]
    fn._cache['cd'] = cd
    return cd

def loops(fn):
    """natural loops: header -> set of blocks"""
    if 'loops' in fn._cache: return fn._cache['loops']
    L = {}
    for b in rpo(fn):
        for s in b.succs:
            if dominates(fn, s, b):
                body = L.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x); w += x.preds
    fn._cache['loops'] = L
    return L

def reach(fn, a):
    """blocks reachable from block a (a included only through a cycle)"""
    seen = set(); w = list(a.succs)
    while w:
        b = w.pop()
        if b in seen: continue
        seen.add(b); w += b.succs
    return seen

def uses(fn):
    if 'uses' in fn._cache: return fn._cache['uses']
    u = {}
    for i in fn.insts():
        for o in i.ops:
            if isinstance(o, (Inst, Arg)): u.setdefault(o, []).append(i)
        if i.op == 'call' and isinstance(i.x, (Inst, Arg)): u.setdefault(i.x, []).append(i)
    fn._cache['uses'] = u
    return u

def is_exit_block(fn, b, prog=None, noret=None):
    """block ends in unreachable (exit/abort/assert)"""
    t = b.insts[-1] if b.insts else None
    return t is not None and t.op == 'unreachable'

def escapes(fn, b, barrier):
    """can a path starting at the end of block b return from the function without entering a barrier block?"""
    seen = set(); w = [b]
    first = True
    while w:
        x = w.pop()
        if not first and (x in barrier or x in seen): continue
        first = False
        seen.add(x)
        if x.insts and x.insts[-1].op == 'ret': return True
        w += x.succs
    return False

def restored_stores(fn):
    """stores of a save/modify/restore protocol: the location holds its entry value again at every return"""
    if 'rest' in fn._cache: return fn._cache['rest']
    groups = {}
    others = False
    for i in fn.insts():
        if i.op == 'store':
            if isinstance(i.ops[1], Inst) and i.ops[1].op == 'alloca': continue
            groups.setdefault(vn(i.ops[1]), []).append(i)
    out = set()
    if len(groups) == 1:
        for a, ss in groups.items():
            rs = [s for s in ss if isinstance(s.ops[0], Inst) and s.ops[0].op == 'load' and vn(s.ops[0].ops[0]) == a
                  and all(t is s or inst_dom(fn, s.ops[0], t) for t in ss) and
                  not any(t is not s and inst_dom(fn, t, s.ops[0]) for t in ss)]
            for r in rs:
                if all(t is r or (t.bb is r.bb and t.pos < r.pos) or (t.bb is not r.bb and not escapes(fn, t.bb, {r.bb}))
                       for t in ss):
                    out |= set(ss)
    fn._cache['rest'] = out
    return out
