"""Normal forms of the control flow, so that the analyses see one shape however the source spells it.

Truth values that pass through an integer variable (`int bad = (x < 0) ? 1 : 0; if (bad)`) become plain conditions, a branch on
a condition assembled from && and || becomes the branches it stands for, and
a guarded do-while loop (`if (c) do { ... } while (c);`) becomes the while loop it stands for."""
PURE = ('load', 'gep', 'icmp', 'sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'xor', 'and', 'or', 'bitcast', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'freeze')
SWP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}

def isinst(v): return getattr(v, 'kind', None) == 'inst'

def cst(v): return ('c', v.ck, repr(v.v)) if getattr(v, 'kind', None) == 'const' else None

def tree(v, sub, blk, depth=0):
    """structure of a value computed in block blk; values from elsewhere are leaves"""
    if v in sub: v = sub[v]
    c = cst(v)
    if c: return c
    if isinst(v) and v.op in PURE and depth < 12 and (v.bb is blk or v.op != 'load'):
        if v.op == 'icmp':
            a, b = tree(v.ops[0], sub, blk, depth + 1), tree(v.ops[1], sub, blk, depth + 1)
            return norm(v.x, a, b)
        return (v.op, v.ty, str(v.x)) + tuple(tree(o, sub, blk, depth + 1) for o in v.ops)
    return ('v', id(v))

def norm(p, a, b):
    if repr(a) > repr(b): p, a, b = SWP[p], b, a
    return ('icmp', p, a, b)

def neg(t): return ('icmp', NEG[t[1]], t[2], t[3]) if t[0] == 'icmp' else ('not', t)

def suffix(T):
    """instructions at the end of T that only compute its branch condition"""
    out = []
    for i in reversed(T.insts[:-1]):
        if i.op in PURE: out.append(i)
        else: break
    out.reverse()
    return out

def slice_(T, cond, uses):
    """the instructions of T's effect-free suffix that cond needs; None when one of them is used elsewhere"""
    suf = suffix(T); need = set(); work = [cond]
    while work:
        v = work.pop()
        if isinst(v) and v in suf and v not in need: need.add(v); work += v.ops
    return [i for i in suf if i in need]

def users(F):
    u = {}
    for b in F.blocks:
        for i in b.insts:
            for o in i.ops:
                if isinst(o): u.setdefault(o, []).append(i)
    return u

def unrotate(F, Inst, Block):
    n = 0
    while n < 200:
        if not once(F, Inst, Block): return n
        n += 1
    return n

def once(F, Inst, Block):
    if not F.blocks or len(F.blocks) < 3: return False
    done = F._cache.setdefault('unrot', set())
    for H in F.blocks:
        if len(H.preds) != 2 or H in done: continue
        for T in H.preds:
            E = [p for p in H.preds if p is not T]
            if len(E) != 1 or len(T.succs) != 2 or T.insts[-1].op != 'br' or not T.insts[-1].ops: continue
            E = E[0]
            if T.succs[0] is T.succs[1] or not reaches(H, T, E): continue
            phis = [i for i in H.insts if i.op == 'phi']
            if not phis: continue
            X = T.succs[1] if T.succs[0] is H else T.succs[0]
            # the guard: the conditional branch above E
            P = E; chain = []
            while len(P.succs) == 1 and len(P.preds) == 1 and all(i.op in PURE or i.op == 'br' for i in P.insts):
                chain.append(P); P = P.preds[0]
                if len(chain) > 4: break
            if len(P.succs) != 2 or P.insts[-1].op != 'br' or not P.insts[-1].ops: continue
            into = chain[-1] if chain else H
            if into not in P.succs or P.succs[0] is P.succs[1]: continue
            Y = P.succs[1] if P.succs[0] is into else P.succs[0]
            # the exit: X leads to Y doing nothing
            thru = []
            Z = X
            while Z is not Y and len(Z.succs) == 1 and len(Z.preds) == 1 and all(i.op == 'br' or i.op == 'phi' for i in Z.insts) and len(thru) < 4:
                thru.append(Z); Z = Z.succs[0]
            if Z is not Y: continue
            last = thru[-1] if thru else T
            if any(i.op == 'phi' for z in thru for i in z.insts): continue
            init = {}; nxt = {}
            for p in phis:
                for o, b in zip(p.ops, p.x):
                    if b is T: nxt[p] = o
                    else: init[p] = o
            c = T.insts[-1].ops[0]; g = P.insts[-1].ops[0]
            sub = {}
            for p in phis:
                if isinst(nxt[p]): sub[nxt[p]] = init[p]
            tc = tree(c, sub, T); tg = tree(g, {}, P)
            if T.succs[0] is not H: tc = neg(tc)
            if P.succs[0] is not into: tg = neg(tg)
            if tc != tg: continue
            done.add(H)
            rewrite(F, Inst, Block, H, T, E, P, into, Y, X, thru, last, phis, init, nxt, c)
            return True
    return False

def reaches(H, T, E):
    """T is reached from H without passing E (T is the latch of H's loop)"""
    seen = {H}; work = [H]
    while work:
        b = work.pop()
        if b is T: return True
        for s in b.succs:
            if s is not E and s not in seen: seen.add(s); work.append(s)
    return False

def rewrite(F, Inst, Block, H, T, E, P, into, Y, X, thru, last, phis, init, nxt, c):
    def mk(op, ty, ops, x, bb, like):
        i = Inst(); i.op = op; i.ty = ty; i.ops = ops; i.x = x; i.bb = bb; i.line = like.line; i.name = like.name
        i.file = like.file; i.fn = like.fn; i.id = 0; i.pos = 0
        return i
    N = Block(); N.insts = []; N.succs = []; N.preds = []; N.fn = F.key; N.name = 'unrot'; N.id = len(F.blocks)
    back = {}
    for p in phis:
        p.bb = N; N.insts.append(p)
        if isinst(nxt[p]): back[nxt[p]] = p
    H.insts = [i for i in H.insts if i.op != 'phi']
    u = users(F)
    # exit values
    for y in [i for i in Y.insts if i.op == 'phi']:
        v0 = [o for o, b in zip(y.ops, y.x) if b is P][0]; v1 = [o for o, b in zip(y.ops, y.x) if b is last][0]
        new = next((p for p in phis if init[p] is v0 and nxt[p] is v1 or (init[p] is v0 or cst(v0) and cst(v0) == cst(init[p])) and nxt[p] is v1), None)
        if new is None:
            if v0 is v1 or (cst(v0) and cst(v0) == cst(v1)): new = v0
            else:
                new = mk('phi', y.ty, [v0, v1], [E, T], N, y)
                N.insts.insert(0, new)
        ops = []; xs = []
        for o, b in zip(y.ops, y.x):
            if b is P or b is last: continue
            ops.append(o); xs.append(b)
        ops.append(new); xs.append(N)
        y.ops, y.x = ops, xs
    # condition in N
    sl = slice_(T, c, u)
    m = {}
    for i in sl:
        k = mk(i.op, i.ty, [m.get(o, back.get(o, o)) if isinst(o) else o for o in i.ops], i.x, N, i)
        if i in back: m[i] = back[i]; continue
        m[i] = k; N.insts.append(k)
    cc = m.get(c, back.get(c, c))
    t = mk('br', T.insts[-1].ty, [cc], None, N, T.insts[-1])
    N.insts.append(t)
    N.succs = [H, Y] if T.succs[0] is H else [Y, H]
    # drop the computations T no longer needs
    T.insts[-1].ops = []
    T.succs = [N]
    u = users(F)
    for i in reversed(sl):
        if i in back: continue
        if not u.get(i):
            T.insts.remove(i); u = users(F)
    P.insts[-1].ops = []
    P.succs = [N if into is H else into]
    if chain_end(E, H): E.succs = [N if s is H else s for s in E.succs]
    for z in thru: F.blocks.remove(z)
    k = F.blocks.index(H)
    F.blocks.insert(k, N)
    for b in F.blocks: b.preds = []
    n = 0
    for k, b in enumerate(F.blocks):
        b.id = k; b.name = str(k)
        for s in b.succs: s.preds.append(b)
        for j, i in enumerate(b.insts): i.pos = j; i.id = n; i.bb = b; n += 1
    # single-incoming phis of Y are left as they are

def chain_end(E, H): return H in E.succs


# ---------------------------------------------------------------- truth values
def truth(v, depth=0):
    """(condition, inverted) such that the integer v is non-zero exactly when the i1 condition holds; None when v is not such a value"""
    if not isinst(v) or depth > 6: return None
    if v.ty == 'i1':
        if v.op == 'xor' and cst(v.ops[1]) and v.ops[1].v in (1, -1):
            r = truth(v.ops[0], depth + 1)
            return (r[0], not r[1]) if r else (v.ops[0], True)
        if v.op == 'icmp' and v.x in ('ne', 'eq') and cst(v.ops[1]) and v.ops[1].ck == 'int' and v.ops[1].v in (0, 1):
            o = v.ops[0]
            if isinst(o) and o.ty != 'ptr':
                if v.ops[1].v == 1 and not onebit(o): return None
                r = truth(o, depth + 1)
                if r: return (r[0], r[1] != ((v.x == 'eq') == (v.ops[1].v == 0)))
                if o.ty == 'i1': return (o, (v.x == 'eq') == (v.ops[1].v == 0))
        return None
    if v.op in ('zext', 'sext', 'trunc', 'freeze'):
        o = v.ops[0]
        if isinst(o) and o.ty == 'i1': return truth(o, depth + 1) or (o, False)
        if v.op == 'trunc' and not onebit(o): return None
        return truth(o, depth + 1)
    if v.op == 'select' and all(cst(o) and o.ck == 'int' for o in v.ops[1:]):
        a, b = v.ops[1].v, v.ops[2].v
        if bool(a) == bool(b): return None
        c = v.ops[0]
        if not isinst(c): return None
        r = truth(c, depth + 1) or (c, False)
        return (r[0], r[1] != (not a))
    return None

def onebit(v, depth=0):
    """v is 0 or 1"""
    if not isinst(v): return bool(cst(v)) and v.ck == 'int' and v.v in (0, 1)
    if v.ty == 'i1': return True
    if v.op in ('zext', 'trunc', 'freeze'): return onebit(v.ops[0], depth + 1)
    if v.op == 'select': return all(onebit(o, depth + 1) for o in v.ops[1:])
    return False

def straighten(F, Inst):
    """branches test conditions, not integers holding them"""
    for b in F.blocks:
        t = b.insts[-1]
        if t.op == 'br' and t.ops and len(b.succs) == 2:
            c = t.ops[0]
            r = truth(c) if isinst(c) else None
            if r is None and isinst(c) and c.op == 'trunc' and onebit(c.ops[0]): r = truth(c.ops[0])
            if r is not None and r[0] is not c:
                t.ops = [r[0]]
                if r[1]: b.succs = [b.succs[1], b.succs[0]]
    # dead leftovers
    ch = True
    while ch:
        ch = False
        u = users(F)
        for b in F.blocks:
            keep = [i for i in b.insts if u.get(i) or i.op not in ('zext', 'sext', 'trunc', 'select', 'icmp', 'xor', 'freeze')]
            if len(keep) != len(b.insts): b.insts = keep; ch = True
    for b in F.blocks:
        for k, i in enumerate(b.insts): i.pos = k

def through(c, B):
    """the phi of B that decides the branch condition c, and how: (phi, evaluate(constant) -> truth, values between them)"""
    chain = []
    v = c
    while isinst(v) and v.bb is B and v.op != 'phi':
        if v.op in ('zext', 'sext', 'trunc', 'freeze') or v.op in ('icmp', 'xor') and cst(v.ops[1]): chain.append(v); v = v.ops[0]
        else: return None
        if len(chain) > 6: return None
    if not (isinst(v) and v.op == 'phi' and v.bb is B): return None
    def ev(k):
        x = k.v if k.ck == 'int' else 0
        if k.ty == 'i1': x = x & 1
        for i in reversed(chain):
            if i.op == 'trunc' and i.ty == 'i1': x &= 1
            elif i.op == 'sext' and i.ops[0].ty == 'i1': x = -x
            elif i.op == 'xor': x ^= i.ops[1].v; x = x & 1 if i.ty == 'i1' else x
            elif i.op == 'icmp':
                y = i.ops[1].v if i.ops[1].ck == 'int' else 0
                p = i.x
                if p[0] == 'u' and (x < 0 or y < 0): return None
                x = int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'ult': x < y, 'sle': x <= y, 'ule': x <= y, 'sgt': x > y, 'ugt': x > y, 'sge': x >= y, 'uge': x >= y}[p])
        return x
    return v, ev, chain

def thread(F):
    """a block that only branches on a phi of conditions: predecessors that bring a constant go straight to the target"""
    n = 0
    while n < 500:
        if not thread1(F): break
        n += 1
    if n: number(F)
    return n

def thread1(F):
    u = None
    for B in F.blocks:
        t = B.insts[-1]
        if t.op != 'br' or not t.ops or len(B.succs) != 2 or B.succs[0] is B.succs[1] or B in B.succs: continue
        r = through(t.ops[0], B)
        if r is None: continue
        c, ev, chain = r
        if any(i.op != 'phi' and i is not t and i not in chain for i in B.insts): continue
        if u is None: u = users(F)
        if any(len(u.get(i, ())) != 1 for i in [c] + chain): continue
        # other phis of B may only feed phis of the targets
        others = [i for i in B.insts if i.op == 'phi' and i is not c]
        if any(not (x.op == 'phi' and x.bb in B.succs and all(pb is B for o, pb in zip(x.ops, x.x) if o is i)) for i in others for x in u.get(i, ())): continue
        for o, A in zip(c.ops, c.x):
            if not (cst(o) and o.ck in ('int', 'null')): continue
            if A.succs.count(B) != 1 or c.x.count(A) != 1: continue
            e = ev(o)
            if e is None: continue
            S = B.succs[0] if e else B.succs[1]
            if S in A.succs: continue
            for x in S.insts:
                if x.op != 'phi': break
                v = x.ops[x.x.index(B)]
                if isinst(v) and v.op == 'phi' and v.bb is B: v = v.ops[v.x.index(A)]
                x.ops.append(v); x.x.append(A)
            A.succs = [S if s is B else s for s in A.succs]
            for x in [i for i in B.insts if i.op == 'phi']:
                j = x.x.index(A); x.ops.pop(j); x.x.pop(j)
            if not c.ops: drop(F, B)
            elif len(c.ops) == 1:
                for x in [i for i in B.insts if i.op == 'phi']: replace(F, x, x.ops[0]); B.insts.remove(x)
                for j, i in enumerate(B.insts): i.pos = j
            preds(F)
            return True
    return False

def replace(F, a, b):
    for bb in F.blocks:
        for i in bb.insts:
            if a in i.ops: i.ops = [b if o is a else o for o in i.ops]

def drop(F, B):
    """B is not reached any more"""
    for s in B.succs:
        for x in s.insts:
            if x.op != 'phi': break
            while B in x.x: j = x.x.index(B); x.ops.pop(j); x.x.pop(j)
    F.blocks.remove(B)

def merge(F):
    """a block and its only successor that has no other way in are one block"""
    n = 0; ch = True
    while ch:
        ch = False
        for B in F.blocks:
            if len(B.succs) != 1: continue
            S = B.succs[0]
            if S is B or len(S.preds) != 1 or S is F.blocks[0] or B.insts[-1].op != 'br': continue
            for x in [i for i in S.insts if i.op == 'phi']: replace(F, x, x.ops[0]); S.insts.remove(x)
            B.insts = B.insts[:-1] + S.insts
            B.succs = S.succs
            for s in S.succs:
                for x in s.insts:
                    if x.op != 'phi': break
                    x.x = [B if b is S else b for b in x.x]
            F.blocks.remove(S); preds(F)
            for j, i in enumerate(B.insts): i.pos = j; i.bb = B
            ch = True; n += 1
            break
    if n: number(F)

def preds(F):
    for b in F.blocks: b.preds = []
    for b in F.blocks:
        for s in b.succs: s.preds.append(b)

def number(F):
    n = 0
    for k, b in enumerate(F.blocks):
        b.id = k; b.name = str(k)
        for j, i in enumerate(b.insts): i.pos = j; i.id = n; i.bb = b; n += 1

def normalise(F, Inst, Block):
    if not F.blocks: return
    straighten(F, Inst); preds(F)
    merge(F)
    thread(F)
    unrotate(F, Inst, Block)
