"""Counted loops: induction variable, start, step, bound."""
import cfg
from irload import *

def strip(v):
    k = 0
    while isinstance(v, Inst) and v.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'): v = v.ops[0]
    return v

def affine(v):
    """v = base + const"""
    c = 0
    while True:
        v = strip(v)
        if isinstance(v, Inst) and v.op in ('add', 'sub') and isinstance(v.ops[1], Const) and v.ops[1].ck == 'int':
            c += v.ops[1].v if v.op == 'add' else -v.ops[1].v
            v = v.ops[0]; continue
        if isinstance(v, Inst) and v.op == 'add' and isinstance(v.ops[0], Const) and v.ops[0].ck == 'int':
            c += v.ops[0].v; v = v.ops[1]; continue
        return v, c

NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
SWP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}

class Counted:
    __slots__ = ('header', 'body', 'phi', 'init', 'step', 'conds')

def counted(fn):
    """list of Counted; conds = [(continue predicate, offset on phi, bound value, exiting block)]"""
    if 'counted' in fn._cache: return fn._cache['counted']
    out = []
    for h, body in cfg.loops(fn).items():
        for i in h.insts:
            if i.op != 'phi': break
            if i.ty == 'ptr' or i.ty[0] != 'i': continue
            init = []; step = []
            for o, pb in zip(i.ops, i.x): (step if pb in body else init).append(o)
            if len(init) != 1 or not step: continue
            st = set()
            for o in step:
                b, c = affine(o)
                st.add(c if b is i else None)
            if len(st) != 1 or None in st or 0 in st: continue
            L = Counted(); L.header, L.body, L.phi, L.init, L.step = h, body, i, init[0], st.pop(); L.conds = []
            for b in body:
                t = b.insts[-1]
                if t.op != 'br' or len(b.succs) != 2: continue
                ins = [s in body for s in b.succs]
                if all(ins) or not any(ins): continue
                c = t.ops[0]
                if not (isinstance(c, Inst) and c.op == 'icmp'): continue
                p = c.x if ins[0] else NEG[c.x]
                for x, y, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
                    bx, off = affine(x)
                    if bx is i: L.conds.append((SWP[p] if sw else p, off, y, b))
            out.append(L)
    fn._cache['counted'] = out
    return out

def range_of(L):
    """(init value, step, last-exclusive (base value, offset)) when the header test bounds an upward loop, else None"""
    for p, off, bound, b in L.conds:
        if L.step > 0 and p in ('slt', 'ult', 'ne', 'sle', 'ule'):
            bv, c = affine(bound)
            return L.init, L.step, (bv, c - off + (1 if p in ('sle', 'ule') else 0)), p, b
    return None
