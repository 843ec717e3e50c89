"""Compile /repo's sources to LLVM IR with clang and load the IR (through the
LLVM-C API, ctypes) into light Python objects.  Nothing is executed: the sources
are only parsed, type-checked and lowered by the compiler front end."""
import ctypes, os, re, subprocess, sys, tempfile, shutil, pickle
import unrotate
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_size_t, c_longlong, c_ulonglong, byref, POINTER
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'


class AnalysisError(Exception):
    """The analysis could not be carried out (neither pass nor violation)."""


# ------------------------------------------------------------------ model
class Val:
    __slots__ = ()


class Arg(Val):
    __slots__ = ('idx', 'name', 'ty', 'fn')
    kind = 'arg'
    def __repr__(self): return '%%%s' % self.name


class Const(Val):
    """Integer / null / undef / float / aggregate / string / global / function."""
    __slots__ = ('ck', 'v', 'ty')
    kind = 'const'
    # ck: int, null, undef, fp, global, func, expr(=gep/cast on global: v=(opcode, ops, srcty)), agg, str, zero, other
    def __init__(self, ck, v, ty): self.ck = ck; self.v = v; self.ty = ty
    def __repr__(self): return '%s:%r' % (self.ck, self.v)


class Inst(Val):
    __slots__ = ('op', 'ty', 'ops', 'id', 'bb', 'line', 'file', 'name', 'x', 'fn', 'pos')
    kind = 'inst'
    def __repr__(self): return '<%s %%%s @%s>' % (self.op, self.name or self.id, self.line)


class Block:
    __slots__ = ('id', 'name', 'insts', 'succs', 'preds', 'fn')
    def __repr__(self): return '<bb %s>' % self.name


class Fn:
    __slots__ = ('name', 'internal', 'params', 'blocks', 'mod', 'decl', 'line', 'file', 'noreturn',
                 'retty', 'vararg', 'key', 'di', '_cache', 'byval', 'sret', 'srcidx')
    def __repr__(self): return '<fn %s>' % self.name
    def insts(self):
        for b in self.blocks:
            for i in b.insts: yield i
    def __getstate__(self):
        return {s: getattr(self, s) for s in Fn.__slots__ if s not in ('mod', '_cache') and hasattr(self, s)}
    def __setstate__(self, d):
        for k, v in d.items(): setattr(self, k, v)
        self._cache = {}


class Global:
    __slots__ = ('name', 'internal', 'ty', 'init', 'const', 'thread')


class Mod:
    __slots__ = ('src', 'path', 'funcs', 'globals', 'types', 'fields', 'di')


# ------------------------------------------------------------------ LLVM-C
_L = None
def L():
    global _L
    if _L is None:
        for n in ('libLLVM-18.so.1', 'libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM-18.so',
                  '/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
            try:
                _L = ctypes.CDLL(n); break
            except OSError:
                continue
        if _L is None: raise AnalysisError('libLLVM-18 not found')
    return _L

_PTRFUNS = '''LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal
LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMGetOperand
LLVMTypeOf LLVMGetInitializer LLVMGetCalledValue LLVMGetSuccessor LLVMGetIncomingBlock LLVMGetIncomingValue
LLVMGetBasicBlockTerminator LLVMValueAsBasicBlock LLVMGetAllocatedType LLVMGetGEPSourceElementType
LLVMStructGetTypeAtIndex LLVMGetElementType LLVMGetParam LLVMGlobalGetValueType LLVMGetReturnType
LLVMGetCalledFunctionType LLVMGetElementAsConstant LLVMCreatePassBuilderOptions LLVMRunPasses
LLVMGetAggregateElement'''.split()
_STRFUNS = 'LLVMGetStructName LLVMGetAsString LLVMGetDebugLocFilename LLVMGetDebugLocDirectory LLVMGetValueName2'.split()


def _setup():
    l = L()
    if getattr(l, '_ready', False): return l
    for n in _PTRFUNS:
        f = getattr(l, n); f.restype = c_void_p
    for n in ('LLVMPrintTypeToString', 'LLVMPrintValueToString', 'LLVMGetErrorMessage'):
        getattr(l, n).restype = c_void_p
    for n in _STRFUNS: getattr(l, n).restype = c_void_p
    l.LLVMConstIntGetSExtValue.restype = c_longlong
    l.LLVMConstIntGetZExtValue.restype = c_ulonglong
    l.LLVMConstRealGetDouble.restype = ctypes.c_double
    l.LLVMGetArrayLength2.restype = c_ulonglong
    l._ready = True
    return l


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
         10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR = 0, 1, 5, 6, 8
VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAZ, VK_CDA, VK_CDV, VK_CINT, VK_CFP, VK_CNULL = \
    10, 11, 12, 13, None, None, None, None, None, None, None


def cstr(p):
    return ctypes.cast(p, c_char_p).value.decode('utf-8', 'replace') if p else ''


_known = None
def known_functions():
    global _known
    if _known is None:
        try: _known = set(open(os.path.join(VERIF, 'contracts', 'functions.txt')).read().split())
        except OSError: _known = set()
    return _known


class Loader:
    def __init__(self, bcpath, src, path):
        self.l = l = _setup()
        self.ctx = c_void_p(l.LLVMContextCreate())
        buf = c_void_p(); msg = c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(bcpath.encode(), byref(buf), byref(msg)):
            raise AnalysisError('cannot read %s' % bcpath)
        m = c_void_p()
        if l.LLVMParseBitcodeInContext2(self.ctx, buf, byref(m)):
            raise AnalysisError('cannot parse bitcode %s' % bcpath)
        self.m = m
        self.types = {}
        self.tcache = {}
        self.src = src; self.path = path
        self.ccache = {}

    # types are interned strings; self.types maps the string to a structure
    def ty(self, t):
        if t in self.tcache: return self.tcache[t]
        l = self.l
        p = l.LLVMPrintTypeToString(c_void_p(t)); s = cstr(p); l.LLVMDisposeMessage(c_void_p(p))
        k = l.LLVMGetTypeKind(c_void_p(t))
        # 0 void 2 float 3 double 4 x86_fp80 7 label 8 int 9 function 10 struct 11 array 12 pointer 13 vector 14 metadata
        if k == 10:
            nm = cstr(l.LLVMGetStructName(c_void_p(t)))
            if nm:
                nm = re.sub(r'\.\d+$', '', nm)
                s = '%' + nm
            self.tcache[t] = s
            n = l.LLVMCountStructElementTypes(c_void_p(t))
            self.types[s] = ('struct', nm, tuple(self.ty(l.LLVMStructGetTypeAtIndex(c_void_p(t), i)) for i in range(n)))
        elif k == 11:
            e = self.ty(l.LLVMGetElementType(c_void_p(t)))
            n = l.LLVMGetArrayLength2(c_void_p(t))
            s = '[%d x %s]' % (n, e)
            self.types[s] = ('array', n, e)
        elif k == 13:
            e = self.ty(l.LLVMGetElementType(c_void_p(t)))
            n = l.LLVMGetVectorSize(c_void_p(t))
            self.types[s] = ('vector', n, e)
        elif k == 8: self.types[s] = ('int', l.LLVMGetIntTypeWidth(c_void_p(t)))
        elif k == 12: self.types[s] = ('ptr',)
        else:
            s = {0: 'void', 2: 'float', 3: 'double', 7: 'label'}.get(k, s.split('\n')[0])
            self.types[s] = (s,)
        self.tcache[t] = s
        return s

    def vname(self, v):
        n = c_size_t()
        p = self.l.LLVMGetValueName2(c_void_p(v), byref(n))
        return ctypes.string_at(p, n.value).decode('utf-8', 'replace') if n.value else ''

    def const(self, v):
        if v in self.ccache: return self.ccache[v]
        l = self.l
        V = c_void_p(v)
        t = self.ty(l.LLVMTypeOf(V))
        c = None
        if l.LLVMIsAFunction(V): c = Const('func', self.vname(v), t)
        elif l.LLVMIsAGlobalVariable(V): c = Const('global', self.vname(v), t)
        elif l.LLVMIsAConstantInt(V):
            w = self.types[t][1]
            c = Const('int', l.LLVMConstIntGetSExtValue(V) if w <= 64 else 0, t)
        elif l.LLVMIsAConstantFP(V):
            lost = c_int()
            c = Const('fp', l.LLVMConstRealGetDouble(V, byref(lost)), t)
        elif l.LLVMIsAConstantPointerNull(V): c = Const('null', 0, t)
        elif l.LLVMIsUndef(V) or l.LLVMIsPoison(V): c = Const('undef', 0, t)
        elif l.LLVMIsAConstantAggregateZero(V): c = Const('zero', 0, t)
        elif l.LLVMIsAConstantDataSequential(V):
            if l.LLVMIsConstantString(V):
                n = c_size_t(); p = l.LLVMGetAsString(V, byref(n))
                c = Const('str', ctypes.string_at(p, n.value).decode('latin1'), t)
            else:
                n = self.types[t][1]
                c = Const('agg', [self.const(l.LLVMGetElementAsConstant(V, i)) for i in range(n)], t)
        elif l.LLVMIsAConstantExpr(V):
            op = OPC.get(l.LLVMGetConstOpcode(V), '?')
            ops = [self.const(l.LLVMGetOperand(V, i)) for i in range(l.LLVMGetNumOperands(V))]
            sty = self.ty(l.LLVMGetGEPSourceElementType(V)) if op == 'gep' else None
            c = Const('expr', (op, ops, sty), t)
        elif l.LLVMIsAConstantArray(V) or l.LLVMIsAConstantStruct(V) or l.LLVMIsAConstantVector(V):
            c = Const('agg', [self.const(l.LLVMGetOperand(V, i)) for i in range(l.LLVMGetNumOperands(V))], t)
        else:
            c = Const('other', self.vname(v), t)
        self.ccache[v] = c
        return c

    def inline_new(self):
        """Functions that the contracts do not know (a helper someone split off) are analysed as part of their callers."""
        l = self.l
        known = known_functions() - getattr(self, 'inline', set())
        if not known: return
        attr = lambda n: l.LLVMGetEnumAttributeKindForName(n, len(n))
        l.LLVMCreateEnumAttribute.restype = c_void_p
        f = l.LLVMGetFirstFunction(self.m); n = 0
        while f:
            V = c_void_p(f)
            if not l.LLVMIsDeclaration(V) and self.vname(f) not in known and self.vname(f) != 'main':
                for a in (b'noinline', b'optnone'): l.LLVMRemoveEnumAttributeAtIndex(V, c_uint(0xffffffff), attr(a))
                l.LLVMAddAttributeAtIndex(V, c_uint(0xffffffff), c_void_p(l.LLVMCreateEnumAttribute(self.ctx, attr(b'alwaysinline'), c_ulonglong(0))))
                n += 1
            f = l.LLVMGetNextFunction(V)
        if n:
            opt = c_void_p(l.LLVMCreatePassBuilderOptions())
            e = l.LLVMRunPasses(self.m, b'always-inline,globaldce', None, opt)
            if e: raise AnalysisError('passes failed: ' + cstr(l.LLVMGetErrorMessage(c_void_p(e))))

    def load(self, passes):
        l = self.l
        self.inline_new()
        if passes:
            opt = c_void_p(l.LLVMCreatePassBuilderOptions())
            e = l.LLVMRunPasses(self.m, passes.encode(), None, opt)
            if e:
                raise AnalysisError('passes failed: ' + cstr(l.LLVMGetErrorMessage(c_void_p(e))))
        M = Mod(); M.src = self.src; M.path = self.path
        M.funcs = {}; M.globals = {}
        g = l.LLVMGetFirstGlobal(self.m)
        while g:
            G = Global(); G.name = self.vname(g)
            G.internal = l.LLVMGetLinkage(c_void_p(g)) in (8, 9)
            G.ty = self.ty(l.LLVMGlobalGetValueType(c_void_p(g)))
            i = l.LLVMGetInitializer(c_void_p(g))
            G.init = self.const(i) if i else None
            G.const = bool(l.LLVMIsGlobalConstant(c_void_p(g)))
            G.thread = bool(l.LLVMIsThreadLocal(c_void_p(g)))
            M.globals[G.name] = G
            g = l.LLVMGetNextGlobal(c_void_p(g))
        f = l.LLVMGetFirstFunction(self.m)
        while f:
            F = self.func(f)
            M.funcs[F.name] = F
            f = l.LLVMGetNextFunction(c_void_p(f))
        M.types = self.types
        p = l.LLVMPrintModuleToString(self.m)
        l.LLVMPrintModuleToString.restype = c_void_p
        p = l.LLVMPrintModuleToString(self.m)
        txt = cstr(p); l.LLVMDisposeMessage(c_void_p(p))
        M.di = parse_di(txt)
        M.fields = M.di['structs']
        return M

    def func(self, f):
        l = self.l
        F = Fn(); F._cache = {}
        F.name = self.vname(f); F.internal = l.LLVMGetLinkage(c_void_p(f)) in (8, 9)
        fty = c_void_p(l.LLVMGlobalGetValueType(c_void_p(f)))
        F.retty = self.ty(l.LLVMGetReturnType(fty))
        F.vararg = bool(l.LLVMIsFunctionVarArg(fty))
        F.params = []
        F.line = 0; F.file = self.src
        vals = {}
        kb = l.LLVMGetEnumAttributeKindForName(b'byval', 5); ks = l.LLVMGetEnumAttributeKindForName(b'sret', 4)
        l.LLVMGetEnumAttributeAtIndex.restype = c_void_p
        F.byval = set(); F.sret = None
        for i in range(l.LLVMCountParams(c_void_p(f))):
            if l.LLVMGetEnumAttributeAtIndex(c_void_p(f), c_uint(i + 1), kb): F.byval.add(i)
            if l.LLVMGetEnumAttributeAtIndex(c_void_p(f), c_uint(i + 1), ks): F.sret = i
            p = l.LLVMGetParam(c_void_p(f), i)
            a = Arg(); a.idx = i; a.name = self.vname(p) or ('arg%d' % i); a.ty = self.ty(l.LLVMTypeOf(c_void_p(p)))
            a.fn = F.name
            F.params.append(a); vals[p] = a
        F.blocks = []
        F.decl = bool(l.LLVMIsDeclaration(c_void_p(f)))
        kid = l.LLVMGetEnumAttributeKindForName(b'noreturn', 8)
        F.noreturn = bool(l.LLVMGetEnumAttributeAtIndex(c_void_p(f), c_uint(0xffffffff), kid))
        F.key = F.name
        F.di = None
        if F.decl: return F
        F.line = l.LLVMGetDebugLocLine(c_void_p(f))
        bmap = {}
        raw = []
        b = l.LLVMGetFirstBasicBlock(c_void_p(f))
        iid = 0
        while b:
            B = Block(); B.id = len(F.blocks); B.name = cstr(l.LLVMGetBasicBlockName(c_void_p(b))) if False else str(B.id)
            B.insts = []; B.succs = []; B.preds = []; B.fn = F.name
            F.blocks.append(B); bmap[b] = B
            i = l.LLVMGetFirstInstruction(c_void_p(b))
            while i:
                I = Inst(); I.id = iid; iid += 1; I.bb = B; I.fn = F.name
                I.pos = len(B.insts)
                vals[i] = I; raw.append((i, I)); B.insts.append(I)
                i = l.LLVMGetNextInstruction(c_void_p(i))
            b = l.LLVMGetNextBasicBlock(c_void_p(b))

        def val(v):
            r = vals.get(v)
            if r is not None: return r
            r = bmap.get(v)
            if r is not None: return r
            if l.LLVMValueIsBasicBlock(c_void_p(v)):
                return bmap[l.LLVMValueAsBasicBlock(c_void_p(v))]
            if l.LLVMIsConstant(c_void_p(v)): return self.const(v)
            return Const('other', self.vname(v), 'metadata')

        for v, I in raw:
            V = c_void_p(v)
            I.op = OPC.get(l.LLVMGetInstructionOpcode(V), '?')
            I.ty = self.ty(l.LLVMTypeOf(V))
            I.name = self.vname(v)
            I.line = l.LLVMGetDebugLocLine(V)
            n = c_uint()
            I.file = None
            I.x = None
            if I.op == 'br':
                n = l.LLVMGetNumOperands(V)
                I.ops = [val(l.LLVMGetOperand(V, 0))] if n == 3 else []
                I.bb.succs = [bmap[l.LLVMGetSuccessor(V, k)] for k in range(l.LLVMGetNumSuccessors(V))]
            elif I.op == 'switch':
                n = l.LLVMGetNumOperands(V)
                I.ops = [val(l.LLVMGetOperand(V, 0))]
                I.bb.succs = [bmap[l.LLVMGetSuccessor(V, k)] for k in range(l.LLVMGetNumSuccessors(V))]
                # case values: operands 2,4,... ; successor k>0 <-> operand 2k
                I.x = [None] + [self.const(l.LLVMGetOperand(V, 2 * k)).v for k in range(1, l.LLVMGetNumSuccessors(V))]
            elif I.op == 'phi':
                n = l.LLVMCountIncoming(V)
                I.ops = [val(l.LLVMGetIncomingValue(V, k)) for k in range(n)]
                I.x = [bmap[l.LLVMGetIncomingBlock(V, k)] for k in range(n)]
            elif I.op == 'call':
                n = l.LLVMGetNumArgOperands(V)
                I.ops = [val(l.LLVMGetOperand(V, k)) for k in range(n)]
                I.x = val(l.LLVMGetCalledValue(V))
            else:
                I.ops = [val(l.LLVMGetOperand(V, k)) for k in range(l.LLVMGetNumOperands(V))]
                if I.op == 'icmp': I.x = IPRED[l.LLVMGetICmpPredicate(V)]
                elif I.op == 'fcmp': I.x = FPRED[l.LLVMGetFCmpPredicate(V)]
                elif I.op == 'alloca': I.x = self.ty(l.LLVMGetAllocatedType(V))
                elif I.op == 'gep': I.x = self.ty(l.LLVMGetGEPSourceElementType(V))
                elif I.op in ('extractvalue', 'insertvalue'): I.x = 'agg'
        for B in F.blocks:
            for s in B.succs: s.preds.append(B)
        return F


_re_node = re.compile(r'^!(\d+) = (?:distinct )?!(\w+)?(.*)$')
def parse_di(txt):
    """Struct member names (by IR struct name and by DI name), function parameter names/types."""
    nodes = {}
    for line in txt.split('\n'):
        if not line.startswith('!'): continue
        m = re.match(r'^!(\d+) = (?:distinct )?!(.*)$', line)
        if m: nodes[int(m.group(1))] = m.group(2)
    def attrs(n):
        s = nodes.get(n, '')
        d = {}
        for a in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[\w|]+)', s): d[a.group(1)] = a.group(2).strip('"')
        d['_'] = s.split('(')[0]
        return d
    def lst(ref):
        if not ref or not ref.startswith('!'): return []
        s = nodes.get(int(ref[1:]), '')
        if not s.startswith('{'): return []
        return [int(x) for x in re.findall(r'!(\d+)', s)]
    memo = {}
    def tyname(ref, depth=0):
        """C-ish spelling of a DI type: base name, with * and const"""
        if ref is None or ref == 'null': return 'void'
        n = int(ref[1:])
        if n in memo: return memo[n]
        memo[n] = '...'
        a = attrs(n)
        k = a['_']
        if k == 'DIBasicType': r = a.get('name', '?')
        elif k == 'DICompositeType':
            t = a.get('tag', '')
            if 'array' in t: r = tyname(a.get('baseType')) + '[]'
            else: r = ('enum ' if 'enum' in t else 'union ' if 'union' in t else 'struct ') + a.get('name', '<anon>')
        elif k == 'DISubroutineType': r = 'fn'
        elif k == 'DIDerivedType':
            t = a.get('tag')
            b = tyname(a.get('baseType'))
            if t == 'DW_TAG_pointer_type': r = b + '*'
            elif t == 'DW_TAG_const_type': r = 'const ' + b if not b.endswith('*') else b + ' const'
            elif t == 'DW_TAG_typedef': r = b if not b.endswith('<anon>') else b.split()[0] + ' ' + a.get('name')
            else: r = b
        else: r = '?'
        memo[n] = r
        return r
    structs = {}
    stypes = {}
    enums = {}
    for n in list(nodes):
        s = nodes[n]
        if s.startswith('DICompositeType'):
            a = attrs(n)
            if a.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'name' in a and a.get('elements'):
                mem = []; mt = []
                for e in lst(a['elements']):
                    ea = attrs(e); mem.append(ea.get('name', '?')); mt.append(tyname(ea.get('baseType')))
                structs[a['name']] = mem; stypes[a['name']] = mt
            elif a.get('tag') == 'DW_TAG_enumeration_type' and a.get('elements'):
                enums[a.get('name', 'anon%d' % n)] = [(attrs(e).get('name'), int(attrs(e).get('value', '0')) if attrs(e).get('value', '0').lstrip('-').isdigit() else None) for e in lst(a['elements'])]
        elif s.startswith('DIDerivedType') and 'DW_TAG_typedef' in s:
            a = attrs(n)
            b = a.get('baseType')
            if b and b.startswith('!'):
                ba = attrs(int(b[1:]))
                if ba['_'] == 'DICompositeType' and 'name' not in ba and ba.get('elements') and 'enum' not in ba.get('tag', ''):
                    mem = []; mt = []
                    for e in lst(ba['elements']):
                        ea = attrs(e); mem.append(ea.get('name', '?')); mt.append(tyname(ea.get('baseType')))
                    structs.setdefault(a.get('name'), mem); stypes.setdefault(a.get('name'), mt)
    funcs = {}
    gvars = {}
    for n in list(nodes):
        s = nodes[n]
        if s.startswith('DISubprogram'):
            a = attrs(n)
            if 'name' not in a: continue
            ta = attrs(int(a['type'][1:])) if a.get('type', '').startswith('!') else {}
            tys = []
            ref = ta.get('types')
            if ref and ref.startswith('!'):
                body = nodes.get(int(ref[1:]), '')
                for x in re.findall(r'!(\d+)|null', body):
                    tys.append(tyname('!' + x) if x else 'void')
            fa = attrs(int(a['file'][1:])) if a.get('file', '').startswith('!') else {}
            funcs[a['name']] = {'types': tys, 'line': int(a.get('line', 0)), 'file': fa.get('filename', ''),
                                'def': 'DISPFlagDefinition' in s, 'params': []}
        elif s.startswith('DIGlobalVariable('):
            a = attrs(n)
            gvars[a.get('name')] = (tyname(a.get('type')), int(a.get('line', 0)))
    # parameter names
    spname = {n: attrs(n).get('name') for n in nodes if nodes[n].startswith('DISubprogram')}
    for n in nodes:
        s = nodes[n]
        if s.startswith('DILocalVariable'):
            a = attrs(n)
            if 'arg' in a and a.get('scope', '').startswith('!'):
                f = spname.get(int(a['scope'][1:]))
                if f in funcs:
                    funcs[f]['params'].append((int(a['arg']), a.get('name'), tyname(a.get('type'))))
    for f in funcs.values(): f['params'].sort()
    return {'structs': structs, 'stypes': stypes, 'funcs': funcs, 'enums': enums, 'gvars': gvars}


# ------------------------------------------------------------------ sources
def makefile_sources():
    """The library and program sources the build lists in src/Makefile.am."""
    p = os.path.join(REPO, 'src', 'Makefile.am')
    try: txt = open(p).read()
    except OSError as e: raise AnalysisError(str(e))
    txt = re.sub(r'\\\n', ' ', txt)
    out = {}
    for m in re.finditer(r'^(\w+)_SOURCES\s*=\s*(.*)$', txt, re.M):
        body = m.group(2).split('#')[0]
        out[m.group(1)] = [w for w in body.split() if w.endswith('.c')]
    return out

THIRD = {'arg_date.c', 'arg_dbl.c', 'arg_end.c', 'arg_file.c', 'arg_int.c', 'arg_lit.c', 'arg_rem.c', 'arg_rex.c',
         'arg_str.c', 'argtable2.c', 'getopt.c', 'getopt1.c'}
NOBUILD = {'kascentpermutation.c': 'includes naptable.h, which the repository does not contain'}


def cflags(extra=()):
    src = os.path.join(REPO, 'src')
    return ['-O0', '-Xclang', '-disable-O0-optnone', '-w', '-g', '-fno-discard-value-names', '-std=gnu17',
            '-DHAVE_CONFIG_H', '-I', os.path.join(VERIF, 'include'), '-I', src, '-I', os.path.join(REPO, 'judy/src'),
            '-I', REPO] + list(extra)


def _compile_load(args):
    src, path, tmp, extra, passes = args[:5]
    inline = args[5] if len(args) > 5 else ()
    bc = os.path.join(tmp, src.replace('/', '_') + '.bc')
    r = subprocess.run([CLANG] + cflags(extra) + ['-emit-llvm', '-c', path, '-o', bc], capture_output=True, text=True)
    if r.returncode: return (src, None, r.stderr[-2000:])
    ld = Loader(bc, src, path); ld.inline = set(inline)
    m = ld.load(passes)
    os.unlink(bc)
    sys.setrecursionlimit(1000000)
    # flatten for pickling: large object graphs recurse deeply, so raise the C stack too
    return (src, pack(m), '')


# pickling deep graphs: encode references as indices
def pack(m):
    fs = []
    for F in m.funcs.values():
        insts = [i for b in F.blocks for i in b.insts]
        def enc(v):
            k = getattr(v, 'kind', None)
            if k == 'inst': return ('i', v.id)
            if k == 'arg': return ('a', v.idx)
            if isinstance(v, Block): return ('b', v.id)
            return ('c', v)
        fs.append((F.name, F.internal, [(a.name, a.ty) for a in F.params], F.decl, F.line, F.file, F.noreturn, F.retty,
                   F.vararg, F.byval, F.sret,
                   [([s.id for s in b.succs],
                     [(i.op, i.ty, i.line, i.name,
                       [enc(o) for o in i.ops],
                       ('B', [b2.id for b2 in i.x]) if i.op == 'phi' else ('V', enc(i.x)) if i.op == 'call' else ('X', i.x))
                      for i in b.insts]) for b in F.blocks]))
    return (m.src, m.path, fs, m.globals, m.types, m.fields, m.di)


def unpack(t):
    M = Mod()
    M.src, M.path, fs, M.globals, M.types, M.fields, M.di = t
    M.funcs = {}
    for (name, internal, params, decl, line, file, noret, retty, vararg, byval, sret, blocks) in fs:
        F = Fn(); F._cache = {}
        F.name = name; F.internal = internal; F.decl = decl; F.line = line; F.file = file; F.noreturn = noret
        F.retty = retty; F.vararg = vararg; F.byval = byval; F.sret = sret; F.mod = M; F.di = M.di['funcs'].get(name)
        F.key = name if not internal else '%s:%s' % (M.src, name)
        F.params = []
        for i, (n, ty) in enumerate(params):
            a = Arg(); a.idx = i; a.name = n; a.ty = ty; a.fn = F.key; F.params.append(a)
        # IR parameter index -> source parameter index (0-based); None for sret
        F.srcidx = []
        names = [p[1] for p in F.di['params']] if F.di else []
        for a in F.params:
            n = re.sub(r'\.coerce\d*$', '', a.name)
            F.srcidx.append(names.index(n) if n in names else None)
        F.blocks = []
        insts = []
        for bi, (succs, il) in enumerate(blocks):
            B = Block(); B.id = bi; B.name = str(bi); B.insts = []; B.succs = succs; B.preds = []; B.fn = F.key
            F.blocks.append(B)
            for (op, ty, ln, nm, ops, x) in il:
                I = Inst(); I.op = op; I.ty = ty; I.line = ln; I.name = nm; I.ops = ops; I.x = x; I.bb = B
                I.id = len(insts); I.pos = len(B.insts); I.fn = F.key; I.file = M.src
                insts.append(I); B.insts.append(I)
        def dec(e):
            k, v = e
            return insts[v] if k == 'i' else F.params[v] if k == 'a' else F.blocks[v] if k == 'b' else v
        for B in F.blocks:
            B.succs = [F.blocks[s] for s in B.succs]
            for I in B.insts:
                I.ops = [dec(o) for o in I.ops]
                k, v = I.x
                I.x = [F.blocks[b] for b in v] if k == 'B' else dec(v) if k == 'V' else v
        for B in F.blocks:
            B.insts = [I for I in B.insts if not (I.op == 'call' and getattr(I.x, 'ck', None) == 'func' and
                       I.x.v.startswith(('llvm.dbg.', 'llvm.lifetime.')))]
            for k, I in enumerate(B.insts): I.pos = k
            for s in B.succs: s.preds.append(B)
        unrotate.normalise(F, Inst, Block)
        M.funcs[name] = F
    return M


class Program:
    """A set of modules that are linked together, with name resolution."""
    def __init__(self, mods):
        self.mods = mods
        self.defs = {}       # external name -> Fn
        self.fns = {}        # key -> Fn
        self.types = {}
        self.fields = {}
        self.stypes = {}
        self.enums = {}
        self.globals = {}
        for m in mods:
            self.types.update(m.types)
            for k, v in m.fields.items():
                self.fields.setdefault(k, v)
            for k, v in m.di['stypes'].items(): self.stypes.setdefault(k, v)
            for k, v in m.di['enums'].items(): self.enums.setdefault(k, v)
            for n, f in m.funcs.items():
                if f.decl: continue
                if not f.internal: self.defs.setdefault(n, f)
                self.fns[f.key] = f
            for n, g in m.globals.items():
                if g.init is not None and not g.internal: self.globals[n] = g
                if g.internal: self.globals[m.src + ':' + n] = g

    def resolve(self, fn, name):
        """Function definition that `name` denotes inside fn's module (None: external)."""
        f = fn.mod.funcs.get(name)
        if f is not None and not f.decl: return f
        return self.defs.get(name)

    def gkey(self, fn, name):
        g = fn.mod.globals.get(name)
        if g is not None and g.internal: return fn.mod.src + ':' + name
        return name

    def gvar(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.init is not None: return g
        return self.globals.get(name)


PASSES = 'function(mem2reg)'


def load_sources(srcs, extra=(), passes=PASSES, jobs=8, inline=()):
    tmp = tempfile.mkdtemp(prefix='vplc_')
    try:
        args = [(s, os.path.join(REPO, 'src', s), tmp, tuple(extra), passes, tuple(inline)) for s in srcs]
        with ProcessPoolExecutor(jobs) as ex:
            res = list(ex.map(_compile_load, args))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mods = {}
    for s, m, err in res:
        if m is None: raise AnalysisError('clang cannot compile %s:\n%s' % (s, err))
        mods[s] = unpack(m)
    return mods


def lib_sources(third=False):
    ms = makefile_sources()
    if 'libplCurveStatic_la' not in ms and 'libplCurve_la' not in ms: raise AnalysisError('no library sources in Makefile.am')
    lib = list(dict.fromkeys(ms.get('libplCurve_la', []) + ms.get('libplCurveStatic_la', [])))
    lib = [s for s in lib if s not in NOBUILD and (third or s not in THIRD)]
    nlib = [s for s in ms.get('libnplCurve_la', []) if s not in THIRD]
    progs = {k: [s for s in v if s not in THIRD] for k, v in ms.items() if not k.endswith('_la')}
    return lib, nlib, progs


def load_library(extra=(), passes=PASSES):
    lib, nlib, progs = lib_sources()
    extras = [s for s in nlib if s not in lib]
    mods = load_sources(lib + extras, extra, passes)
    P = Program([mods[s] for s in lib + extras])
    P.lib = lib; P.nlib = extras
    return P
