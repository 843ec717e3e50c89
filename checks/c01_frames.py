"""C01: every API function changes only what its contract names; queries change nothing."""
import os, re
import pta, typed
from irload import AnalysisError, VERIF

META = dict(
    rule='for each function of the installed headers and of the headers the library shares between its parts, every memory location that it or anything it calls may write or release and '
         'that is reachable from an argument must be covered by the function\'s frame contract (contracts/frames.txt, frames_shared.txt); '
         'functions without an entry are queries and may write nothing',
    explanation='Interprocedural flow-insensitive, field-sensitive points-to and effect analysis (summaries bottom-up over '
                'the call graph) of the LLVM IR that clang produces from the current sources. The effect set is an '
                'over-approximation, so the absence of an uncovered write holds for every input and every path; array '
                'elements are not distinguished from one another. A location that is saved, changed and put back on every '
                'return path counts as unchanged.',
    assumptions=['effects of C library, GSL and Judy calls follow the model in lib/pta.py',
                 'concurrent access is out of scope'])

def load(name='frames.txt'):
    C = {}
    for l in open(os.path.join(VERIF, 'contracts', name)):
        l = l.strip()
        if not l or l.startswith('#'): continue
        n, _, rest = l.partition(' ')
        d = {}
        for part in rest.split(' ; '):
            if '=' not in part: continue
            a, _, ps = part.partition('=')
            d[int(a.strip().split(':')[0])] = ps.split()
        C[n] = d
    return C

def covered(path, allowed, pre=''):
    for a in allowed:
        if pre:
            if not a.startswith('~'): continue
            a = a[1:]
        elif a.startswith('~'): continue
        if a == '.': return True
        if path == a or path.startswith(a + '.') or path.startswith(a + '['): return True
    return False

def check(ctx):
    P, A = ctx.prog, ctx.pta
    C = load()
    nq = 0; nparam = 0; nw = 0
    I = load('frames_shared.txt')
    for name, con in list(C.items()) + list(I.items()):
        f = P.defs.get(name)
        if f is None and name in I: continue
        if f is None: raise AnalysisError('API function %s is gone' % name)
        ctx.ok()
        if not con: nq += 1
        S = A.sum[f.key]
        nparam += sum(1 for a in f.params if a.ty == 'ptr')
        for kind, pre, verb in (('mods', '', 'writes'), ('frees', '~', 'releases')):
            done = set()
            for loc in sorted(getattr(S, kind), key=str):
                r = pta.root(loc[0])
                if r[0] != 'P' or r[1] == f.sret: continue
                si = f.srcidx[r[1]]
                pname, path = typed.apath(P, f, loc)
                nw += 1
                if covered(path, con.get(si, ()), pre): continue
                if (si, path) in done: continue
                done.add((si, path))
                what = re.sub(r'\.coerce\d', '', pname) + (('->' + path) if path and not path.startswith('[') else path)
                ctx.violation('%s/%s/%s%s' % (name, si, pre, path), f.file, f.line, name,
                              '%s %s, which its contract does not allow: %s' % (verb, what, A.chain(f.key, loc, kind)))
    ctx.cov.update(api_functions=len(C), shared_functions=len(I), pure_queries=nq, pointer_parameters=nparam, effects_matched_against_contracts=nw)
    ctx.need(280, 'API functions')
    # self-test: the analysis must see the effects we know are there
    for n, i, path in (('plc_fix_wrap', 0, 'cp[].vt[]'), ('pd_regenerate_hash', 0, 'hash'), ('plc_scale', 0, 'cst[]')):
        f = P.defs[n]
        if not any(pta.root(l[0]) == ('P', i) and typed.apath(P, f, l)[1].startswith(path) for l in A.sum[f.key].mods):
            raise AnalysisError('effect analysis lost the write %s of %s' % (path, n))
