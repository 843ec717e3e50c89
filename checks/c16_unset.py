"""C16: no result is computed from a variable that was never set."""
import irload, pta, unset, typed
from irload import *

META = dict(
    rule='no path of any library function reads a local variable (or a field of a local structure, or an element of a small local array) before '
         'it is set on that path; a variable handed to a called function by address counts as set only on the results with which that '
         'function sets it; a scalar field of a block fresh from malloc is not read before it is set',
    explanation='All local variables are followed as memory cells in the IR before promotion to SSA; a forward may-be-unset dataflow finds candidate reads and '
                'a path-sensitive analysis, which correlates repeated conditions, flags and callee results, decides them. Callee summaries: which '
                'pointer parameters are set on all returns, and with which results the others are left alone.',
    assumptions=['arrays filled through a variable index or handed to a library function, and variables whose address is kept somewhere, are not followed',
                 'a called function that sets a parameter only on some paths, without its result telling on which, is taken to set it',
                 'external functions set what they are given the address of (scanf results are decided by C10)'])

def check(ctx):
    P1, A1 = ctx.prog, ctx.pta
    P = irload.load_library(passes='function(instcount)')
    A = pta.PTA(P)
    U = unset.Unset(P, A, P1, A1)
    n = 0; fns = 0
    for f in P.fns.values():
        r, k = U.function(f)
        n += k; fns += 1; ctx.ok(k)
        seen = set()
        for a, l, i, S in r:
            nm = '%s%s' % (a.name or 'a temporary', ''.join('.%d' % x for x in l))
            if nm in seen: continue
            seen.add(nm)
            ctx.violation('%s/%s' % (f.name, nm), f.file, i.line, f.name, '%s is read and has not been set on the path through lines %s' % (
                nm, ' '.join(map(str, S.path(i.bb, True)[-12:]))))
    h = 0
    for f in P1.fns.values():
        k, bad = unset.heap(A1, f)
        h += k; ctx.ok(k)
        for a, path, i in bad:
            ctx.violation('%s/heap/%d/%s' % (f.name, a.line, path), f.file, i.line, f.name,
                          'field %s of the block allocated in line %d is read before it is set' % (path, a.line))
    ctx.cov.update(variables_followed=n, fresh_block_reads=h, parameters_set_on_all_paths=sum(len(v) for v in U.must.values()),
                   parameters_set_depending_on_result={'%s/%d' % (k, x): str(sorted(map(str, vs))) for k, d in U.part.items() for x, vs in d.items()})
    ctx.need(4000, 'local variables')
