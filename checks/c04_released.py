"""C04: released memory is never used, released again, returned or left behind in the caller's data."""
import uaf
from irload import AnalysisError

META = dict(
    rule='inside every function: once a pointer has been passed to free/fclose/realloc or to a library function that releases it '
         'on every path, then on every feasible path from there the pointer (under any name the function holds it by) is not read '
         'or written through, not passed on, not released again, not returned, and not left in a field of a caller-reachable '
         'structure that outlives the call',
    explanation='Path-sensitive typestate analysis (property simulation) per function; release summaries of callees are must-'
                'summaries computed bottom-up, so every report is a feasible-looking path on which the release certainly happens.',
    assumptions=['aliases created through array elements with different index variables are not tracked'])

def check(ctx):
    P, A = ctx.prog, ctx.pta
    R, must = uaf.analyse(A)
    rel = 0
    for k, U in R.items():
        f = P.fns[k]
        rel += U.nrel()
        seen = set()
        for (kind, iid, s), (i, b, p) in sorted(U.reports.items(), key=lambda x: x[1][0].line):
            si = [x for x in f.insts() if x.id == s][0]
            key = '%s/%s' % (f.name, kind.split(' by ')[0].split(' to ')[0])
            if (kind, si.line) in seen: continue
            seen.add((kind, si.line))
            what = U.left.get((i.id, s))
            ctx.violation(key, f.file, i.line, f.name, 'memory released at line %d is %s%s (path through lines %s)' % (
                si.line, kind, ' in ' + ', '.join(what) if what else '', ' -> '.join(map(str, U.path(b, p)[-12:]))))
    ctx.ok(rel)
    ctx.cov.update(functions_that_release=len(R), release_sites=rel, must_release_summaries=sum(1 for m in must.values() if m))
    ctx.need(500, 'release sites')
    for n in ('pd_code_free', 'plc_free', 'pd_free_isos'):
        f = ctx.fn(n)
        if not must.get(f.key): raise AnalysisError('release summary of %s lost' % n)
