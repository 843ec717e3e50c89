"""C02: the result of an API call depends only on its arguments, documented settings and the caller's generator."""
import gstate, c01_frames, pta
from irload import *

META = dict(
    rule='(1) no installed-API function reads, on any path, a mutable global before (re)writing it, unless the global is a '
         'documented setting (written only by its setter), is back at its initial value whenever an API function returns, or '
         'is a cached value guarded by a key that is reset in the same call; (2) no API function reaches a process-level source '
         'of randomness or time (rand, srand, time, clock, signal, getpid, getenv, a private gsl_rng ...) that its documentation '
         'does not name',
    explanation='Interprocedural upward-exposed-read / must-write / return-to-initial-value dataflow over all mutable globals of '
                'the library and call-graph reachability of nondeterminism sources, on the LLVM IR of the current sources; all '
                'paths, all inputs. State kept in files or by the application is not considered.',
    assumptions=['a library function that reports failure by returning the null pointer has not established its postcondition; '
                 'uses of stale state after such a failure inside the library are not reported',
                 'gsl and C library calls not named as sources are functions of their arguments'])

# documented setters of process-wide settings
SETTERS = {'octrope_set_levels', 'octrope_set_debug', 'set_pd_code_from_plCurve_verbose', 'set_pd_code_from_plCurve_debug'}
SOURCES = set('''rand srand random srandom drand48 lrand48 mrand48 erand48 nrand48 jrand48 srand48 seed48 rand_r initstate setstate arc4random
arc4random_uniform getrandom getentropy time clock getpid getppid gettimeofday clock_gettime times getenv secure_getenv gsl_rng_alloc
gsl_rng_set gsl_rng_env_setup gsl_rng_clone gsl_rng_memcpy signal alarm localtime ctime gmtime gethostname getuid tmpnam mkstemp tempnam uname
sysconf getrusage'''.split())
# what the documentation allows, per API function
ALLOWED = {
    'plc_perturb': ({'time', 'srand', 'rand'}, 'documented: seeds and uses rand()'),
    'plc_random_vect': ({'rand'}, 'documented: uses rand()'),
    'nplc_random_vect': ({'rand'}, 'documented: uses rand()'),
    'geyer_ips_add': ({'clock'}, 'run statistics'),
    'pd_homfly': ({'clock', 'signal'}, 'computation with a time limit'),
    'pd_homfly_timeout': ({'clock', 'signal'}, 'computation with a time limit'),
    'plc_homfly': ({'clock', 'signal'}, 'computation with a time limit'),
    'pd_classify': ({'clock', 'signal'}, 'computation with a time limit'),
    'plc_classify': ({'clock', 'signal'}, 'computation with a time limit'),
    'tsmcmc_equilateral_expectation': ({'clock'}, 'run-time limit and run statistics'),
    'tsmcmc_confined_equilateral_expectation': ({'clock'}, 'run-time limit and run statistics'),
    'tsmcmc_fixed_ftc_expectation': ({'clock'}, 'run-time limit and run statistics'),
}

def srcchain(A, P, k, e):
    out = []
    while k and len(out) < 14:
        w = A.sum[k].ext.get(e)
        if w is None: break
        f = P.fns[w[0]]
        out.append('%s:%d %s' % (f.file, w[1], f.name)); k = w[2]
    return ' -> '.join(out) + ' -> ' + e + '()'

def check(ctx):
    P, A = ctx.prog, ctx.pta
    G = gstate.GState(P, A)
    C = c01_frames.load()
    keys = {}
    for n in C:
        f = P.defs.get(n)
        if f is None: raise AnalysisError('API function %s is gone' % n)
        keys[n] = f.key
    for n in c01_frames.load('frames_shared.txt'):
        # (the order of multi-indices goes through comparison functions of the elements that the call graph cannot tell apart)
        if n in P.defs and not n.startswith('pd_multidx'): keys[n] = P.defs[n].key
    dirty = set()
    for n, k in keys.items():
        if n not in SETTERS: dirty |= G.REST[k][0]
    setting = {g for g in G.mut if all(P.fns[w[0]].name in SETTERS for w in G.mut[g])}
    uses = {}
    for n, k in keys.items():
        f = P.fns[k]
        ctx.ok()
        for g, w in G.UE[k].items():
            if isinstance(g, tuple):
                _, v, key = g
                uses[v] = 'cache guarded by ' + key
                if key not in G.UE[k]: continue
                ctx.violation('%s/state/%s' % (n, v), f.file, f.line, n, 'uses the cached value %s left by an earlier call: its key %s is not '
                              'reset in this call: %s' % (v, key, G.chain(k, g)))
                continue
            if g in setting: uses[g] = 'setting'; continue
            if g not in dirty and G.init.get(g) is not None: uses[g] = 'back at its initial value at every return'; continue
            ctx.violation('%s/state/%s' % (n, g), f.file, f.line, n,
                          'reads %s, which an earlier call may have left behind: %s' % (g, G.chain(k, g)))
        for e in sorted(set(A.sum[k].ext) & SOURCES):
            if n in ALLOWED and e in ALLOWED[n][0]: continue
            ctx.violation('%s/source/%s' % (n, e), f.file, f.line, n,
                          'depends on %s(): %s' % (e, srcchain(A, P, k, e)))
    ctx.cov.update(mutable_globals=len(G.mut), global_reads_explained=uses, settings=sorted(setting),
                   nondeterminism_sources_searched=len(SOURCES), functions_with_documented_sources=sorted(ALLOWED))
    ctx.need(280, 'API functions')
    if len(G.mut) < 15 or not any('rand' in A.sum[k].ext for k in keys.values()): raise AnalysisError('state analysis sees too little')
