"""Runner support: loading, reporting, known findings, evidence."""
import json, os, sys, time, traceback
import irload
from irload import AnalysisError, VERIF, REPO

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.samples = []
        self.instances = 0
        self.assumptions = []
        self._prog = None; self._pta = None
        self.extra = ()         # additional compiler flags (another configuration of the library)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    # ---- program
    @property
    def prog(self):
        if self._prog is None:
            self._prog = irload.load_library(extra=self.extra)
            nf = len(self._prog.fns)
            if nf < 400: raise AnalysisError('only %d functions found in the library' % nf)
            self.cov['units'] = len(self._prog.mods); self.cov['functions_analysed'] = nf
            self.cov['instructions'] = sum(1 for f in self._prog.fns.values() for _ in f.insts())
        return self._prog

    @property
    def pta(self):
        if self._pta is None:
            import pta
            self._pta = pta.PTA(self.prog)
            # a library call the effect model does not know is treated as having no effect on program memory;
            # it is reported so that nothing is skipped silently
            self.cov['external_calls_without_model'] = {k: '%s:%d' % v for k, v in self._pta.unmodelled.items()}
        return self._pta

    def configure(self, *flags):
        """drop the loaded program and analyse the library compiled with these flags"""
        self.extra = flags; self._prog = None; self._pta = None

    def fn(self, name, required=True):
        f = self.prog.defs.get(name)
        if f is None:
            for k, g in self.prog.fns.items():
                if g.name == name: return g
            if required: raise AnalysisError('anchor function %s is gone' % name)
        return f

    # ---- reporting
    def violation(self, key, file, line, func, msg):
        self.viol.append((key, '%s:%s: in %s: %s' % (file, line, func, msg)))

    def ok(self, n=1): self.instances += n

    def sample(self, s):
        if len(self.samples) < 60: self.samples.append(s)

    def need(self, n, what):
        if self.instances < n and not self.viol:
            raise AnalysisError('rule matched only %d %s (at least %d expected)' % (self.instances, what, n))


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=C01 key=<key> | description
                head, _, desc = l[7:].partition(' | ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                out.append((d['property'], d['key'].strip(), desc))
    return out


def finish(ctx, meta):
    kf = {(p, k): d for p, k, d in known()}
    new = []; seen = set()
    for key, text in ctx.viol:
        if (ctx.pid, key) in kf:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (ctx.pid, kf[(ctx.pid, key)]))
                seen.add(key)
        else: new.append((key, text))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', ctx.pid + '.report.txt')
    cov = dict(ctx.cov)
    cov['rule'] = meta['rule']
    cov['instances_checked'] = ctx.instances
    cov['samples'] = ctx.samples
    cov['explanation'] = meta['explanation']
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - ctx.t0, 2), 'assumptions': meta.get('assumptions', []),
          'violations': [{'key': k, 'what': t} for k, t in new]}
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d units, %s functions analysed; %d rule instances; %d violations, %d known findings; %.1f s' % (
        ctx.pid, cov.get('units', 0), cov.get('functions_analysed', '?'), ctx.instances, len(new), len(seen), time.time() - ctx.t0))
    if new:
        with open(rep, 'w') as f:
            for k, t in new: f.write('[%s] %s\n' % (k, t))
        for k, t in new[:40]: print('  [%s] %s' % (k, t))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rep))
        return 1
    if os.path.exists(rep): os.unlink(rep)
    return 0
