#!/usr/bin/env python3
"""Driver:  run.py PROPERTY [--tier quick|thorough]

exit 0  property holds on everything analysed (known findings are printed)
exit 1  VIOLATION line(s) printed
exit 2  the analysis could not answer (anchors vanished, sources do not build ...)
"""
import importlib, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import src
from src import Broken

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.viols = []; self.cov = {}; self.samples = []
        self.und = []; self.assumptions = []
        self._prog = {}
    def prog(self, units=None, ndebug=True):
        """whole program by default"""
        from prog import Program
        key = (tuple(units) if units else None, ndebug)
        if key not in self._prog:
            s = src.copy_sources()
            us = src.load(list(units) if units else src.all_units(s), ndebug)
            self.cov['translation_units'] = len(us)
            self._prog[key] = Program(us)
            self.cov['functions_loaded'] = len(self._prog[key].fns)
        return self._prog[key]
    def violation(self, key, loc, msg):
        """key: stable identity (no line numbers)"""
        if any(v[0] == key for v in self.viols): return
        self.viols.append((key, loc, msg))
    def count(self, name, n=1): self.cov[name] = self.cov.get(name, 0) + n
    def floor(self, name, minimum):
        if self.cov.get(name, 0) < minimum:
            raise Broken('only %d %s found, at least %d expected: analysis anchors have vanished' % (self.cov.get(name, 0), name, minimum))
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)
    def undecided(self, what): self.und.append(what)

def known(prop):
    out = {}
    p = os.path.join(src.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).lstrip('# ')
    return out

def main():
    prop = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    ctx = Ctx(prop, tier)
    evd = os.path.join(src.VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    try:
        mod = importlib.import_module('c_' + prop.lower())
        mod.check(ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % prop); sys.exit(2)
    kn = known(prop)
    new = [v for v in ctx.viols if v[0] not in kn]
    old = [v for v in ctx.viols if v[0] in kn]
    cov = dict(ctx.cov)
    cov['explanation'] = mod.EXPLANATION
    cov['rule'] = mod.RULE
    if ctx.samples: cov['samples'] = ctx.samples
    cov['undecided'] = len(ctx.und)
    if ctx.und: cov['undecided_items'] = ctx.und[:40]
    cov['known_findings_seen'] = [v[0] for v in old]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    for v in old:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (prop, v[0], v[1], kn[v[0]]))
    if new:
        rp = os.path.join(evd, prop + '.violations.txt')
        with open(rp, 'w') as fh:
            for k, loc, msg in new: fh.write('%s: [%s] %s\n' % (loc, k, msg))
        for k, loc, msg in new[:20]: print('%s: [%s] %s' % (loc, k, msg))
        for k, loc, msg in new[:5]: print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('OK property=%s %s' % (prop, {k: v for k, v in cov.items() if isinstance(v, int)}))

main()
