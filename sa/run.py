"""python3 -m sa.run <property id>: decides one property on the current tree."""
import gc, importlib, json, os, sys, time, traceback
from . import extract
from .extract import ROOT, REPO
from .interp import Interp, Budget
from .ir import Program


class Broken(Exception):
    """the analysis cannot give an answer (vanished anchor, empty rule)"""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []
        self.obl = []
        self.counts = {}
        self.analysed = set()
        self.notes = []
        self.assumptions = []

    def load(self, srcs):
        self.prog = Program(srcs)
        return self.prog

    def interp(self, **kw):
        I = Interp(self.prog, **kw)
        self._I = getattr(self, '_I', [])
        self._I.append(I)
        return I

    def ok(self, rule, where, what=''):
        self.obl.append((rule, where, what, True))

    def bad(self, rule, where, msg, key=None):
        self.obl.append((rule, where, msg, False))
        v = {'rule': rule, 'where': where, 'message': msg,
             'key': key or '%s' % rule}
        if v not in self.viol:
            self.viol.append(v)

    def require(self, cond, rule, where, msg, key=None):
        if cond:
            self.ok(rule, where, key or msg)
        else:
            self.bad(rule, where, msg, key)
        return cond

    def need(self, cond, what):
        """an anchor of the rule must exist"""
        if not cond:
            raise Broken(what)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('open: '):
                f = dict(x.split('=', 1) for x in l[6:].split(' ')[:2])
                text = ' '.join(l[6:].split(' ')[2:])
                out[(f['property'], f['key'])] = text
    return out


def main(pid):
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + pid.lower())
    ctx = Ctx(pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    err = None
    try:
        ctx.load(mod.SRCS)
        mod.check(ctx)
        if not ctx.obl:
            raise Broken('no rule instance found')
        low = getattr(mod, 'MIN_OBLIGATIONS', 1)
        if len(ctx.obl) < low and not ctx.viol:
            raise Broken('only %d rule instances, expected at least %d' %
                         (len(ctx.obl), low))
    except Exception as e:
        err = e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    known_f = known()
    new, old = [], []
    for v in ctx.viol:
        (old if (pid, v['key']) in known_f else new).append(v)
    if err is not None and not new:
        print('ERROR property=%s analysis gives no answer: %s: %s' %
              (pid, type(err).__name__, err))
        return 2
    fns = set()
    steps = sites = 0
    for I in getattr(ctx, '_I', []):
        fns |= {ctx.prog.fns[f].q for f in I.visited_fns if f in ctx.prog.fns}
        steps += I.steps
        sites += I.callsites
    fns |= ctx.analysed
    rules = {}
    for r, w, m, k in ctx.obl:
        rules.setdefault(r, [0, 0])
        rules[r][0] += 1
        rules[r][1] += k
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN.strip(),
            'translation_units': ctx.prog.srcs,
            'repo_files_read': len(ctx.prog.deps),
            'functions_analysed': sorted(fns),
            'obligations': len(ctx.obl),
            'discharged': sum(1 for o in ctx.obl if o[3]),
            'rules': {r: {'instances': a, 'held': b}
                      for r, (a, b) in sorted(rules.items())},
            'instances': [{'rule': r, 'where': w, 'what': m, 'held': bool(k)}
                          for r, w, m, k in ctx.obl][:400],
            'expression_steps': steps,
            'call_sites_followed': sites,
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + ctx.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    ev['coverage'].update({k: v for k, v in ctx.counts.items()
                           if k not in ev['coverage']})
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known_f[(pid, v['key'])]))
    print('property=%s functions=%d obligations=%d held=%d wall=%.1fs' % (
        pid, len(fns), len(ctx.obl), ev['coverage']['discharged'],
        time.time() - t0))
    if new:
        seen = {}
        rp = os.path.join(ROOT, 'evidence', pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'violations': new,
                       'command': 'cd /verif && python3 -m sa.run ' + pid}, f,
                      indent=1)
            f.write('\n')
        for v in new:
            seen[v['key']] = seen.get(v['key'], 0) + 1
            if seen[v['key']] > 3:
                continue
            print('  %s: [%s] %s  (key %s)' % (v['where'], v['rule'],
                                               v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    gc.disable()
    sys.exit(main(sys.argv[1]))
