"""P35: numbers have a value before they are read."""
import glob
import os
import re
from .. import extract
from ..defin import Atoms

DIRS = ('builder', 'builder/data', 'back_end', 'common', 'common/performance',
        'pre_processors', 'registrators', 'descriptor')


def sources():
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(extract.REPO, d, '*.cc'))):
            out.append(os.path.relpath(f, extract.REPO))
    return [s for s in out if not s.endswith('_test.cc')]


SRCS = sources()
MIN_OBLIGATIONS = 700
TECH = ('definite-assignment dataflow over the control-flow graph of every '
        'constructor, member function and free function')
EXPLAIN = (
    'For every class the analysis lists the numbers it holds (arithmetic and '
    'enumeration members, fixed-size matrices and quaternions, also inside '
    'nested structures and bases) and computes, by a forward must-assign '
    'analysis over each constructor including member initialisers, which of '
    'them some construction leaves without a value. Sets of options must '
    'leave none. For the others, every public member function is analysed '
    'with the summaries of the members it calls: a member left unset by '
    'construction whose value is used on some path before that path assigns '
    'it is reported with the place of the use. The same analysis runs for '
    'the local variables of every function.')
ASSUME = [
    'structures of public data filled in by their user (sensor messages) '
    'have no construction rule of their own; their local instances are '
    'tracked in the function that declares them',
    'a number whose address or mutable reference is handed to a call counts '
    'as assigned by it; cells of matrices are not tracked one by one',
    'numbers held through pointers and inside library containers are out of '
    'scope, as are the deprecated and CUDA directories',
]
OPTS = re.compile(r'(Options|Settings|Config)$')
NOT_OURS = ('pclomp::', 'nanoflann')


def check(ctx):
    p = ctx.prog
    A = Atoms(p)
    recs = {q: r for q, r in A.recs.items()
            if r['file'].split('/')[0] in {d.split('/')[0] for d in DIRS}
            and not q.startswith(NOT_OURS)}
    nopt = nmem = nfun = nloc = 0
    named = set()
    for q, r in sorted(recs.items()):
        if not OPTS.search(q) and not any(q.startswith(n + '::')
                                          for n in named):
            continue
        named.add(q)
        left = A.left(r)
        for a, (x, own) in sorted(A.of(r).items()):
            nopt += 1
            what = '%s.%s' % (q.replace('static_map::', ''), '.'.join(a))
            ctx.require(a not in left, 'options.default',
                        '%s:%d' % (own['file'], x['line']),
                        '%s has no default value' % what, 'default:' + what)
    ctx.need(nopt >= 60, 'sets of options')
    # members of components
    by_cls = {}
    for f in p.fns.values():
        if f.cls in recs and not f.nocfg:
            by_cls.setdefault(f.cls, []).append(f)
    for q, r in sorted(recs.items()):
        if q in named:
            continue
        at = A.of(r)
        hidden = {a for a in at if any(
            x['n'] == a[0] and x['access'] != 'public' for x in r['fields'])}
        for b in p.bases(r) if at else ():
            br = b if isinstance(b, dict) else A.recs.get(b)
            if br is not None:
                hidden |= {a for a in A.of(br) if any(
                    x['n'] == a[0] and x['access'] != 'public'
                    for x in br['fields'])}
        if not hidden:
            continue
        left = A.left(r) & hidden
        early = {}
        fs = list(by_cls.get(q, []))
        for b in p.bases(r):
            bq = b['q'] if isinstance(b, dict) else b
            fs += [f for f in by_cls.get(bq, []) if f.kind != 'ctor']
        for f in fs:
            ctx.analysed.add(f.q)
            nfun += 1
            reads = A.summary(f)[0]
            if f.kind == 'ctor':
                for a, w in reads.items():
                    if a[1] in hidden:
                        early.setdefault(a[1], (f, w))
                continue
            if f.d.get('access') != 'public':
                continue
            for a, w in reads.items():
                if a[1] in left:
                    early.setdefault(a[1], (f, w))
        for a in sorted(hidden):
            nmem += 1
            x, own = at[a]
            what = '%s.%s' % (q.replace('static_map::', ''), '.'.join(a))
            if a not in early:
                ctx.ok('member.assigned', '%s:%d' % (own['file'], x['line']),
                       what)
                continue
            f, (g, i) = early[a]
            ctx.bad('member.assigned', g.where(i),
                    '%s has no value after construction and %s uses it '
                    'before any assignment' % (what, f.q), 'member:' + what)
    ctx.need(nmem >= 150, 'members of components')
    # locals
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.nocfg or f.file.split('/')[0] not in {
                d.split('/')[0] for d in DIRS} or f.q.startswith(NOT_OURS):
            continue
        from ..defin import Flow
        fl = Flow(A, f)
        lr = fl.run()[2]
        ctx.analysed.add(f.q)
        bad = {}
        for (d, a), (g, i) in lr.items():
            bad.setdefault(d, (a, g, i))
        for d in sorted(fl.local):
            nloc += 1
            what = '%s of %s' % (fl.names.get(d), f.q)
            if d not in bad:
                ctx.ok('local.assigned', f.where(), what)
                continue
            a, g, i = bad[d]
            ctx.bad('local.assigned', g.where(i),
                    'local %s%s is used before it has a value on some path' % (
                        what, ' (' + '.'.join(a) + ')' if a else ''),
                    'local:' + what)
    ctx.count('option_entries', nopt)
    ctx.count('component_members', nmem)
    ctx.count('member_functions', nfun)
    ctx.count('local_variables', nloc)
