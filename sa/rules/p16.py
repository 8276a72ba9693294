"""Vertices, links and loop edges of the pose graph."""
from .. import terms as T
from .. import lib_graph as G
from ..lib_graph import History, Solver, agree, frame, frame_of, loop_t

SRCS = G.SRCS
EXPLAIN = '''
The transfer of one submap insertion is extracted and composed over given
histories: which loop edges the detector reports and accepts, which sensor data
the submaps carry and the back end's options.  The factors and initial values
placed in any graph are followed to the solver update that takes them and to the
statement that clears them.  Every solver expression is evaluated at random poses
of its variables, so a constraint is recognised by what it predicts, not by how
it is written.  The constraints that reached the solver must be exactly the prior
of the first submap, one link per later submap and one constraint per accepted
loop edge (plus those of sensors), each taken exactly once.
'''
ASSUME = ['The solver library does what its interface documents; the histories '
          'are the listed ones (up to eight submaps).']
MIN_OBLIGATIONS = 1500


def between(n, a, b):
    return n.prod(n.inverse(n.leafpose(('p', a))), n.leafpose(('p', b)))


def relates(f, a, b, meas):
    """does factor f say that b seen from a is meas"""
    if agree(f.value, lambda n: between(n, a, b)) and agree(f.meas, meas):
        return True
    return agree(f.value, lambda n: between(n, b, a)) and \
        agree(f.meas, lambda n: n.inverse(n.val(meas)))


def check(ctx):
    n_hist = 0
    for name, opts, steps in G.histories():
        h = History(ctx, dict(G.BASE, **opts), steps)
        for st, log, kind in h.bad_ends:
            e = log[-1][1][-1] if log[-1][1] else None
            ctx.bad('completes', e.where if e else h.f.where(),
                    'with %s: inserting submap %d ends in %s' % (
                        name, len(log) - 1, kind), 'completes/%s' % kind)
        ctx.need(h.ends or h.bad_ends, 'a way through the history')
        n_hist += 1
        for st, log in h.ends:
            history(ctx, h, name, steps, log)
    ctx.count('histories', n_hist)
    ctx.analysed.add('IsamOptimizer::AddFrame')


def history(ctx, h, name, steps, log):
    s = Solver()
    h.read(log)
    pos = 0
    last_push = -1
    est = {}
    expected = {}           # (kind, a, b) -> transform term
    edges, conns, verts = [], [], []
    for k, (kind, ev) in enumerate(log):
        final = k >= len(steps)
        dets = []
        sets = {}
        vset = {}
        for e in ev:
            pos += 1
            n0 = s.pushes
            s.feed(e)
            if s.pushes != n0:
                last_push = pos
            if e.k != 'call':
                continue
            if e.n in ('calculateBestEstimate', 'calculateEstimate') and e.res:
                est[e.res] = pos
            elif e.n == 'AddFrame' and 'LoopDetector' in str(e.q):
                dets.append(e)
            elif e.n == 'SetGlobalPose':
                sets[frame_of(e.obj)] = (pos, e)
            elif e.n == 'AddVertex' and 'ViewGraph' in str(e.q):
                verts.append(e)
                if e.args[0][0] == 'c':
                    vset[e.args[0][1]] = (pos, e)
            elif e.n == 'AddEdge' and 'ViewGraph' in str(e.q):
                edges.append((k, e))
            elif e.n == 'AddConnectedSubmap':
                conns.append((k, e))
        where = h.f.where()
        if not final:
            ctx.require(len(dets) == 1 and dets[0].args[0] == frame(k) and
                        (len(dets[0].args) < 2 or dets[0].args[1] == T.c(True)),
                        'detected', where, 'submap %d is given to the loop '
                        'detector once, with detection on' % k, 'detected')
            if k == 0:
                expected[('prior', 0, 0)] = None
            else:
                expected[('link', k - 1, k)] = None
            if steps[k].ok:
                for j, (a, b) in enumerate(steps[k].edges):
                    expected[('loop', a, b)] = loop_t(k, j)
        top = k if not final else len(steps) - 1
        compare(ctx, h, s, expected, top, name, where)
        # poses written back
        for j in range(top + 1):
            ok = j in sets
            if ok:
                p, e = sets[j]
                v = e.args[0]
                ok = agree(v, lambda n: n.leafpose(('p', j))) and any(
                    at > last_push for r, at in est.items() if T.occurs(r, v))
            ctx.require(ok, 'write-back', sets[j][1].where if j in sets else
                        where, 'after %s submap %d gets its own optimised pose, '
                        'computed after the last update' % (
                            'the final optimisation' if final else
                            'inserting submap %d' % k, j), 'write-back')
            ok = j in vset and j in sets and agree(vset[j][1].args[1],
                                                   sets[j][1].args[0])
            ctx.require(ok, 'graph-pose', vset[j][1].where if j in vset else
                        where, 'the view graph vertex of submap %d has its '
                        'optimised pose' % j, 'graph-pose')
    for e, m in s.problems:
        ctx.bad('consistent', e.where, 'with %s: %s' % (name, m),
                'consistent/%s' % m[:20])
    ctx.ok('consistent', h.f.where(), name)
    # view graph edges and connection lists
    want = [(a, b, t) for (kd, a, b), t in sorted(expected.items(),
                                                  key=lambda x: x[0][1:])
            if kd != 'prior']
    for a, b, t in want:
        hit = [e for k, e in edges if len(e.args) == 3 and
               e.args[0] == T.c(a) and e.args[1] == T.c(b) and
               (agree(e.args[2], t) if t else trans(h, e.args[2], b))]
        ctx.require(len(hit) == 1, 'graph-edge', hit[0].where if hit else
                    h.f.where(), 'with %s: the edge %d -> %d is recorded %d '
                    'times in the view graph' % (name, a, b, len(hit)),
                    'graph-edge/%s' % ('many' if hit else 'none'))
        hit = [e for k, e in conns if frame_of(e.obj) == a and
               id_of(e.args[0]) == b]
        ctx.require(len(hit) == 1, 'connection', hit[0].where if hit else
                    h.f.where(), 'with %s: submap %d lists submap %d %d times '
                    'as connected' % (name, a, b, len(hit)),
                    'connection/%s' % ('many' if hit else 'none'))
    ctx.require(len(edges) == len(want), 'graph-edges',
                edges[-1][1].where if edges else h.f.where(),
                'with %s: %d edges in the view graph for %d links and loops' % (
                    name, len(edges), len(want)), 'graph-edges')
    ctx.require(len(conns) == len(want), 'connections',
                conns[-1][1].where if conns else h.f.where(),
                'with %s: %d connections for %d links and loops' % (
                    name, len(conns), len(want)), 'connections')


def trans(h, t, k):
    return h.is_get(t, k, 'TransformFromLast')


def id_of(t):
    for k in range(32):
        s = T.show(('*', frame(k)))
        if T.show(t) in (T.show(('ld', ('f', ('*', frame(k)), 'id_'))),
                         'GetId(%s)' % s):
            return k
    return None


def compare(ctx, h, s, expected, top, name, where):
    live = s.live()
    todo = dict(expected)
    for f in live:
        if f.pushed != 1:
            ctx.bad('once', f.e.where, 'with %s: this constraint %s' % (
                name, 'is lost before it reaches the solver' if f.cleared else
                'is not in the solver after submap %d' % top)
                if not f.pushed else 'with %s: this constraint is given to the '
                'solver %d times' % (name, f.pushed), 'once/%d' % min(f.pushed,
                                                                      2))
    ctx.ok('once', where, '%d constraints' % len(live))
    for x in s.live_inits():
        if x.pushed != 1:
            ctx.bad('value-once', x.e.where, 'with %s: this initial value '
                    'reaches the solver %d times' % (name, x.pushed),
                    'value-once')
    for k in range(top + 1):
        vs = [x for x in s.live_inits() if x.key == ('p', k)]
        ctx.require(len(vs) == 1 and h.is_get(vs[0].val, k, 'GlobalPose'),
                    'vertex', vs[0].e.where if vs else where,
                    'with %s: submap %d has one vertex that starts at its pose' %
                    (name, k), 'vertex')
    seen = {}
    for f in live:
        if not f.keys or any(x[0] != 'p' for x in f.keys):
            continue
        hit = None
        ks = sorted(x[1] for x in f.keys)
        if len(ks) == 1:
            if ks[0] == 0 and h.is_get(f.meas, 0, 'GlobalPose') and agree(
                    f.value, lambda n: n.leafpose(('p', 0))):
                hit = ('prior', 0, 0)
        elif len(ks) == 2:
            for (kd, a, b), t in expected.items():
                if sorted((a, b)) != ks:
                    continue
                if kd == 'link' and rel_get(h, f, a, b, b):
                    hit = (kd, a, b)
                if kd == 'loop' and relates(f, a, b, t):
                    hit = (kd, a, b)
        if hit is None:
            ctx.bad('constraint', f.e.where, 'with %s: the constraint on %s is '
                    'not one the submaps and accepted loops call for' % (
                        name, ', '.join('submap %d' % k for k in ks)),
                    'constraint/extra')
            continue
        seen.setdefault(hit, []).append(f)
    for key in expected:
        fs = seen.get(key, [])
        ctx.require(len(fs) == 1, 'constraint', fs[0].e.where if fs else where,
                    'with %s: %s present %d times' % (name, {
                        'prior': 'the prior of the first submap',
                        'link': 'the link %d -> %d' % key[1:],
                        'loop': 'the loop %d -> %d' % key[1:]}[key[0]] + ' is',
                        len(fs)), 'constraint/%s/%s' % (
                            key[0], 'many' if fs else 'none'))


def rel_get(h, f, a, b, k):
    if agree(f.value, lambda n: between(n, a, b)):
        return h.is_get(f.meas, k, 'TransformFromLast')
    if agree(f.value, lambda n: between(n, b, a)):
        return any(agree(f.meas, lambda n: n.inverse(n.val(r)))
                   for r, x in h.gets.items() if x == ('TransformFromLast', k))
    return False
