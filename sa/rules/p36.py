"""Odometry and position constraints of the pose graph."""
from .. import terms as T
from .. import lib_graph as G
from ..lib_graph import (GNum, History, Solver, TF_GPS, TF_ODOM, agree,
                         st_events)
from ..num import Mat
from ..paths import THIS

SRCS = G.SRCS
EXPLAIN = '''
The same composed histories as for the graph structure are analysed for the
constraints that involve more than submap poses.  Each is evaluated at random
values of its variables and compared with the specified prediction; its
measurement is traced to the submap it was read from.  Which submaps must
contribute is computed from the options and the data the submaps carry: every
submap with odometry; for positions the ones held back until the start condition
is met and afterwards every configured number of submaps.
'''
ASSUME = ['The solver library does what its interface documents; the histories '
          'are the listed ones (up to eight submaps).']
MIN_OBLIGATIONS = 300


def pose(n, k):
    return n.leafpose(('p', k))


def odom_pred(n, ck, k):
    cal = n.leafpose(ck)
    return n.prod(n.prod(n.inverse(cal), pose(n, k)), cal)


def gps_pred(n, gk, k, err):
    m = n.prod(n.leafpose(gk), pose(n, k))
    t = n.mat(n.val(TF_GPS))
    e = n.leafpose(err, True) if err else None

    def off(i):
        return t(i, 3) + (e(i, 0) if e else 0.0)
    return Mat(3, 1, lambda i, j: sum(m(i, a) * off(a) for a in range(3)) +
               m(i, 3))


def check(ctx):
    for name, opts, steps in G.histories():
        o = dict(G.BASE, **opts)
        h = History(ctx, o, steps)
        ctx.need(h.ends, 'a complete history for ' + name)
        for st, log in h.ends:
            history(ctx, h, name, o, steps, log)
            results(ctx, h, name, o, st, log)
    ctx.analysed.add('IsamOptimizer::AddFrame')


def history(ctx, h, name, o, steps, log):
    s = Solver()
    h.read(log)
    for kind, ev in log:
        for e in ev:
            s.feed(e)
    where = h.f.where()
    live = [f for f in s.live() if f.pushed and not all(x[0] == 'p'
                                                        for x in f.keys)]
    inits = {x.key: x for x in s.live_inits() if x.pushed and x.key}
    # which submaps must contribute
    odom = {k for k, x in enumerate(steps) if x.odom} if o['use_odom'] else set()
    must, may = set(), set()
    if o['use_gps']:
        held, started = [], False
        for k, x in enumerate(steps):
            if not x.gps:
                continue
            if not started:
                if len(held) < o['gps_factor_init_num'] or not x.turned:
                    held.append(k)
                else:
                    started = True
                    must |= set(held)
                    may.add(k)
            elif o['gps_factor_sample_step'] <= 1 or \
                    k % o['gps_factor_sample_step'] == 0:
                must.add(k)
    got_o, got_g = {}, {}
    cal = set()
    for f in live:
        ps = [x for x in f.keys if x[0] == 'p']
        rest = sorted(x for x in f.keys if x[0] != 'p')
        if len(ps) == 0 and len(rest) == 1:
            # a prior of a calibration or origin variable
            x = inits.get(rest[0])
            ok = x is not None and agree_any(f.meas, x.val)
            ctx.require(ok, 'anchor', f.e.where, 'with %s: variable %s%d is held '
                        'at the value it starts from' % ((name,) + rest[0]),
                        'anchor')
            continue
        if len(ps) != 1:
            ctx.bad('sensor', f.e.where, 'with %s: a sensor constraint on %d '
                    'submaps' % (name, len(ps)), 'sensor/poses')
            continue
        k = ps[0][1]
        if len(rest) == 1 and agree(f.value, lambda n: odom_pred(n, rest[0], k)):
            ctx.require(h.is_get(f.meas, k, 'GetRelatedOdom'), 'odom-data',
                        f.e.where, 'with %s: the odometry constraint of submap '
                        '%d measures that submap\'s odometry' % (name, k),
                        'odom-data')
            got_o[k] = got_o.get(k, 0) + 1
            cal.add(rest[0])
            continue
        ok = False
        want = 2 if o['enable_extrinsic_calib'] else 1
        for gk in rest:
            err = [x for x in rest if x != gk]
            if len(err) == want - 1 and agree(
                    f.value, lambda n: gps_pred(n, gk, k, err[0] if err else
                                                None), 3, 1):
                ok = True
        if ok:
            ctx.require(h.is_get(f.meas, k, 'GetRelatedGpsInENU'), 'gps-data',
                        f.e.where, 'with %s: the position constraint of submap '
                        '%d measures that submap\'s position' % (name, k),
                        'gps-data')
            got_g[k] = got_g.get(k, 0) + 1
            continue
        ctx.bad('sensor', f.e.where, 'with %s: the constraint on submap %d and '
                '%s is neither the odometry nor the position prediction' % (
                    name, k, ', '.join('%s%d' % x for x in rest)),
                'sensor/prediction')
    for k in range(len(steps)):
        ctx.require(got_o.get(k, 0) == (1 if k in odom else 0), 'odometry',
                    where, 'with %s: submap %d has %d odometry constraints, %d '
                    'expected' % (name, k, got_o.get(k, 0), k in odom),
                    'odometry/%s' % (k in odom))
        lo, hi = (1, 1) if k in must else (0, 1) if k in may else (0, 0)
        ctx.require(lo <= got_g.get(k, 0) <= hi, 'position', where,
                    'with %s: submap %d has %d position constraints, %d expected'
                    % (name, k, got_g.get(k, 0), lo), 'position/%d%d' % (lo, hi))
    for ck in sorted(cal):
        x = inits.get(ck)
        ctx.require(x is not None and agree(
            x.val, lambda n: n.inverse(n.mat(n.val(TF_ODOM)))), 'calibration',
            x.e.where if x else where, 'with %s: the calibration starts at the '
            'inverse of the configured transform' % name, 'calibration/start')
    h.cal = sorted(cal)
    h.gps_on = bool(got_g)


def agree_any(a, b):
    for n in G.nums():
        try:
            x, y = n.mat(n.val(a)), n.mat(n.val(b))
            r = 3 if (x.r == 3 or y.r == 3) else 4
            k = 1 if r == 3 else 4
            if not G.same(x, y, r, k, 1e-7):
                return False
        except G.NoValue:
            return a == b
    return True


def results(ctx, h, name, o, st, log):
    """what is reported after the final optimisation"""
    I = h.I
    for fn, what in (('GetTransformOdomToLidar', 'odom'),
                     ('GetGpsCoordTransform', 'gps')):
        g = ctx.prog.one('IsamOptimizer::' + fn)
        I.outs = []
        outs = [x for x in I.run(g, this=THIS, state=st.copy())
                if x.kind == 'ret']
        ctx.need(outs, 'a way through ' + fn)
        for x in outs:
            if what == 'odom':
                if o['use_odom'] and h.cal:
                    ok = agree(x.val, lambda n: n.inverse(n.leafpose(h.cal[0])))
                    m = 'the inverse of the estimated calibration'
                else:
                    if o['use_odom']:
                        continue
                    ok = agree(x.val, TF_ODOM)
                    m = 'the configured transform'
            else:
                if o['use_gps'] and h.gps_on:
                    ok = any(agree(x.val, lambda n: n.leafpose(('g', i)))
                             for i in range(3))
                    m = 'the estimated map origin'
                else:
                    if o['use_gps']:
                        continue
                    ok = agree(x.val, lambda n: Mat(4, 4, lambda i, j:
                                                    1.0 if i == j else 0.0))
                    m = 'the identity'
            ctx.require(ok, 'report', g.where(), 'with %s: the %s result is %s' %
                        (name, what, m), 'report/%s' % what)
