"""Interpolated GPS and odometry."""
from .. import terms as T
from ..num import Num, NoValue, Mat, close, rigid, same, Quat
from ..paths import THIS, fld, ld
from ..scen import taken, run_sized, pos, Undecided
from ..terms import c, NULL

SRCS = ['builder/data/data_collector.cc', 'common/simple_time.cc']
EXPLAIN = '''
The interpolation functions are analysed for buffers of every length from 0 to 5
(loops over the buffer have constant length then and are followed completely, the
search included); samples, flags, times and tolerances stay symbolic.  The
resulting path conditions and returned values are compared with the
specification for every order of the requested time relative to the samples
(before, at, between, after), gaps below, at and above the limit, every
combination of one unfixed sample, with and without trimming.  Intake is
followed path by path: what is stored, in which order, relative to what.
'''
ASSUME = ['buffers longer than 5 samples behave like shorter ones (the search '
          'and the checks use only the ends and the two samples found)']
MIN_OBLIGATIONS = 300
Q = 'static_map::data::DataCollector::'
NS = 10**9
MAXN = 5


def check(ctx):
    p = ctx.prog
    interpolate(ctx, p.one(Q + 'InterpolateGps'), fld('gps_data_'), 0.2, True)
    interpolate(ctx, p.one(Q + 'InterpolateOdom'), fld('odom_data_'), 1.0, False)
    for n in ('TrimGpsData', 'TrimImuData'):
        for f in p.find(Q + n):
            trim(ctx, f, fld('gps_data_' if 'Gps' in n else 'imu_data_'))
    intake(ctx)


def tm(loc, ns):
    return {('f', loc, 'secs'): ns // NS, ('f', loc, 'nsecs'): ns % NS}


def el(buf, k):
    return ('[]', buf, c(k))


def setup(buf, times, fixed, poses, gps):
    over = {}
    for k, t in enumerate(times):
        over.update(tm(('f', el(buf, k), 'time'), t))
        if gps:
            over[('f', el(buf, k), 'status_fixed')] = fixed[k]
            over[('f', el(buf, k), 'enu_position')] = poses[k]
        else:
            over[('f', el(buf, k), 'pose')] = poses[k]
    return over


def gaps(n, lim):
    """gap patterns of n samples, in ns"""
    L = int(lim * NS)
    base = [L // 2] * max(n - 1, 0)
    yield base
    for k in range(n - 1):
        for g in (L, L + L // 2):
            yield base[:k] + [g] + base[k + 1:]


def requests(times):
    r = [times[0] - NS // 100, times[-1] + NS // 100]
    r += times
    for a, b in zip(times, times[1:]):
        r += [a + (b - a) // 4, b - (b - a) // 8]
    return r


def value(gps, poses, times, k, t):
    fr = (t - times[k]) / (times[k + 1] - times[k])
    a, b = poses[k], poses[k + 1]
    if gps:
        return [a(i, 0) + fr * (b(i, 0) - a(i, 0)) for i in range(3)]
    q = Quat.of(a).slerp(fr, Quat.of(b)).mat()
    return [q(i, j) for i in range(3) for j in range(3)] + \
        [a(i, 3) + fr * (b(i, 3) - a(i, 3)) for i in range(3)]


def flat(gps, m):
    if gps:
        return [m(i, 0) for i in range(3)]
    return [m(i, j) for i in range(3) for j in range(3)] + \
        [m(i, 3) for i in range(3)]


def interpolate(ctx, f, buf, lim, gps):
    A = {p['n']: ('arg', p['n'], k) for k, p in enumerate(f.params)}
    names = [p['n'] for p in f.params]
    ctx.need(len(names) == 3, 'time, tolerance and trimming of ' + f.q)
    at, ath, atr = (A[n] for n in names)
    bad = {}

    def report(rule, msg, key, ok=False):
        ctx.require(ok, rule, f.where(), '%s: %s' % (f.q, msg), f.n + '/' + key)

    for n in range(MAXN + 1):
        I = ctx.interp(unroll=12)
        outs = run_sized(I, f, {buf: n})
        if gps:
            poses = [Mat(3, 1, lambda i, j, k=k: 10 * k * k + i * (k + 1) + 0.5)
                     for k in range(n)]
        else:
            poses = [rigid((7, k)) for k in range(n)]
        scen = []
        if n < 2:
            t0 = 10 * NS
            for d in (0, NS // 2, NS // 2 + 1000, -NS // 2, -NS // 2 - 1000):
                for fx in ((True, False) if gps and n else (True,)):
                    scen.append(([t0] * n, [fx], t0 + d, 0.5, False))
        else:
            for g in gaps(n, lim):
                times = [10 * NS]
                for x in g:
                    times.append(times[-1] + x)
                fxs = [[True] * n]
                if gps:
                    fxs += [[k != j for k in range(n)] for j in range(n)]
                for fx in fxs:
                    for t in requests(times):
                        for tr in (False, True):
                            scen.append((times, fx, t, 0.001, tr))
        for times, fx, t, th, tr in scen:
            over = setup(buf, times, fx, poses, gps)
            over.update(tm(at, t))
            for a, v in ((ath, th), (atr, tr)):
                over[a] = over[ld(a)] = v
            num = Num(over=over, seed=3)
            # what may happen
            may = []
            if n == 1:
                ok = abs(t - times[0]) <= th * NS and fx[0]
                may = [flat(gps, poses[0])] if ok else [None]
                br = [0]
            elif n >= 2 and times[0] <= t <= times[-1]:
                br = [k for k in range(n - 1) if times[k] <= t <= times[k + 1]]
                for k in br:
                    ok = times[k + 1] - times[k] <= lim * NS and (
                        not gps or fx[k] and fx[k + 1])
                    may.append(value(gps, poses, times, k, t) if ok else None)
            else:
                may, br = [None], []
            desc = '%d samples, request at %.3f s%s%s' % (
                n, (t - 10 * NS) / NS, ', one not fixed' if not all(fx) else '',
                ', trimming' if tr else '')
            try:
                got = taken(outs, num)
            except Undecided as e:
                report('defined', '%s: condition without a value (%s)' % (
                    desc, e), 'defined')
                return
            report('total', 'with %s there is %d outcome' % (desc, len(got)),
                   'total', len(got) >= 1)
            for o in got:
                if o.kind != 'ret':
                    report('defined', 'with %s it stops the program' % desc,
                           'aborts')
                    continue
                v = result(I, num, o, gps)
                ok = any(w is None and v is None or w is not None and
                         v is not None and not isinstance(v, str) and
                         all(close(x, y, 1e-6) for x, y in zip(v, w))
                         for w in may)
                report('value', 'with %s it returns %s' % (
                    desc, 'nothing' if v is None else v if isinstance(v, str)
                    else 'a wrong value' if None not in may else 'a value'),
                    'value', ok)
                removed = dropped(o, buf, num)
                lim_k = max(br) if br else 0
                report('trim', 'with %s it discards %s samples' % (
                    desc, removed), 'trim', removed is not None and (
                        removed == 0 or tr and removed <= lim_k))
    ctx.count('buffer lengths analysed', MAXN + 1)


def result(I, num, o, gps):
    v = o.val
    if v == NULL:
        return None
    if not v or v[0] != '&':
        return 'something unknown'
    try:
        return flat(gps, num.mat(num.val(I.full(o.st, v[1]))))
    except NoValue as e:
        return str(e)


def dropped(o, buf, num):
    """samples removed from the front; None if others are touched"""
    n = 0
    for e in o.events():
        if e.k == 'call' and e.obj == buf and e.n in (
                'push_back', 'emplace_back', 'clear', 'resize', 'insert',
                'pop_back', 'assign', 'swap'):
            return None
        if e.k == 'write' and isinstance(e.loc, tuple) and \
                T.is_prefix(buf, e.loc) and e.loc != buf and \
                '#size' not in repr(e.loc):
            return None
        if e.k == 'call' and e.n == 'pop_front' and e.obj == buf:
            n += 1
        if e.k == 'call' and e.n == 'erase' and e.obj == buf:
            b, i = pos(e.args[0])
            if b != buf:
                return None
            try:
                i = num.num(i)
                j = i + 1
                if len(e.args) > 1:
                    b2, j = pos(e.args[1])
                    if b2 != buf:
                        return None
                    j = num.num(j)
            except NoValue:
                return None
            if j <= i:
                continue
            if i != 0:
                return None
            n += j - i
    return n


def trim(ctx, f, buf):
    at = ('arg', f.params[0]['n'], 0)
    for n in range(MAXN + 1):
        I = ctx.interp(unroll=12)
        outs = run_sized(I, f, {buf: n})
        times = [10 * NS + k * NS // 10 for k in range(n)]
        over0 = {}
        for k, t in enumerate(times):
            over0.update(tm(('f', el(buf, k), 'time'), t))
        for t in requests(times) if n else [10 * NS]:
            num = Num(over=dict(over0, **{}) | tm(at, t), seed=3)
            try:
                got = taken(outs, num)
            except Undecided as e:
                ctx.bad('trim', f.where(), '%s: condition without a value (%s)'
                        % (f.q, e), f.n + '/defined')
                return
            for o in got:
                k = dropped(o, buf, num)
                ctx.require(o.kind == 'ret' and k is not None and k <= sum(
                    x < t for x in times), 'trim', f.where(),
                    '%s: with %d samples, of which %d are older, it discards %s'
                    % (f.q, n, sum(x < t for x in times), k), f.n + '/trim')


def intake(ctx):
    """what is stored for a GPS or odometry message"""
    p = ctx.prog
    for f in p.find(Q + 'AddSensorData'):
        t = f.ty(f.params[0]['t'])
        if 'NavSat' in t:
            gps_in(ctx, f)
        elif 'Odom' in t:
            odom_in(ctx, f)


def pushes(o, buf):
    return [e for e in o.events() if e.k == 'call' and e.obj == buf and
            e.n in ('push_back', 'emplace_back')]


def stamp_ok(I, num, v, want):
    try:
        x = num.field(num.val(v), 'time')
        return num.scal(num.field(x, 'secs')) == want // NS and \
            num.scal(num.field(x, 'nsecs')) == want % NS
    except NoValue:
        return False


def gps_in(ctx, f):
    I = ctx.interp()
    buf, ref = fld('gps_data_'), fld('reference_gps_point_')
    m = ('arg', f.params[0]['n'], 0)
    outs = I.run(f)
    n = 0
    st = ('f', ('f', m, 'status'), 'status')
    for o in outs:
        if o.kind != 'ret':
            continue
        pu = pushes(o, buf)
        have = o.st.pc.get(T.cmp('==', NULL, ld(ref)))
        fixed = None
        for a, pol in o.st.pc.items():
            if T.has(a, ld(st)):
                try:
                    tv = {bool(Num(over={ld(st): v, st: v}).num(a)) == pol: v
                          for v in (-1, 0, 1, 2)}
                    vals = [v for v in (-1, 0, 1, 2) if bool(Num(
                        over={ld(st): v, st: v}).num(a)) == pol]
                    fixed = vals
                except NoValue:
                    pass
        if not pu:
            ctx.require(have is True and fixed is not None and 0 not in fixed,
                        'gps', f.where(), '%s: a sample is dropped although '
                        'there is a reference or it is fixed' % f.q, 'gps/drop')
            continue
        n += 1
        ctx.require(len(pu) == 1, 'gps', f.where(), '%s: a sample is stored %d '
                    'times' % (f.q, len(pu)), 'gps/once')
        v = pu[0].args[0]
        T0 = 1234 * NS + 567
        num = Num(over=tm(('f', ('f', m, 'header'), 'stamp'), T0), seed=2)
        ctx.require(stamp_ok(I, num, v, T0), 'gps', pu[0].where, '%s: the '
                    'stored sample does not have the time of the message' % f.q,
                    'gps/time')
        # fixed flag
        for s in (-1, 0, 1, 2):
            q = Num(over={st: s, ld(st): s}, seed=2)
            try:
                ok = all(bool(q.num(a)) == pol for a, pol in o.st.pc.items()
                         if T.has(a, ld(st)))
                if not ok:
                    continue
                fx = bool(q.scal(q.field(q.val(v), 'status_fixed')))
            except NoValue:
                fx = None
            ctx.require(fx == (s == 0), 'gps', pu[0].where, '%s: status %d is '
                        'stored as %sfixed' % (f.q, s, '' if fx else 'not '),
                        'gps/fixed')
        # relative to the first fixed sample
        fw = [e for e in o.events() if e.k == 'call' and e.n == 'Forward']
        geo = [('f', m, x) for x in ('latitude', 'longtitude', 'altitude')]
        ok = len(fw) >= 1 and list(fw[-1].args[:3]) == [ld(g) for g in geo]
        ctx.require(ok, 'gps', pu[0].where, '%s: the position stored is not '
                    'the one of the message' % f.q, 'gps/position')
        if fw:
            outv = [a for a in range(3)]
            try:
                e = num.mat(num.field(num.val(v), 'enu_position'))
                names = [repr(x) for x in T.walk(v)]
            except NoValue:
                pass
            src = enu_of(I, v)
            ctx.require(src is not None and len(set(src)) == 3 and all(
                'out:Forward' in x for x in src), 'gps', pu[0].where, '%s: the '
                'three coordinates stored are not the converted ones' % f.q,
                'gps/enu')
        lc = [e for e in o.events() if e.k == 'call' and
              e.n == 'LocalCartesian']
        if have is True:
            ctx.require(fixed is not None and fixed == [0], 'gps', f.where(),
                        '%s: a sample that is not fixed becomes the reference'
                        % f.q, 'gps/reference')
            ctx.require(bool(lc) and list(lc[-1].args[:3]) ==
                        [ld(g) for g in geo], 'gps', f.where(), '%s: the '
                        'reference is not the position of the first fixed '
                        'sample' % f.q, 'gps/reference-pos')
        else:
            ctx.require(not lc and not any(
                e.k == 'write' and e.loc == ref for e in o.events()), 'gps',
                f.where(), '%s: the reference changes later' % f.q,
                'gps/reference-once')
        # order
        sz = ('ld', ('f', buf, '#size'))
        empty = o.st.pc.get(T.cmp('==', T.c(0), sz))
        if empty is None:
            empty = not o.st.pc.get(T.cmp('<', T.c(0), sz), True) or None
        if not empty:
            newer = False
            last = None
            for a, pol in o.st.pc.items():
                if a[0] == '<' and T.has(a, ('f', ('f', ('f', m, 'header'),
                                                   'stamp'), 'secs')):
                    newer = ordered(a, pol, buf, m) or newer
            ctx.require(newer, 'gps', pu[0].where, '%s: a sample that is not '
                        'newer than the last is stored' % f.q, 'gps/order')
    ctx.need(n, 'paths that store a GPS sample')


def ordered(a, pol, buf, m):
    """does the condition say that the message is newer than the last sample"""
    ms = ('f', ('f', m, 'header'), 'stamp')
    others = {x[:-1] for x in T.walk(a) if x[0] == 'f' and x[-1] == 'secs' and
              T.is_prefix(buf, x)}
    if len(others) != 1:
        return False
    l = next(iter(others))
    r = []
    for d in (-5, 0, 5):
        try:
            n = Num(over=tm(ms, 10 * NS + d) | tm(l[1], 10 * NS))
            r.append(bool(n.num(a)) == pol)
        except NoValue:
            return False
    size = ('ld', ('f', buf, '#size'))
    last = T.has(l, size)
    return r == [False, False, True] and last


def enu_of(I, v):
    try:
        if v[0] == 'rec':
            r = {}
            for sel, x in v[2]:
                if sel[0] == 'f' and sel[1] == 'enu_position':
                    if x[0] == 'rec':
                        for s2, y in x[2]:
                            r[repr(s2)] = T.show(y) + repr(y)
                    else:
                        r['all'] = T.show(x)
            return [r[k] for k in sorted(r)] or None
    except Exception:
        pass
    return None


def odom_in(ctx, f):
    I = ctx.interp(opaque=('PoseInMatrix',))
    buf = fld('odom_data_')
    m = ('arg', f.params[0]['n'], 0)
    off = fld('odom_init_offset_')
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        pu = pushes(o, buf)
        n += 1
        ctx.require(len(pu) == 1, 'odom', f.where(), '%s: a sample is stored %d '
                    'times' % (f.q, len(pu)), 'odom/once')
        if not pu:
            continue
        v = pu[0].args[0]
        T0 = 1234 * NS + 567
        num = Num(over=tm(('f', ('f', m, 'header'), 'stamp'), T0), seed=2,
                  rigid=True)
        ctx.require(stamp_ok(I, num, v, T0), 'odom', pu[0].where, '%s: the '
                    'stored sample does not have the time of the message' % f.q,
                    'odom/time')
        raw = [e.res for e in o.events() if e.k == 'call' and
               e.n == 'PoseInMatrix']
        first = o.st.pc.get(T.cmp('==', NULL, ld(off)))
        try:
            got = num.mat(num.field(num.val(v), 'pose'))
            R = num.mat(num.val(raw[-1]))
            base = R if first else num.mat(num.val(('ld', ('*', ld(off)))))
            ok = same(got, num.prod(num.inverse(base), R), 4, 4, 1e-6)
        except (NoValue, IndexError) as e:
            ok = False
        ctx.require(ok, 'odom', pu[0].where, '%s: the stored pose is not the '
                    'pose relative to the first sample' % f.q, 'odom/pose')
    ctx.need(n, 'paths that store an odometry sample')
