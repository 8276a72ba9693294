"""Intake of sensor messages by the map builder."""
import itertools
from .. import terms as T
from ..interp import Ev
from ..num import Num, NoValue, Closed
from ..paths import THIS, fld
from ..terms import c, NULL, TRUE, FALSE

SRCS = ['builder/map_builder.cc', 'common/simple_time.cc']
EXPLAIN = '''
Each message handler is followed on every path for every combination of: finish
requested or not, sensor enabled or not, pose source already there or not, and
the order of the cloud's time and the newest known pose.  On a path that must
ignore the message neither the sensor store, the pose source nor a field of the
builder may be touched; on every other path the message must reach the sensor
store exactly once.  What the store and the pose source are given is extracted
as a term and compared, at sample values, with the message moved by the lidar
calibration (clouds) or rotated by the IMU calibration (IMU readings).  The
constructor is followed to see every switch off, the setters to see them set the
switch given, and every function of the builder is searched for a way to withdraw
the finish request.
'''
ASSUME = ['the library function moving a cloud applies the given transform to '
          'every point of the source cloud',
          'calibration transforms and switches are not changed while a message '
          'is handled']
MIN_OBLIGATIONS = 60
B = 'static_map::MapBuilder::'
PE = 'PoseExtrapolator::'
EX = ('pose source',)
SECS, NS = 1600000000, 500000000


def check(ctx):
    p = ctx.prog
    flags = finish_flags(ctx)
    sw = {'imu': None, 'odom': None, 'gps': None}
    for k, name in (('odom', 'EnableUsingOdom'), ('gps', 'EnableUsingGps')):
        sw[k] = setter(ctx, p.one(B + name))
    calib = {k: stored(ctx, p.one(B + n)) for k, n in
             (('lidar', 'SetTrackingToLidar'), ('imu', 'SetTrackingToImu'))}
    rec = p.record('static_map::MapBuilder')
    ex = [x['n'] for x in rec['fields']
          if 'PoseExtrapolator' in rec['tu'].types[x['t']]]
    ctx.need(len(ex) == 1, 'the pose source of the builder')
    ex = fld(ex[0])
    sw['imu'] = configured(ctx, p.one(B + 'InitialiseInside'))
    fresh(ctx, sw, flags)
    env = (flags, sw, calib, ex)
    for fin, imu, has, order in itertools.product(
            (False, True), (False, True), (False, True), (-1, 0, 1, -2, 2)):
        if not has and not imu:
            continue    # not initialised yet
        cloud(ctx, env, fin, imu, has, order)
    for fin, on, has in itertools.product((False, True), repeat=3):
        message(ctx, env, 'InsertImuMsg', 'imu', fin, on, has)
        message(ctx, env, 'InsertOdomMsg', 'odom', fin, on, has)
        message(ctx, env, 'InsertGpsMsg', 'gps', fin, on, has)


# ------------------------------------------------------------------- roles
def reachable(p, f):
    seen, todo = {f.id: f}, [f]
    while todo:
        g = todo.pop()
        for i, n in g.calls():
            fn = n.get('fn') or {}
            h = p.fns.get(fn.get('u'))
            if h is not None and h.id not in seen and h.file.startswith(
                    'builder/map_builder'):
                seen[h.id] = h
                todo.append(h)
    return list(seen.values())


def flag_stores(f):
    """(field, value node) for every store to an atomic flag of this object"""
    for i, n in f.calls():
        fn = n.get('fn') or {}
        if fn.get('n') not in ('store', 'operator=', 'exchange') or \
                'atomic' not in (fn.get('q') or ''):
            continue
        obj, args = n.get('obj'), list(n.get('a') or ())
        if obj is None and args:
            obj, args = args[0], args[1:]
        if obj is None or not args:
            continue
        m = f.nodes[obj]
        while m['k'] == 'cast':
            m = f.nodes[m['e']]
        if m['k'] == 'mem':
            a = f.nodes[args[0]]
            while a['k'] == 'cast' and 'cv' not in a:
                a = f.nodes[a['e']]
            yield m.get('n'), a, i


def finish_flags(ctx):
    p = ctx.prog
    f = p.one(B + 'FinishAllComputations')
    names = set()
    for g in reachable(p, f):
        for nm, a, i in flag_stores(g):
            if a.get('cv') in (1, True, '1'):
                names.add(nm)
    ctx.need(names, 'the finish request')
    for g in [g for g in p.fns.values() if g.cls == "static_map::MapBuilder"]:
        if g.kind == 'ctor':
            continue
        ctx.analysed.add(g.q)
        for nm, a, i in flag_stores(g):
            if nm in names:
                ctx.require(a.get('cv') in (1, True, '1'), 'finish',
                            g.where(i), '%s can withdraw the finish request'
                            % g.q, 'finish/%s' % g.q)
    return [fld(n) for n in sorted(names)]


def interp(ctx):
    def model(I, fn, fr, i, n, st):
        g = n.get('fn') or {}
        nm, q = g.get('n'), g.get('q') or ''
        if n['k'] == 'call' and nm == 'AddSensorData':
            v, l = I.rvalue(fn, st, n['a'][0]), I.val(fn, st, n['a'][0])
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=g.get('c'), args=(v,),
                        argl=(l,), frame=fr, x=snapshot(I, st, v, l)))
            return I.set(st, i, ('void',))
        if n['k'] == 'call' and q.startswith('pcl::transformPointCloud') and \
                len(n['a']) >= 3:
            src, dst = (I.lloc(fn, st, a) for a in n['a'][:2])
            m = I.rvalue(fn, st, n['a'][2])
            old = I.load(st, ('f', src, '#moved'))
            I.store(st, ('f', dst, '#moved'), ('moved', src, old, m),
                    quiet=True)
            return I.set(st, i, ('void',))
        if n['k'] == 'call' and nm == 'GetLastPoseTime':
            return I.set(st, i, ('rec', ('obj', 'time', 0), (
                (('f', 'secs'), c(SECS)), (('f', 'nsecs'), c(NS)))))
        if n['k'] == 'call' and PE in q.split('<')[0]:
            v = tuple(I.rvalue(fn, st, a) for a in n['a'])
            l = tuple(I.val(fn, st, a) for a in n['a'])
            xs = tuple(snapshot(I, st, a, b) for a, b in zip(v, l))
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=g.get('c'), args=v, argl=l,
                        frame=fr, x=xs))
            return I.set(st, i, ('&', ('new pose source',))
                         if 'Init' in (nm or '') else ('res', i, q))
    I = ctx.interp(opaque=('DataCollector', 'PrintTransform'), model=model)
    I.given = Closed().truth
    return I


def snapshot(I, st, v, l):
    """what the object given looks like at this moment"""
    loc = None
    if v and v[0] == '&':
        loc = v[1]
    elif l and l[0] == '&':
        loc = l[1]
    if loc is None:
        return None, v, None
    return loc, I.full(st, loc), I.load(st, ('f', loc, '#moved'))


def setter(ctx, f):
    """the field that takes the value of the flag"""
    got = None
    I = ctx.interp()
    outs = I.run(f)
    prm = ('ld', ('arg', f.params[0]['n'], 0))
    for l in {e.loc for o in outs for e in o.events() if e.k == 'write'}:
        if l[0] == 'f' and l[1] == THIS and all(
                eq_flag(I, o, l, prm) for o in outs if o.kind == 'ret'):
            got = l
    ctx.need(outs, f.q)
    if got is None:
        for o in outs:
            if o.kind == 'ret':
                ctx.bad('switch', f.where(), '%s does not set a switch to the '
                        'given value' % f.q, 'switch/%s' % f.n)
                return None
    ctx.ok('switch', f.where(), '%s sets %s' % (f.q, T.show(got)))
    return got


def eq_flag(I, o, l, prm):
    v = I.load(o.st, l)
    if v == prm:
        return True
    pol = None
    for e in o.events():
        if e.k == 'cond' and e.val == prm:
            pol = e.pol
    return pol is not None and v == c(pol)


def stored(ctx, f):
    I = ctx.interp(opaque=('PrintTransform',))
    outs = I.run(f)
    want = ('arg', f.params[0]['n'], 0)
    got = set()
    for o in outs:
        if o.kind != 'ret':
            continue
        ls = {e.loc for e in o.events() if e.k == 'write' and e.loc[0] == 'f'
              and e.loc[1] == THIS and e.val == ('ld', want)}
        got = got & ls if got else ls
    ctx.need(len(got) == 1, 'the calibration set by ' + f.q)
    ctx.analysed.add(f.q)
    return got.pop()


def configured(ctx, f):
    """the builder's own copy of the option that enables the IMU"""
    I = ctx.interp(depth=2, inline=lambda *a: False)
    r = set()
    opt = None
    for o in I.run(f):
        for e in o.events():
            if e.k == 'write' and e.loc[0] == 'f' and e.loc[1] == THIS and \
                    e.val[0] == 'ld' and 'imu_options' in T.show(e.val) and \
                    e.val[1][0] == 'f' and 'enabled' in T.show(e.val):
                r.add(e.loc)
                opt = e.val
    ctx.need(len(r) == 1, 'the IMU switch')
    l = r.pop()
    ctx.ok('switch', f.where(), '%s takes the configured value' % T.show(l))
    return l


def fresh(ctx, sw, flags):
    p = ctx.prog
    for f in p.find(B + 'MapBuilder'):
        if f.kind != 'ctor':
            continue
        I = ctx.interp()
        for o in I.run(f):
            if o.kind != 'ret':
                continue
            for k, l in sw.items():
                if l is not None:
                    ctx.require(T.num(I.load(o.st, l)) == 0, 'initial',
                                f.where(), '%s: a new builder does not have '
                                'its %s switch off' % (f.q, k),
                                'initial/' + k)
            for l in flags:
                ctx.require(T.num(I.load(o.st, l)) == 0, 'initial', f.where(),
                            '%s: a new builder may already be finishing' % f.q,
                            'initial/finish')


# ---------------------------------------------------------------- messages
def start(ctx, env, fin, on, has):
    flags, sw, calib, ex = env
    I = interp(ctx)
    st = I.init_state()
    for l in flags:
        I.store(st, l, c(fin), quiet=True)
    for k, v in on.items():
        if sw[k] is not None:
            I.store(st, sw[k], c(v), quiet=True)
    I.store(st, ex, ('&', EX) if has else NULL, quiet=True)
    return I, st


def touched(es, ex):
    """first event that changes the builder, its store or its pose source"""
    for e in es:
        if e.k == 'call' and (e.n == 'AddSensorData' or
                              PE in (e.q or '').split('<')[0] or
                              'DataCollector::' in (e.q or '').split('<')[0]):
            return e
        if e.k in ('write', 'astore') and T.root(e.loc)[0] in (
                'this', EX[0]) and e.x != 'init':
            return e
    return None


def cloud(ctx, env, fin, imu, has, order):
    p = ctx.prog
    flags, sw, calib, ex = env
    f = p.one(B + 'InsertPointcloudMsg')
    I, st = start(ctx, env, fin, {'imu': imu}, has)
    cl, slot = ('cloud', 0), ('slot', 0)
    us = SECS * 10**6 + NS // 1000 + {-2: -700000, -1: -1, 0: 0, 1: 1,
                                      2: 700000}[order]
    I.store(st, ('f', ('f', cl, 'header'), 'stamp'), c(us), quiet=True)
    I.store(st, slot, ('&', cl), quiet=True)
    I.store(st, ('f', cl, '#moved'), ('as given', cl), quiet=True)
    what = 'finish %srequested, IMU %s, %s, cloud %s' % (
        '' if fin else 'not ', 'on' if imu else 'off',
        'poses known' if has else 'no pose source yet',
        'older' if order < 0 else 'not older')
    accept = not fin and has and order >= 0
    n = 0
    for o in I.run(f, args=[('&', slot)], state=st):
        if o.kind == 'back':
            continue
        n += 1
        ctx.need(o.kind == 'ret', 'a path of %s that ends' % f.q)
        es = o.events()
        if not accept:
            e = touched(es, ex)
            ctx.require(e is None, 'ignored', e.where if e else f.where(),
                        '%s: %s, still %s' % (f.q, what, show(e)),
                        'cloud/ignored')
            continue
        adds = [e for e in es if e.k == 'call' and e.n == 'AddSensorData']
        if not ctx.require(len(adds) == 1, 'accepted', f.where(), '%s: %s, the '
                           'cloud is stored %d times' % (f.q, what, len(adds)),
                           'cloud/accepted'):
            continue
        loc, v, mv = adds[0].x
        ok = mv and mv[0] == 'moved' and mv[2] == ('as given', cl) and \
            same_matrix(mv[3], calib['lidar'])
        ctx.require(ok, 'tracking frame', adds[0].where, '%s: the cloud stored '
                    'is not the message moved by the lidar calibration' % f.q,
                    'cloud/frame')
    ctx.need(n, 'paths of %s' % f.q)
    ctx.count('cloud cases', 1)


def show(e):
    if e is None:
        return ''
    if e.k == 'call':
        return 'calls %s' % e.n
    return 'writes %s' % T.show(e.loc)


def same_matrix(a, loc):
    for s in (1, 2):
        n = Num(seed=s)
        try:
            x, y = n.mat(n.val(a)), n.mat(n.val(('ld', loc)))
            if any(abs(x(i, j) - y(i, j)) > 1e-9 for i in range(4)
                   for j in range(4)):
                return False
        except NoValue:
            return False
    return True


def message(ctx, env, name, kind, fin, on, has):
    p = ctx.prog
    flags, sw, calib, ex = env
    f = p.one(B + name)
    I, st = start(ctx, env, fin, {kind: on}, has)
    msg, slot = ('msg', 0), ('slot', 0)
    I.store(st, slot, ('&', msg), quiet=True)
    what = 'finish %srequested, sensor %s' % ('' if fin else 'not ',
                                             'on' if on else 'off')
    n = 0
    for o in I.run(f, args=[('&', slot)], state=st):
        if o.kind == 'back':
            continue
        n += 1
        es = o.events()
        if fin or not on:
            e = touched(es, ex)
            ctx.require(e is None and o.kind == 'ret', 'ignored',
                        e.where if e else f.where(), '%s: %s, still %s' % (
                            f.q, what, show(e) or 'stops the program'),
                        kind + '/ignored')
            continue
        if o.kind == 'abort' and kind == 'odom':
            ctx.ok('accepted', f.where(), 'refused loudly')
            continue
        adds = [e for e in es if e.k == 'call' and e.n == 'AddSensorData']
        if not ctx.require(len(adds) == 1 and o.kind == 'ret', 'accepted',
                           f.where(), '%s: %s, the message is stored %d times'
                           % (f.q, what, len(adds)), kind + '/accepted'):
            continue
        content(ctx, f, kind, adds[0], adds[0].x, calib)
        if kind != 'imu':
            continue
        given = [(e, x) for e in es if e.k == 'call' and
                 PE in (e.q or '').split('<')[0] for x in (e.x or ())
                 if x[0] is not None and imu_like(x)]
        names = {e.n for e, x in given}
        if ctx.require(len(given) == 1 and (
                ('InitializeWithImu' in names) != has), 'pose source',
                f.where(), '%s: with %s pose source the reading goes to %s' % (
                    f.q, 'a' if has else 'no', ', '.join(sorted(names)) or
                    'none'), 'imu/source'):
            content(ctx, f, kind, given[0][0], given[0][1], calib)
            if not has:
                ctx.require(I.load(o.st, ex) == ('&', ('new pose source',)),
                            'pose source', given[0][0].where, '%s: the pose '
                            'source made from the first reading is not kept'
                            % f.q, 'imu/kept')
    ctx.need(n, 'paths of %s' % f.q)
    ctx.count('message cases', 1)


def imu_like(x):
    return x[0][0] in ('msg', 'v', 'heap', 'tmp', 'arg') or \
        T.root(x[0])[0] == 'msg'


def content(ctx, f, kind, e, x, calib):
    loc, v, _ = x
    if kind != 'imu':
        ok = loc == ('msg', 0) and (v == ('ld', loc) or v == ('rec', (
            'ld', loc), ()) or not written(v))
        ctx.require(ok, 'content', e.where, '%s: the message stored is not the '
                    'one received' % f.q, kind + '/content')
        return
    bad = None
    for s in (1, 2):
        n = Num(seed=s, shapes=None)
        try:
            R = n.mat(n.val(('ld', calib['imu'])))
            m = n.val(v)
            for a in ('linear_acceleration', 'angular_velocity'):
                got = n.mat(n.field(m, a))
                src = n.mat(n.val(('ld', ('f', ('msg', 0), a))))
                for i in range(3):
                    w = sum(R(i, j) * src(j) for j in range(3))
                    if abs(w - got(i)) > 1e-6 * (1 + abs(w)):
                        bad = a
        except NoValue as ex:
            bad = str(ex)
    ctx.require(not bad, 'tracking frame', e.where, '%s: %s of the reading given '
                'to %s is not rotated once by the IMU calibration' % (
                    f.q, bad, e.n), 'imu/frame')


def written(v):
    return v[0] == 'rec' and bool(v[2])
