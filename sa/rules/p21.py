"""Pose extrapolation."""
import itertools
import math
from .. import kseq, terms as T
from ..interp import Ev
from ..num import Num, NoValue, Closed, Quat, rnd
from ..paths import THIS, fld
from ..terms import c, NULL

SRCS = ['builder/pose_extrapolator.cc', 'builder/imu_tracker.cc',
        'common/simple_time.cc', 'builder/data/data_types.cc']
EXPLAIN = '''
Times are only compared and subtracted, so the handlers are followed over a
finite set of orderings: histories of up to four poses, up to four inertial and
odometry readings, with gaps shorter than, equal to and longer than the window.
For each ordering the effect of a handler is composed from its source: which
entries stay in each history (by identity, poses remain symbols), when it
refuses, what the velocities become, and in which order the orientation tracker
is advanced and fed.  Poses and velocities stay symbolic; the extracted terms
are compared with the stated formula at sample values.  The tracker's own steps
are extracted separately and compared in the same way.
'''
ASSUME = ['histories longer than four entries behave as the enumerated ones',
          'the rotation part of every pose is a rotation']
MIN_OBLIGATIONS = 100
C = 'static_map::PoseExtrapolator'
TR = 'static_map::ImuTracker'
UNIT = 250000000
BASE = 1600000000 * 10**9
POSES, IMU, ODO = fld('timed_pose_queue_'), fld('imu_data_'), \
    fld('odometry_data_')
CACHE = fld('cached_extrapolated_pose_')
LIN, ANG = fld('linear_velocity_from_poses_'), \
    fld('angular_velocity_from_poses_')
OLIN, OANG = fld('linear_velocity_from_odometry_'), \
    fld('angular_velocity_from_odometry_')
TRACK = [fld(x) for x in ('imu_tracker_', 'odometry_imu_tracker_',
                          'extrapolation_imu_tracker_')]
WINDOW = 2
SHAPES = {'inner': 4, (fld('gravity_vector_'), 'vector'): True}
POSE = ('arg', 'new pose', 92)


class Rig:
    """one object with given histories; the tracker's steps are written down"""

    def __init__(self, ctx, mode, poses=(), imu=(), odo=(), cached=None):
        self.ctx = ctx
        self.syms = {}
        self.I = ctx.interp(unroll=10, model=self.model, max_states=4000)
        self.I.given = truth
        self.st = self.I.init_state()
        self.put(fld('mode_'), c(mode))
        self.time(fld('pose_queue_duration_'), WINDOW * UNIT)
        for L, ts, path in ((POSES, poses, ('time',)),
                            (IMU, imu, ('header', 'stamp')),
                            (ODO, odo, ('header', 'stamp'))):
            self.put(('f', L, '#size'), c(len(ts)))
            for k, t in enumerate(ts):
                l = ('[]', L, c(k))
                self.put(l, ('arg', '%s %d' % (L[2], k), 50 + k))
                self.time(fields(l, path), BASE + t * UNIT)
        if cached is not None:
            self.time(('f', CACHE, 'time'), BASE + cached * UNIT)

    def put(self, loc, v):
        self.I.store(self.st, loc, v, quiet=True)

    def time(self, loc, ns):
        for k, v in (('secs', ns // 10**9), ('nsecs', ns % 10**9),
                     ('u_judge_range', 1)):
            self.put(('f', loc, k), c(v))

    def pose(self):
        self.put(('new pose',), POSE)
        return ('&', ('new pose',))

    def tracker(self, k, t, orient):
        """tracker k at time t with a given orientation"""
        o = ('tracker object %d' % k,)
        self.put(TRACK[k], ('&', o))
        self.time(('f', o, 'time_'), BASE + t * UNIT)
        self.put(('f', o, 'orientation_'), orient)
        return o

    def sym(self, *key):
        for s, k in self.syms.items():
            if k == key:
                return s
        s = ('arg', 'orientation %d' % len(self.syms), 200 + len(self.syms))
        self.syms[s] = key
        return s

    def model(self, I, fn, frame, i, n, st):
        f = n.get('fn')
        if n['k'] == 'call' and f and f.get('c') == TR and f['n'] in (
                'Advance', 'AddImuLinearAccelerationObservation',
                'AddImuAngularVelocityObservation'):
            o = I.deref(I.ptr(fn, st, n['obj'])) if n.get('arrow') else \
                I.lloc(fn, st, n['obj'])
            a = I.rvalue(fn, st, n['a'][0])
            ol = ('f', o, 'orientation_')
            old = I.full(st, ol)
            if f['n'] == 'Advance':
                t = ns(a)
                now = ns(I.full(st, ('f', o, 'time_')))
                if t is None or now is None:
                    raise NoValue('time of a tracker step')
                if t < now:
                    key = ('backwards', old, now, t)
                elif t == now:
                    key = None
                else:
                    key = ('to', old, t)
                I.store(st, ('f', o, 'time_'), a, quiet=True)
            else:
                key = (f['n'][6:9], old, a)
            if key:
                I.store(st, ol, self.sym(*key), quiet=True)
            I.ev(st, Ev('call', fn, i, q=f['q'], n=f['n'], c=TR, obj=o,
                        args=(a,), frame=frame))
            return I.set(st, i, ('void',))
        if n['k'] == 'call' and f and f.get('q') in ('std::min', 'std::max') \
                and len(n['a']) == 2:
            ls = [I.val(fn, st, a) for a in n['a']]
            ts = [ns(I.rvalue(fn, st, a)) for a in n['a']]
            if None not in ts:
                k = 0 if (ts[0] < ts[1]) == (f['n'] == 'min') or \
                    ts[0] == ts[1] else 1
                return I.set(st, i, ls[k])
        return kseq.model(I, fn, frame, i, n, st)

    def steps(self, o):
        """what led to an orientation: [(kind, value)] since the given one"""
        out = []
        while o in self.syms:
            k = self.syms[o]
            out.append((k[0],) + tuple(k[2:]))
            o = k[1]
        return o, out[::-1]

    def run(self, name, args, this=THIS):
        f = self.ctx.prog.one(name)
        self.ctx.analysed.add(f.id)
        self.I.outs = []
        vs = []
        for p, a in zip(f.params, args):
            if isinstance(a, int):
                slot = ('given', p['n'])
                self.time(slot, BASE + a * UNIT)
                a = ('&', slot) if p.get('isref') else \
                    self.I.full(self.st, slot)
            vs.append(a)
        r = self.I.run(f, this=this, args=vs, state=self.st)
        return [o for o in r if o.kind != 'back'], f

    def size(self, o, L):
        n = T.num(self.I.load(o.st, ('f', L, '#size')))
        if n is None:
            raise NoValue('length of a history')
        return int(n)

    def entries(self, o, L):
        return [self.I.full(o.st, ('[]', L, c(k)))
                for k in range(self.size(o, L))]


def fields(l, path):
    for x in path:
        l = ('f', l, x)
    return l


def sub(v, name):
    """field of an extracted value"""
    if v[0] == 'rec':
        for k, x in v[2]:
            if k == ('f', name):
                return x
        return sub(v[1], name)
    return ('fld', v, ('f', name))


def ns(v):
    """time value in nanoseconds, None when not a constant"""
    try:
        n = Closed()
        return int(n.num(sub(v, 'secs'))) * 10**9 + int(n.num(sub(v, 'nsecs')))
    except NoValue:
        return None


def same_pose(a, b):
    """equal up to the times written into both"""
    return strip(a) == strip(b)


def strip(v):
    while v[0] == 'rec':
        v = v[1]
    return v


def holds(N, o):
    """does the path condition hold at this sample?"""
    try:
        return all(bool(N.num(a)) == pol for a, pol in conds(o))
    except NoValue:
        return None


def sample(R, s):
    over = {x: Quat(*(rnd((s, x, k)) - 1.5 for k in 'wxyz')).unit()
            for x in list(R.syms) + [O0, O1]}
    return Num(over=over, seed=s, rigid=True, shapes=SHAPES)


def truth(atom):
    """of a comparison of given times"""
    if atom[0] == '<':
        ts = [ns(x) if isinstance(x, tuple) and x[0] == 'rec' else None
              for x in atom[1:]]
        if None not in ts:
            return ts[0] < ts[1]
    return Closed().truth(atom)


def conds(o):
    return [(e.val, e.pol) for e in o.events() if e.k == 'cond'
            and truth(e.val) is None]


def samples(R, outs, n=4):
    """(sample, the outcome that applies there)"""
    res = []
    for s in range(n):
        for o in outs:
            if o.kind == 'ret' and holds(sample(R, s), o):
                res.append((sample(R, s), o))
                break
    return res


def block(N, v, a, b, r, k):
    m = N.mat(N.val(v))
    return [[m(a + i, b + j) for j in range(k)] for i in range(r)]


def near(a, b, eps=1e-7):
    if isinstance(a, list):
        return len(a) == len(b) and all(near(x, y, eps) for x, y in zip(a, b))
    return abs(a - b) <= eps * (1 + abs(a) + abs(b))


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B)))
             for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(x) for x in zip(*A)]


def eulers(R):
    return [math.atan2(R[2][1], R[2][2]),
            math.atan2(-R[2][0], math.hypot(R[0][0], R[1][0])),
            math.atan2(R[1][0], R[0][0])]


def from_eulers(e):
    (a, b, g) = e
    X = [[1, 0, 0], [0, math.cos(a), -math.sin(a)],
         [0, math.sin(a), math.cos(a)]]
    Y = [[math.cos(b), 0, math.sin(b)], [0, 1, 0],
         [-math.sin(b), 0, math.cos(b)]]
    Z = [[math.cos(g), -math.sin(g), 0], [math.sin(g), math.cos(g), 0],
         [0, 0, 1]]
    return mul(mul(Z, Y), X)


ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def vec(N, v):
    m = N.mat(N.val(v))
    return [m(k, 0) for k in range(3)]


def rot(N, v):
    return block(N, v, 0, 0, 3, 3)


def tra(N, v):
    return [x[0] for x in block(N, v, 0, 3, 3, 1)]


def check(ctx):
    p = ctx.prog
    rec = p.record(C)
    names = {x['n'] for x in rec['fields']}
    ctx.need({x[2] for x in (POSES, IMU, ODO, CACHE, LIN, ANG, OLIN, OANG)} |
             {x[2] for x in TRACK} <= names, 'the histories of the extrapolator')
    modes = {x[0]: int(x[1]) for x in p.enums[C + '::Mode']['vals']}
    ctx.need({'kDefaultWithImu', 'kSimpleCTRV'} <= set(modes), 'the modes')
    imu, ctrv = modes['kDefaultWithImu'], modes['kSimpleCTRV']
    history(ctx, ctrv)
    inertial(ctx, imu)
    readings(ctx, imu, ctrv)
    tracker_order(ctx, imu)
    queries(ctx, imu, ctrv)
    newest(ctx, ctrv)
    tracker(ctx)


# ------------------------------------------------------------------ AddPose
def kept(ts, new):
    """positions left after adding a pose"""
    seq = list(ts) + [new]
    a = 0
    while len(seq) - a > 2 and seq[a + 1] <= new - WINDOW:
        a += 1
    return a


def orderings(most=3):
    for n in range(most + 1):
        for g in itertools.product((0, 1, 2, 3), repeat=n):
            ts = [10]
            for x in g:
                ts.append(ts[-1] + x)
            yield ts[:-1], ts[-1]


def history(ctx, mode):
    for ts, new in orderings():
        R = Rig(ctx, mode, ts)
        outs, f = R.run(C + '::AddPose', [new, R.pose()])
        pose = POSE
        ctx.count('orderings of a history', 1)
        tag = 'poses at %s, new at %s' % (
            [t - 10 for t in ts], new - 10)
        ctx.need(outs, 'an end of AddPose')
        for o in outs:
            grown(ctx, R, o, f, ts, new, pose, tag)
        a = kept(ts, new)
        speed(ctx, R, outs, f, ts, new, a, pose, tag)


def grown(ctx, R, o, f, ts, new, pose, tag):
    ok = ctx.require(o.kind == 'ret', 'pose accepted', f.q,
                     '%s: accepted' % tag, 'add:%s' % o.kind)
    if not ok:
        return
    a = kept(ts, new)
    got = R.entries(o, POSES)
    want = [('arg', 'timed_pose_queue_ %d' % k, 50 + k)
            for k in range(a, len(ts))]
    ok = len(got) == len(want) + 1 and \
        all(same_pose(x, y) for x, y in zip(got, want)) and \
        strip(sub(got[-1], 'pose')) == pose and \
        ns(sub(got[-1], 'time')) == BASE + new * UNIT
    ctx.require(ok, 'history kept', f.q,
                '%s: history is entries %d.. and the new pose' % (tag, a),
                'history')
    ct, cp = (R.I.full(o.st, ('f', CACHE, x)) for x in ('time', 'pose'))
    if not ts:
        ctx.require(ns(ct) == BASE + new * UNIT and strip(cp) == pose,
                    'first pose answers', f.q, '%s: the first pose answers for '
                    'its own time' % tag, 'first')
    else:
        ctx.require(ns(ct) is None and T.occurs(CACHE, ct) and
                    T.occurs(CACHE, cp) or
                    ns(ct) == BASE + new * UNIT and strip(cp) == pose,
                    'cached answer', f.q, '%s: cached answer left alone' % tag,
                    'cache')


def speed(ctx, R, outs, f, ts, new, a, pose, tag):
    seq = list(ts) + [new]
    dt = (new - seq[a]) * UNIT / 1e9
    olds = ('fld', ('arg', 'timed_pose_queue_ %d' % a, 50 + a), ('f', 'pose'))
    ss = samples(R, outs)
    ctx.need(ss, 'a sample for the velocities')
    for N, o in ss:
        l, w = (R.I.full(o.st, x) for x in (LIN, ANG))
        if len(seq) < 2 or new - seq[a] < WINDOW:
            ok = T.occurs(LIN, l) and T.occurs(ANG, w) and \
                near(vec(N, l), vec(N, ('ld', LIN))) and \
                near(vec(N, w), vec(N, ('ld', ANG)))
            ctx.require(ok, 'velocity kept', f.q, '%s: history too short, '
                        'velocities kept' % tag, 'kept')
            continue
        try:
            v = [(x - y) / dt for x, y in zip(tra(N, pose), tra(N, olds))]
            e = [x / dt for x in eulers(mul(tr(rot(N, olds)), rot(N, pose)))]
            ok = near(vec(N, l), v) and near(vec(N, w), e)
        except NoValue as x:
            ok = False
        ctx.require(ok, 'velocity', f.q, '%s: velocities are the change from '
                    'the oldest to the newest pose over the time between them'
                    % tag, 'velocity')


# ------------------------------------------------------- inertial and odometry
def moves(tt, stamps, t):
    """steps of a tracker at tt taken to t: (time | None, reading | None)"""
    if not stamps or t < stamps[0]:
        return [('to', t)] * (t != tt) + [('Lin', None), ('Ang', None)]
    out = []
    if tt < stamps[0]:
        out.append(('to', stamps[0]))
        tt = stamps[0]
    for k, s in enumerate(stamps):
        if s < tt:
            continue
        if s >= t:
            break
        if s != tt:
            out.append(('to', s))
            tt = s
        out += [('Lin', k), ('Ang', k)]
    if t != tt:
        out.append(('to', t))
    return out


def agree(ctx, R, o, start, got, want, few, names=None):
    """are the steps that led to an orientation the expected ones?"""
    base, ks = R.steps(got)
    if base != start or len(ks) != len(want):
        return False
    N = sample(R, 1)
    at = 0
    while at < len(ks):
        n = 1
        while want[at][0] != 'to' and at + n < len(ks) and \
                want[at + n][0] != 'to':
            n += 1
        grp = sorted(want[at:at + n], key=str)
        mine = sorted(ks[at:at + n], key=str)
        if [x[0] for x in grp] != [x[0] for x in mine]:
            # the two readings of one moment may come in either order
            return False
        rest = list(mine)
        for w in grp:
            m = next((x for x in rest if step(R, N, o, w, x, few, names)),
                     None)
            if m is None:
                return False
            rest.remove(m)
        # one after the other for different readings
        if n > 2 and [x[1] for x in want[at:at + n]] != \
                sorted(x[1] for x in want[at:at + n]):
            return False
        at += n
    return True


def step(R, N, o, w, x, few, names):
    if w[0] != x[0]:
        return False
    if w[0] == 'to':
        return x[1] == BASE + w[1] * UNIT
    if w[1] is None:
        if w[0] == 'Lin':
            return near(vec(N, x[1]), [0, 0, 1])
        return near(vec(N, x[1]), vec(N, R.I.full(o.st, ANG if few else OANG)))
    v = ('fld', ('arg', 'imu_data_ %d' % w[1], 50 + w[1]),
         ('f', {'Lin': 'linear_acceleration',
                'Ang': 'angular_velocity'}[w[0]]))
    return near(vec(N, x[1]), vec(N, v))


def left(ts, newest, least):
    a = 0
    while len(ts) - a > least and ts[a + 1] <= newest:
        a += 1
    return a


def stays(R, o, L, a, n, extra=()):
    got = R.entries(o, L)
    want = [('arg', '%s %d' % (L[2], k), 50 + k) for k in range(a, n)] + \
        list(extra)
    return len(got) == len(want) and all(map(same_pose, got, want))


STAMPS = [(), (9,), (10,), (12,), (14,), (9, 11), (10, 12), (11, 13),
          (9, 10, 11), (10, 11, 12), (11, 12, 13), (9, 11, 12, 13),
          (9, 10, 13, 14)]
O0 = ('arg', 'orientation of the tracker', 190)
O1 = ('arg', 'orientation of the copy', 191)


def at_tracker(R, o, k):
    v = R.I.load(o.st, TRACK[k])
    if v == NULL:
        return None
    try:
        L = R.I.deref(v)
    except Exception:
        return None
    return (ns(R.I.full(o.st, ('f', L, 'time_'))),
            R.I.full(o.st, ('f', L, 'orientation_')))


def inertial(ctx, mode):
    for ts, new, has, imu, odo in itertools.product(
            ((), (10,)), (12,), (False, True), STAMPS,
            ((), (9, 12), (9, 10, 12), (9, 10, 11, 14))):
        if odo and imu not in ((), (9, 11), (9, 11, 12, 13)):
            continue
        R = Rig(ctx, mode, ts, imu, odo)
        if has:
            R.tracker(0, 10, O0)
        else:
            R.put(TRACK[0], NULL)
        outs, f = R.run(C + '::AddPose', [new, R.pose()])
        ctx.count('orderings with inertial data', 1)
        tag = 'poses %s, new %d, inertial data %s, odometry %s, tracker %s' % (
            list(ts), new, list(imu), list(odo), 'at 10' if has else 'none')
        ctx.need(outs, 'an end of AddPose')
        for o in outs:
            if not ctx.require(o.kind == 'ret', 'pose accepted', f.q,
                               '%s: accepted' % tag, 'imu add'):
                continue
            ctx.require(stays(R, o, IMU, left(imu, new, 1), len(imu)),
                        'inertial data kept', f.q, '%s: data dropped only when '
                        'its successor is not newer than the pose' % tag,
                        'imu trimmed')
            ctx.require(stays(R, o, ODO, left(odo, new, 2), len(odo)),
                        'odometry kept', f.q, '%s: odometry dropped only when '
                        'its successor is not newer than the pose' % tag,
                        'odometry trimmed')
            tt = 10 if has else min([new] + list(imu[:1]))
            a, b, d = (at_tracker(R, o, k) for k in range(3))
            ok = a is not None and a[0] == BASE + new * UNIT
            if ok:
                start = O0 if has else R.steps(a[1])[0]
                ok = agree(ctx, R, o, start, a[1], moves(tt, imu, new),
                           len(odo) < 2)
                if not has:
                    N = sample(R, 0)
                    try:
                        ok = ok and near(quat_mat(N, start), ID)
                    except NoValue:
                        ok = False
            ctx.require(ok, 'tracker follows', f.q, '%s: tracker brought to '
                        'the new pose by the data up to it' % tag, 'tracker')
            ctx.require(a == b == d, 'tracker copies', f.q,
                        '%s: both copies start from the tracker' % tag,
                        'copies')


def readings(ctx, imu, ctrv):
    for kind, L, name, other, least in (
            ('inertial', IMU, 'AddImuData', 'imu', 1),
            ('odometry', ODO, 'AddOdometryData', 'odo', 2)):
        for mode, ts, old, new in itertools.product(
                (imu, ctrv), ((), (10,), (8, 10)),
                ((), (9,), (9, 10), (9, 10, 10), (9, 10, 11)),
                (8, 9, 10, 11, 12)):
            if old and new < old[-1] or mode == ctrv and len(old) > 1:
                continue
            R = Rig(ctx, mode, ts, **{other: old})
            R.tracker(0, 10, O0)
            R.tracker(1, 10, O1)
            slot = ('new reading',)
            R.put(slot, ('arg', 'new reading', 90))
            R.time(fields(slot, ('header', 'stamp')), BASE + new * UNIT)
            outs, f = R.run(C + '::' + name, [('&', slot)])
            ctx.count('orderings of a reading', 1)
            ctx.need(outs, 'an end of ' + name)
            tag = '%s at %d, poses %s, data %s%s' % (
                kind, new, list(ts), list(old),
                ', no sensors in use' if mode == ctrv else '')
            for o in outs:
                reading(ctx, R, o, f, mode == ctrv, ts, old, new, L, least, tag)
            if L == ODO and mode == imu and (not ts or new >= ts[-1]):
                drive(ctx, R, outs, f, ts, old, new, tag)


def reading(ctx, R, o, f, ctrv, ts, old, new, L, least, tag):
    if ctrv:
        ctx.require(o.kind == 'ret' and stays(R, o, L, 0, len(old)),
                    'unused data', f.q, '%s: ignored' % tag, 'ignored')
        return
    if ts and new < ts[-1]:
        ctx.require(o.kind in ('abort', 'throw'), 'old data', f.q,
                    '%s: refused' % tag, 'refused')
        return
    if not ctx.require(o.kind == 'ret', 'data accepted', f.q,
                       '%s: accepted' % tag, 'accepted'):
        return
    seq = list(old) + [new]
    a = left(seq, ts[-1], least) if ts else 0
    ctx.require(stays(R, o, L, a, len(old), [('arg', 'new reading', 90)]),
                'data kept', f.q, '%s: data dropped only when its successor is '
                'not newer than the newest pose' % tag, 'kept data')


def odo_pose(k, n):
    b = ('arg', 'new reading', 90) if k == n else \
        ('arg', 'odometry_data_ %d' % k, 50 + k)
    p = ('fld', ('fld', b, ('f', 'pose')), ('f', 'pose'))
    return ('fld', p, ('f', 'orientation')), ('fld', p, ('f', 'position'))


def quat_mat(N, v):
    m = N.quat(N.val(v)).mat()
    return [[m(i, j) for j in range(3)] for i in range(3)]


def drive(ctx, R, outs, f, ts, old, new, tag):
    """velocities taken from odometry"""
    seq = list(old) + [new]
    a = left(seq, ts[-1], 2) if ts else 0
    if len(seq) - a < 2 or seq[a] == new:
        return
    dt = (new - seq[a]) * UNIT / 1e9
    (q0, p0), (q1, p1) = odo_pose(a, len(old)), odo_pose(len(old), len(old))
    ss = samples(R, outs)
    ctx.need(ss, 'a sample for the odometry')
    for N, o in ss:
        try:
            A, B = quat_mat(N, q0), quat_mat(N, q1)
            d = [x - y for x, y in zip(vec(N, p1), vec(N, p0))]
            w = [x / dt for x in eulers(mul(tr(A), B))]
            v = [x[0] / dt for x in mul(tr(A), [[x] for x in d])]
            ok = near(vec(N, R.I.full(o.st, OANG)), w)
            if ts:
                last = at_tracker(R, o, 1)
                ok = ok and last is not None and \
                    agree(ctx, R, o, O1, last[1], moves(10, (), new), False)
                newest = ('fld', ('arg', 'timed_pose_queue_ %d' % (len(ts) - 1),
                                  50 + len(ts) - 1), ('f', 'pose'))
                M = mul(mul(rot(N, newest), tr(quat_mat(N, O0))),
                        quat_mat(N, last[1]))
                ok = ok and near(vec(N, R.I.full(o.st, OLIN)),
                                 [x[0] for x in mul(M, [[x] for x in v])])
        except NoValue as x:
            ok = False
        ctx.require(ok, 'odometry velocity', f.q, '%s: velocities from the '
                    'oldest and newest odometry kept' % tag, 'odometry')


# ------------------------------------------------------------------- queries
def tracker_order(ctx, mode):
    for stamps, tt, t, n in itertools.product(
            STAMPS, (9, 10, 11, 12), (9, 10, 11, 12, 13, 14), (0, 1, 2)):
        if n and stamps not in ((), (9, 11), (14,)):
            continue
        R = Rig(ctx, mode, (9,), stamps, range(9, 9 + n))
        R.tracker(0, tt, O0)
        outs, f = R.run(C + '::EstimateGravityOrientation', [t])
        ctx.count('orderings of tracker, data and query', 1)
        tag = 'tracker at %d, query %d, data %s, %d odometry' % (
            tt, t, list(stamps), n)
        ctx.need(outs, 'an end of the gravity query')
        for o in outs:
            if t < tt:
                ctx.require(o.kind in ('abort', 'throw'), 'tracker never back',
                            f.q, '%s: refused' % tag, 'back')
                continue
            ok = o.kind == 'ret' and \
                agree(ctx, R, o, O0, whole(R, o), moves(tt, stamps, t), n < 2)
            ctx.require(ok, 'tracker order', f.q, '%s: fed with the data '
                        'between, each at its time' % tag, 'order')
            ctx.require(o.kind == 'ret' and at_tracker(R, o, 0) ==
                        (BASE + tt * UNIT, O0), 'tracker untouched', f.q,
                        '%s: asking does not move the tracker' % tag, 'asked')


def whole(R, o):
    v = o.val
    return v


def queries(ctx, imu, ctrv):
    for mode, ts, q, cached, n in itertools.product(
            (ctrv, imu), ((10,), (9, 10), (8, 9, 10)), (9, 10, 11, 12),
            (9, 10, 11), (0, 1, 2)):
        if n and (mode == ctrv and n == 1 or len(ts) == 2):
            continue
        for stamps in (((),) if mode == ctrv else ((), (9, 11))):
            R = Rig(ctx, mode, ts, stamps, range(10, 10 + n), cached)
            R.tracker(0, 10, O0)
            R.tracker(2, 10, O1)
            R.put(('f', CACHE, 'pose'), ('arg', 'cached pose', 91))
            outs, f = R.run(C + '::ExtrapolatePose', [q])
            ctx.count('orderings of a query', 1)
            tag = '%s poses %s, query %d, cached %d, %d odometry, data %s' % (
                'inertial,' if mode == imu else '', list(ts), q, cached, n,
                list(stamps))
            ctx.need(outs, 'an end of ExtrapolatePose')
            if q < ts[-1]:
                for o in outs:
                    ctx.require(o.kind in ('abort', 'throw'), 'past query', f.q,
                                '%s: refused' % tag, 'past')
                continue
            ctx.require(all(o.kind == 'ret' for o in outs), 'query answered',
                        f.q, '%s: answered' % tag, 'answered')
            for N, o in samples(R, outs):
                answer(ctx, R, N, o, f, mode == ctrv, ts, q, cached, n, stamps,
                       tag)


def answer(ctx, R, N, o, f, ctrv, ts, q, cached, n, stamps, tag):
    got = o.val
    if q == cached:
        ctx.require(strip(got) == ('arg', 'cached pose', 91), 'same answer',
                    f.q, '%s: cached answer' % tag, 'same')
        return
    dt = (q - ts[-1]) * UNIT / 1e9
    last = ('fld', ('arg', 'timed_pose_queue_ %d' % (len(ts) - 1),
                    50 + len(ts) - 1), ('f', 'pose'))
    v = ('ld', OLIN if not ctrv and n >= 2 else LIN)
    try:
        t = [x + dt * y for x, y in zip(tra(N, last), vec(N, v))]
        if ctrv:
            r = from_eulers([dt * x for x in vec(N, ('ld', ANG))])
            ok = True
        else:
            e = at_tracker(R, o, 2)
            ok = e is not None and agree(ctx, R, o, O1, e[1],
                                         moves(10, stamps, q), n < 2)
            r = mul(tr(quat_mat(N, O0)), quat_mat(N, e[1]))
        want = mul(rot(N, last), r)
        ok = ok and near(tra(N, got), t) and near(rot(N, got), want) and \
            near(block(N, got, 3, 0, 1, 4), [[0, 0, 0, 1]])
        ct = R.I.full(o.st, ('f', CACHE, 'time'))
        cp = R.I.full(o.st, ('f', CACHE, 'pose'))
        if ns(ct) == BASE + q * UNIT:
            keep = near(block(N, cp, 0, 0, 4, 4), block(N, got, 0, 0, 4, 4))
        else:
            keep = ns(ct) == BASE + cached * UNIT and \
                strip(cp) == ('arg', 'cached pose', 91)
    except NoValue as x:
        ok = keep = False
    ctx.require(ok, 'extrapolated pose', f.q, '%s: newest pose advanced over '
                'the elapsed time' % tag, 'pose')
    ctx.require(keep, 'cached answer', f.q, '%s: what is kept is the answer for '
                'the time it is kept under' % tag, 'cache')


def newest(ctx, mode):
    for ts in ((), (10,), (9, 10), (8, 9, 12)):
        R = Rig(ctx, mode, ts)
        outs, f = R.run(C + '::GetLastPoseTime', [])
        ctx.need(outs, 'an end of GetLastPoseTime')
        want = BASE + ts[-1] * UNIT if ts else 0
        for o in outs:
            ctx.require(o.kind == 'ret' and ns(o.val) == want, 'newest time',
                        f.q, 'poses %s: time of the newest' % list(ts),
                        'newest')


# ------------------------------------------------------------------- tracker
def tracker(ctx):
    f = ctx.prog.one(TR + '::Advance')
    ctx.analysed.add(f.id)
    for now, t in ((10, 9), (10, 10), (10, 11), (10, 14)):
        R = Rig(ctx, 0)
        R.I.model = None
        R.time(fld('time_'), BASE + now * UNIT)
        outs, _ = R.run(TR + '::Advance', [t])
        ctx.need(outs, 'an end of the tracker step')
        tag = 'tracker at %d taken to %d' % (now, t)
        if t < now:
            ctx.require(all(o.kind in ('abort', 'throw') for o in outs),
                        'tracker never back', f.q, tag + ': refused', 'back')
            continue
        dt = (t - now) * UNIT / 1e9
        ok = all(o.kind == 'ret' for o in outs)
        for N, o in samples(R, outs) if ok else ():
            w, q, g = (('ld', fld(x)) for x in (
                'imu_angular_velocity_', 'orientation_', 'gravity_vector_'))
            try:
                D = from_eulers([dt * x for x in vec(N, w)])
                ok = near(quat_mat(N, R.I.full(o.st, fld('orientation_'))),
                          mul(quat_mat(N, q), D)) and \
                    near(vec(N, R.I.full(o.st, fld('gravity_vector_'))),
                         [x[0] for x in mul(tr(D), [[x] for x in vec(N, g)])]) \
                    and ns(R.I.full(o.st, fld('time_'))) == BASE + t * UNIT
            except NoValue as x:
                ok = False
            ctx.require(ok, 'tracker step', f.q, tag + ': turned by the '
                        'angular velocity over the time between', 'turn')
