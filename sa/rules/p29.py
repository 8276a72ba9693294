"""Chaining of scan poses and choice of key frames."""
import math
from .. import terms as T
from ..lib_scan import analyse
from ..num import Num, NoValue, close, same, Mat
from ..paths import THIS, fld, ld, truth_of
from ..terms import c, NULL

SRCS = ['builder/map_builder.cc']
EXPLAIN = '''
Every way through one iteration of the scan matching loop is followed.  Roles are
taken from what the code does with the values: the cloud given to the matcher as
target, the guess given to the alignment and its result, the pose reported to the
extrapolator, the frames appended to the key frame list.  Poses are extracted as
closed terms over the loop variables and compared with the specified products at
sample transforms.  The key frame choice is decided as a table: for every
ordering of the travelled distance and angle against their limits the paths that
can be taken must append a frame exactly when the specification says so.
'''
MIN_OBLIGATIONS = 150
SEEDS = (1, 2, 3)
EULER = {1: (-0.11, 0.23, 0.31), 2: (0.17, -0.07, -0.29), 3: (0.13, 0.19, -0.37)}


def nums():
    return [Num(seed=s, rigid=True) for s in SEEDS]


def eq(a, b):
    """are two pose terms equal (b may be a function of the evaluator)"""
    for n in nums():
        try:
            x = n.mat(n.val(a))
            y = b(n) if callable(b) else n.mat(n.val(b))
            if not same(x, y, 4, 4, 1e-6):
                return False
        except NoValue:
            return False
    return True


def mul(n, a, b):
    return n.prod(n.mat(a), n.mat(b))


def check(ctx):
    f, I, outs, its, comp = analyse(ctx)
    ali = [it for it in its if it.align]
    ctx.need(ali, 'an aligned scan')
    # the loop variable new poses are chained from
    pose = None
    for it in ali:
        for P in reported(it):
            for l, s in it.syms.items():
                if s[0] == 'hv' and l[0] in 'vf' and eq(
                        P, lambda n: mul(n, n.val(s), n.val(final(it)))):
                    pose = l
                    break
            if pose:
                break
        if pose:
            break
    if not pose:
        e = ali[0].align[0]
        ctx.bad('chain', e.where, 'no pose after this alignment is a remembered '
                'pose times the alignment result', 'chain/any')
        return
    tgts = {target(it) for it in ali}
    ctx.require(len(tgts) == 1 and None not in tgts, 'target',
                ali[0].align[0].where, 'scans are aligned against %s' %
                ', '.join(sorted(T.show(t) if t else 'something that is not '
                                 'remembered' for t in tgts)), 'align/target')
    tgt = next(iter(tgts))
    n_first = 0
    for it in its:
        if it.src is None:
            ctx.require(not it.keyframes() and not it.calls('AddPose'),
                        'no-scan', f.where(), 'without a new scan nothing is '
                        'matched or reported', 'no-scan')
        elif it.align:
            aligned(ctx, it, tgt, pose)
        elif it.keyframes():
            n_first += 1
            first_scan(ctx, it, tgt, pose)
        else:
            ctx.require(not it.calls('AddPose'), 'report', it.evs[-1].where,
                        'a skipped scan reports no pose', 'skip/report')
        if not it.keyframes():
            for l, what in ((tgt, 'reference cloud'), (pose, 'reference pose')):
                v = it.end(l) if l else None
                ctx.require(l is None or v == it.syms.get(l, v), 'together',
                            it.evs[-1].where, 'the %s changes without a key '
                            'frame' % what, 'together/' + what)
    ctx.require(n_first > 0, 'first', f.where(), 'the first scan becomes a key '
                'frame', 'first/any')
    # the reference pose before the first scan
    lev = its[0].lev
    ini = None
    for e in its[0].o.events():
        if e is lev:
            break
        if e.k == 'write' and e.loc == pose:
            ini = e.val
    ctx.require(ini is not None and eq(ini, ('I',)), 'first', lev.where,
                'the reference pose starts as identity', 'first/pose')
    decide(ctx, f, ali)


def target(it):
    """loop variable given to the matcher as target"""
    al = it.align[0]
    t = [e for e in at(it, al) if e.k == 'call' and e.n == 'SetInputTarget']
    if not t:
        return None
    return next((l for l, s in it.syms.items() if s == t[-1].args[0]), None)


def reported(it):
    return [e.args[1] for e in it.calls('AddPose')] + \
        [s['SetGlobalPose'].args[0] for _, s, _ in it.keyframes()
         if 'SetGlobalPose' in s]


def times(it):
    r = set()
    for e in it.calls('GetTime'):
        if e.obj == it.src:
            r |= {e.res, ('ld', ('*', e.res)), ('*', e.res)}
    return r


def ld_ex(it):
    for e in it.evs:
        if e.k == 'cond':
            for x in T.walk(e.val):
                if x[0] in ('ld', 'fld') and 'extrapolator_' in repr(x)[-40:]:
                    return x
    return ('ld', fld('extrapolator_'))


def at(it, e):
    """events before e"""
    r = []
    for x in it.evs:
        if x is e:
            break
        r.append(x)
    return r


def aligned(ctx, it, tgt, pose):
    ctx.require(len(it.align) == 1, 'align', it.align[-1].where, 'a scan is '
                'aligned %d times' % len(it.align), 'align/once')
    al = it.align[0]
    before = at(it, al)
    sr = [e for e in before if e.k == 'call' and e.n == 'SetInputSource']
    ctx.require(bool(sr) and sr[-1].args[0] == ('&', it.src), 'source', al.where,
                'the cloud aligned is not the new scan', 'align/source')
    X = it.syms[pose]
    has_ex = it.cond(T.cmp('==', ld_ex(it), NULL)) is False
    ts = times(it)
    E = X
    if has_ex:
        ep = [e for e in before if e.k == 'call' and e.n == 'ExtrapolatePose']
        ctx.require(bool(ep) and all(e.args[0] in ts for e in ep), 'guess',
                    al.where, 'the pose is not extrapolated to the time of the '
                    'scan', 'align/time')
        if ep:
            E = ep[-1].res
    ctx.require(eq(al.args[0], lambda n: mul(n, n.inverse(n.val(X)), n.val(E))),
                'guess', al.where, 'the guess is not the %s pose relative to '
                'the reference pose' % ('extrapolated' if has_ex else 'last'),
                'align/guess')
    fin = final(it)
    want = lambda n: mul(n, n.val(X), n.val(fin))
    adds = it.calls('AddPose')
    for e in adds:
        ctx.require(eq(e.args[1], want), 'chain', e.where, 'the pose reported '
                    'is not the reference pose times the alignment result',
                    'chain/add')
        ctx.require(e.args[0] in ts, 'report', e.where, 'the pose is not '
                    'reported with the time of the scan', 'report/time')
    ctx.require(len(adds) == (1 if has_ex else 0), 'report', al.where,
                'an aligned pose is reported %d times to the extrapolator' %
                len(adds), 'report/once')
    kf = it.keyframes()
    ctx.require(len(kf) <= 1, 'keyframe', al.where, 'a scan is inserted %d times'
                % len(kf), 'keyframe/once')
    for fr, s, e in kf:
        frame(ctx, it, fr, s, e, want)
        v = it.end(tgt) if tgt else None
        ctx.require(tgt is None or v == ('&', it.src), 'together', e.where,
                    'with the key frame the reference cloud becomes %s' %
                    T.show(v)[:60], 'together/cloud')
        ctx.require(eq(it.end(pose), want), 'together', e.where, 'with the key '
                    'frame the reference pose does not become its pose',
                    'together/pose')


def frame(ctx, it, fr, s, e, want):
    g = s.get('SetGlobalPose')
    ctx.require(g is not None and eq(g.args[0], want), 'chain', e.where,
                'the key frame does not get the pose of the scan', 'chain/key')
    cl = s.get('SetCloud')
    ctx.require(cl is not None and cl.args[0] == ('&', it.src), 'keyframe',
                e.where, 'the key frame does not hold the new scan',
                'keyframe/cloud')
    ts = times(it)
    ok = any(x.k == 'write' and T.is_prefix(fr, x.loc) and x.val in ts or
             x.k == 'call' and x.n == 'SetTimeStamp' and x.obj == fr and
             x.args[0] in ts for x in it.evs)
    ctx.require(ok, 'keyframe', e.where, 'the key frame does not carry the time '
                'of the scan', 'keyframe/time')


def final(it):
    """the transform the scan ends up with: what the alignment produced or, with
    averaging switched on, the average of that and the guess"""
    al = it.align[0]
    hv = outval(it, al)
    on = [it.cond(e.val) for e in it.evs if e.k == 'cond' and
          repr(e.val).endswith("'enable'))")]
    av = [e for e in it.calls('AverageTransforms')]
    avg = [e.pol for e in it.evs if e.k == 'cond' and any(
        x[0] in ('f',) and x[-1] == 'use_average' for x in T.walk(e.val)
        if isinstance(x, tuple))]
    if avg and avg[-1] and av:
        return av[-1].res
    return hv


def outval(it, al):
    for e in it.evs:
        for v in (e.val,) + tuple(e.args or ()):
            if isinstance(v, tuple):
                for x in T.walk(v):
                    if x[0] == 'hv' and str(x[2]).startswith('out:Align'):
                        return x
    return ('uninit', 'result')


def first_scan(ctx, it, tgt, pose):
    kf = it.keyframes()
    has_ex = it.cond(T.cmp('==', ld_ex(it), NULL)) is False
    ctx.require(len(kf) == 1, 'first', kf[0][2].where, 'the first scan is '
                'inserted %d times' % len(kf), 'first/once')
    fr, s, e = kf[0]
    frame(ctx, it, fr, s, e, lambda n: n.mat(n.val(('I',))))
    ctx.require(tgt is None or it.end(tgt) == ('&', it.src), 'first', e.where,
                'the first scan does not become the reference cloud',
                'first/target')
    v = it.end(pose)
    ctx.require(v == it.syms[pose] or eq(v, ('I',)), 'first', e.where,
                'the first scan moves the reference pose', 'first/ref')
    ts = times(it)
    adds = it.calls('AddPose')
    ctx.require(len(adds) == (1 if has_ex else 0) and all(
        eq(a.args[1], ('I',)) and a.args[0] in ts for a in adds), 'report',
        e.where, 'the first pose is not reported with the time of the scan',
        'first/report')
    # a flag kept across scans says that this is the first
    flags = [(l, s0) for l, s0 in it.syms.items()
             if it.cond(s0) is False and it.end(l) == T.TRUE or
             it.cond(s0) is True and it.end(l) == T.FALSE or
             it.cond(T.cmp('==', s0, NULL)) is True and l == tgt]
    ctx.require(bool(flags), 'first', e.where, 'nothing keeps a later scan from '
                'being taken as the first', 'first/only')


def option(t):
    """name of the motion filter option a term reads, or None"""
    if t[0] in ('ld', 'fld'):
        r = repr(t)
        for k in ('translation_range', 'angle_range'):
            if k in r and t[-1] is not None:
                l = t[1] if t[0] == 'ld' else t[2]
                if l[0] == 'f' and l[-1] == k:
                    return k
    return None


def decide(ctx, f, table):
    """key frame choice over every order of distance and angle and limits"""
    n = 0
    for seed in SEEDS:
        # one sample geometry per seed; distances and limits vary
        for tr in ('<', '=', '>'):
            for an in ('<', '=', '>'):
                for on in (True, False):
                    fired = {}
                    for it in table:
                        num = Num(seed=seed, rigid=True)
                        g = geometry(num, it)
                        if g is None:
                            ctx.bad('keyframe', f.where(), 'no distance or '
                                    'angle since the reference on this path',
                                    'keyframe/geometry')
                            return
                        d, a = g
                        lim = {'translation_range': {
                            '<': d + 1e-3, '=': d, '>': d - 1e-3}[tr]}
                        if on:
                            lim['angle_range'] = {
                                '<': a + 1e-3, '=': a, '>': a - 1e-3}[an]
                        else:
                            lim['angle_range'] = 1e-4
                        ok = feasible(num, it, lim, d, a, tr, an, on)
                        if ok:
                            k = tuple(sorted((T.show(x), v) for x, v in
                                             modes(it)))
                            fired.setdefault(k, set()).add(
                                (bool(it.keyframes()), it.evs[-1].where))
                    want = tr in '=>' or on and an in '=>'
                    for k, s in fired.items():
                        n += 1
                        got = {x for x, _ in s}
                        ctx.require(got == {want}, 'keyframe', f.where(),
                                    'distance %s limit, angle check %s, angle '
                                    '%s limit: %s' % (
                                        tr, 'on' if on else 'off', an,
                                        'a key frame is ' + (
                                            'made' if got == {True} else
                                            'not made' if got == {False} else
                                            'made or not')),
                                    'keyframe/table')
                    ctx.require(bool(fired), 'keyframe', f.where(), 'the choice '
                                'has an outcome for distance %s limit, angle '
                                '%s limit' % (tr, an), 'keyframe/total')
    ctx.count('key frame table rows', n)


def modes(it):
    """the conditions of the path that are not about distance or angle"""
    r = []
    for e in it.evs:
        if e.k == 'cond' and not any(option(x) for x in T.walk(e.val)):
            r.append((e.val, e.pol))
    return r


def geometry(num, it):
    try:
        m = num.mat(num.val(final(it)))
        d = math.sqrt(sum(m(i, 3) ** 2 for i in range(3)))
        e = it.calls('RotationMatrixToEulerAngles')
        if not e:
            return d, 30.0        # this path never looks at the angle
        src = num.mat(num.val(e[-1].args[0]))
        if not same(src, m, 3, 3, 1e-6):
            return None
        num.over[e[-1].res] = Mat(3, 1, lambda i, j: EULER[num.seed][i])
        return d, sum(abs(x) for x in EULER[num.seed]) * 180 / math.pi
    except NoValue:
        return None


def feasible(num, it, lim, d, a, tr, an, on):
    for e in it.evs:
        if e.k != 'cond':
            continue
        names = {option(x) for x in T.walk(e.val)} - {None}
        if not names:
            continue
        # evaluate with limits in place; an exact tie is decided by the side
        # the term takes when both sides are the very same number
        over = {}
        for x in T.walk(e.val):
            k = option(x)
            if k:
                over[x] = lim[k]
        n2 = Num(over={**num.over, **over}, seed=num.seed, rigid=True)
        k = names.pop()
        v = e.val
        try:
            if v[0] in ('<', '==') and len(v) == 3:
                x, y = n2.num(v[1]), n2.num(v[2])
                tie = tr == '=' if k == 'translation_range' else an == '=' and on
                if tie and close(x, y, 1e-6):
                    x = y
                val = x < y if v[0] == '<' else x == y
            else:
                val = bool(n2.num(v))
        except NoValue:
            continue
        if val != e.pol:
            return False
    return True
