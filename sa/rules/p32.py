"""Poses stored in frames and submaps."""
from .. import terms as T
from ..mat import elem, rotation_of
from ..paths import THIS, fld, ld, truth_of
from ..terms import c, NULL

SRCS = ['builder/frame_base.cc', 'builder/frame.cc', 'builder/submap.cc']
EXPLAIN = '''
Every write to a stored pose, in every function of the frame and submap classes,
is evaluated cell by cell at the end of each path: the rotation cells must be
those of a normalised quaternion built from the rotation cells of the given
matrix and the other cells must be the given ones; a pose copied from the stored
pose of another frame or set to identity is normalised already.  Each getter is
evaluated cell by cell against the field its setter writes.  Optional values
must be stored as given and the getter's paths with nothing stored must not
return.
'''
MIN_OBLIGATIONS = 18
POSES = ('global_pose_', 'local_pose_')
B = 'static_map::FrameBase'
OPQ = ('CalculateNormals', 'InsertPointCloud', 'ApplyTransformToOutput',
       'Filter', 'InitFromXmlText', 'SetInputCloud', 'InnerPointCloudData',
       'SaveToFile', 'Clear', 'CloudInMemory')


def normalised(v):
    """None if the value is a normalised pose, else why not; second: source"""
    if v == ('I',):
        return None, v
    if v[0] == 'ld' and v[1][0] == 'f' and v[1][2] in POSES:
        return None, v
    rot = {elem(v, r, k) for r in range(3) for k in range(3)}
    src = None
    for r in range(3):
        for k in range(3):
            e = elem(v, r, k)
            if e[0] != 'cell' or (e[2], e[3]) != (r, k):
                return 'its rotation is not normalised', None
            R = rotation_of(e[1])
            if R is None:
                return 'its rotation is not normalised', None
            if src is None:
                src = R
            elif src != R:
                return 'its rotation mixes sources', None
    s0 = elem(src, 0, 0)
    if all(elem(src, r, k) == (T.ONE if r == k else T.ZERO)
           for r in range(3) for k in range(3)):
        M = ('I',)
    elif s0[0] != 'cell':
        return 'its rotation is not taken from the given pose', None
    else:
        M = s0[1]
    for r in range(3):
        for k in range(3):
            if elem(src, r, k) != elem(M, r, k):
                return 'its rotation is not that of the given pose', None
    for r, k in ((0, 3), (1, 3), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3)):
        if elem(v, r, k) != elem(M, r, k):
            return 'cell (%d,%d) is %s' % (r, k, T.show(elem(v, r, k))[:80]), None
    return None, M


def check(ctx):
    p = ctx.prog
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file or '', f.line)):
        if f.nocfg or f.cls not in (B, 'static_map::Frame',
                                    'static_map::Submap') or \
                f.kind == 'dtor':
            continue
        if not any(nd['k'] == 'mem' and nd.get('n') in POSES for nd in f.nodes) \
                and not any((nd.get('fn') or {}).get('n') in (
                    'SetLocalPose', 'SetGlobalPose') for _, nd in f.calls()):
            continue
        I = ctx.interp(opaque=OPQ)
        seen = set()
        for o in I.run(f):
            if o.kind not in ('ret', 'back'):
                continue
            locs = {}
            for e in o.events():
                if e.k == 'write' and isinstance(e.loc, tuple):
                    l = e.loc
                    while l[0] in ('[]',):
                        l = l[1]
                    if l[0] == 'f' and l[2] in POSES:
                        locs[l] = e
            for l, e in locs.items():
                v = I.full(o.st, l)
                if (l, v) in seen:
                    continue
                seen.add((l, v))
                why, src = normalised(v)
                n += 1
                ctx.require(not why, 'stored-normalised', e.where, '%s leaves '
                            'in %s %s' % (f.q, T.show(l)[:60], why and
                                          'a pose: ' + why or
                                          'a normalised pose'),
                            f.n + '/' + l[2])
                if f.n in ('SetGlobalPose', 'SetLocalPose') and not why:
                    want = fld({'SetGlobalPose': 'global_pose_',
                                'SetLocalPose': 'local_pose_'}[f.n])
                    ctx.require(l == want and T.has(src, f.params[0]['n']),
                                'setter-target', e.where, '%s stores the given '
                                'pose in %s' % (f.n, l[2]), f.n + '/target')
    ctx.need(n >= 3, 'pose setters')
    # every setter writes
    PAIRS = [('SetGlobalPose', 'GlobalPose', 'global_pose_'),
             ('SetLocalPose', 'LocalPose', 'local_pose_'),
             ('SetTransformToNext', 'TransformToNext',
              'transform_to_next_frame_'),
             ('SetTransformFromLast', 'TransformFromLast',
              'transform_from_last_frame_')]
    for s, g, name in PAIRS:
        fs, fg = p.one(B + '::' + s), p.one(B + '::' + g)
        I = ctx.interp()
        a = ('arg', fs.params[0]['n'], 0)
        got = None
        for o in I.run(fg):
            if o.kind == 'ret':
                v = o.val
                x = elem(v, 0, 0)
                got = x[1][1] if x[0] == 'cell' and x[1][0] == 'ld' else None
                ok = got is not None and got[0] == 'f' and got[1] == THIS and \
                    all(elem(v, r, k) == ('cell', ld(got), r, k)
                        for r in range(4) for k in range(4))
                ctx.require(ok, 'getter', fg.where(), '%s returns the stored '
                            'matrix cell by cell' % g, g)
        I = ctx.interp()
        for o in I.run(fs):
            if o.kind != 'ret':
                continue
            w = {base(e.loc) for e in o.events() if e.k == 'write' and
                 e.loc[0] in ('f', '[]')} - {None}
            ctx.require(got in w and len([x for x in w if x[1] == THIS]) == 1,
                        'setter-getter', fs.where(), '%s writes what %s '
                        'returns and nothing else' % (s, g), s + '/pair')
            if 'Transform' in s and got is not None:
                v = I.full(o.st, got)
                ctx.require(all(elem(v, r, k) == ('cell', ld(a), r, k)
                                for r in range(4) for k in range(4)),
                            'setter-value', fs.where(), '%s stores the given '
                            'matrix' % s, s + '/value')
    for g, name, r0, c0, nr, nc in (
            ('GlobalRotation', 'global_pose_', 0, 0, 3, 3),
            ('LocalRotation', 'local_pose_', 0, 0, 3, 3),
            ('GlobalTranslation', 'global_pose_', 0, 3, 3, 1),
            ('LocalTranslation', 'local_pose_', 0, 3, 3, 1)):
        fn = p.one(B + '::' + g)
        I = ctx.interp()
        for o in I.run(fn):
            if o.kind == 'ret':
                bad = [(r, k) for r in range(nr) for k in range(nc)
                       if elem(o.val, r, k) != ('cell', ld(fld(name)), r + r0,
                                                k + c0)]
                ctx.require(not bad, 'getter', fn.where(), '%s: %s' % (
                    g, 'cells of the stored pose' if not bad else
                    'entry %s is %s' % (bad[0], T.show(
                        elem(o.val, *bad[0]))[:80])), g)
    # --- optional values
    for s, g, h in (('SetRelatedGpsInENU', 'GetRelatedGpsInENU', 'HasGps'),
                    ('SetRelatedOdom', 'GetRelatedOdom', 'HasOdom')):
        fs, fg, fh = (p.one(B + '::' + x) for x in (s, g, h))
        I = ctx.interp()
        a = ('arg', fs.params[0]['n'], 0)
        for o in I.run(fs):
            w = [e for e in o.events() if e.k == 'write' and e.loc[0] == 'f' and
                 e.loc[1] == THIS]
            ok = len(w) == 1
            if ok:
                loc = w[0].loc
                v = I.load(o.st, loc)
                ok = v[0] == '&' and I.full(o.st, v[1]) == ld(a)
            ctx.require(ok, 'optional', fs.where(), '%s stores what it is given'
                        % s, s)
        if not ok:
            continue
        for o in ctx.interp().run(fh):
            t, pol = T.lit(o.val)
            ctx.require(o.kind == 'ret' and t == T.cmp('==', ld(loc), NULL) and
                        not pol, 'optional', fh.where(), '%s says whether a '
                        'value is attached' % h, h)
        for o in ctx.interp().run(fg):
            if o.kind == 'ret':
                ctx.require(o.val == ld(('*', ld(loc))) and
                            truth_of(o.st.pc, T.cmp('==', ld(loc), NULL))
                            is False, 'optional', fg.where(), '%s returns the '
                            'attached value and refuses when there is none' % g,
                            g)


def base(l):
    while l[0] == '[]':
        l = l[1]
    return l if l[0] == 'f' else None
