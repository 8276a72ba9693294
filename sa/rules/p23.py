"""Order and completeness of the outputs."""
import itertools
from .. import terms as T
from ..interp import Ev
from ..lib_submap import CLS, Objects, same, clean
from ..paths import THIS, fld
from ..terms import c, NULL, TRUE, FALSE, ZERO
from . import p02

SRCS = ['builder/map_builder.cc', 'builder/submap.cc', 'builder/frame.cc',
        'builder/frame_base.cc', 'builder/trajectory.cc']
EXPLAIN = '''
The end of the connecting stage is followed on all paths for trajectories of 0
to 3 submaps with every pose symbolic: for each output call and each submap the
last change of its pose must come before a refresh of its frames, which comes
after the final optimisation and before the output; nothing may change a pose
between two outputs, every enabled output must be on the path and clouds may be
dropped only after the last one.  The writing of the combined maps is followed
for 1 to 3 submaps with one or two frames, all output switches and part sizes 1
and 2, with clouds as symbolic lists: the saved pieces together must hold each
frame once, moved by its global pose, under distinct names.
'''
ASSUME = ['at the end the collected submaps are complete (P01)',
          'the optimiser leaves its result in the submaps (P16)']
MIN_OBLIGATIONS = 40
S = 'static_map::Submap'
B = 'static_map::MapBuilder'
TR = ('trajectory',)
OUT = ('OutputPathToPointcloud', 'ToXmlNode', 'SaveTrajectoriesAsMapPackage',
       'SaveMaps')


def check(ctx):
    tail(ctx)
    maps(ctx)
    refresh(ctx)


def inl(g):
    return g.n != 'SaveMaps' and mine(g)


def mine(g):
    return g.cls == B or g.id.startswith('lam@') or \
        g.file.endswith('builder/map_builder.cc')


# ------------------------------------------------------------------ the tail
def tail(ctx):
    f = ctx.prog.one(B + '::ConnectAllSubmap')
    ctx.analysed.add(f.id)
    _, tr = p02.members(ctx)
    for m in (0, 1, 2, 3):
        for gps in (False, True):
            M = Objects(more=('static_map::back_end::IsamOptimizer',
                              'static_map::Trajectory',
                              'static_map::data::DataCollector'),
                        quiet=OUT)
            I = ctx.interp(inline=inl, unroll=5, model=M)

            def given(a):
                if 'show_' in T.show(a, -9):
                    return a[0] == '=='
                return None
            I.given = given
            st = I.init_state()
            trs = [x['n'] for x in ctx.prog.record(B)['fields']
                   if 'Trajectory' in ctx.prog.record(B)['tu'].types[x['t']]
                   and 'vector' in ctx.prog.record(B)['tu'].types[x['t']]]
            for n in trs:
                I.store(st, ('f', fld(n), '#size'), c(1), quiet=True)
                I.store(st, ('[]', fld(n), ZERO), ('&', TR), quiet=True)
            I.store(st, tr, ('&', TR), quiet=True)
            I.store(st, ('f', TR, '#size'), c(m), quiet=True)
            for j in range(m):
                I.store(st, ('[]', TR, c(j)), ('&', ('sub', j)), quiet=True)
            I.store(st, fld('use_gps_'), c(gps), quiet=True)
            outs = I.run(f, state=st)
            rets = [o for o in outs if o.kind == 'ret']
            if not ctx.require(bool(rets), 'finished', f.where(), 'the stage '
                               'comes to an end', 'end'):
                continue
            ctx.count('paths to the end', len(rets))
            for o in rets:
                one_tail(ctx, f, I, o, m, gps)


def one_tail(ctx, f, I, o, m, gps):
    evs = [e for e in o.events() if e.k == 'call']

    def want(cond, msg, key):
        return ctx.require(cond, 'outputs', f.where(), '%d submaps: %s' % (
            m, msg), key)

    def at(name):
        return [k for k, e in enumerate(evs) if e.n == name]
    opt = at('RunFinalOptimazation')
    if not want(len(opt) == 1, 'the final optimisation runs once', 'optimise'):
        return
    add = at('AddFrame')
    want(not add or max(add) < opt[0], 'it runs after the last submap was '
         'connected', 'last')
    outs = sorted(k for n in OUT for k in at(n))
    kitti = [k for k, e in enumerate(evs) if e.n == 'operator<<' and any(
        T.occurs(('f', ('sub', j), '#GlobalPose'), a) for j in range(m)
        for a in e.args or ())]
    for n in ('OutputPathToPointcloud', 'ToXmlNode', 'SaveMaps'):
        want(len(at(n)) == 1, 'the output is made once: ' + n, n)
    pk = at('SaveTrajectoriesAsMapPackage')
    on = switch(o.st.pc, 'map_package_options', 'enable')
    want(len(pk) == (1 if on else 0), 'the map package is written exactly when '
         'enabled', 'package')
    sm = at('SaveMaps')
    if pk and sm:
        want(pk[0] < sm[0], 'the package comes before the combined maps, which '
             'drop the clouds', 'before')
    drop = at('ClearAllCloud') + at('ClearCloud') + at('ClearCloudInFrames')
    want(not drop or outs and min(drop) > max(outs + kitti), 'clouds are dropped '
         'after the last output', 'dropped')
    want(not outs or min(outs) > opt[0], 'nothing is written before the final '
         'optimisation', 'early')
    for j in range(m):
        sub = ('sub', j)
        chg = opt + [k for k, e in enumerate(evs) if e.n == 'SetGlobalPose' and
                     e.obj == sub and k > opt[0]]
        ref = [k for k, e in enumerate(evs) if e.n == 'UpdateInnerFramePose' and
               e.obj == sub]
        for k in outs:
            last = max([x for x in chg if x < k], default=-1)
            want(any(last < r < k for r in ref), 'frames follow the final pose of '
                 'their submap before an output', 'refresh')
        want(not outs or not [x for x in chg if x > min(outs + kitti)],
             'no pose changes between the outputs', 'between')
        sets = [e for e in evs[opt[0]:] if e.n == 'SetGlobalPose' and
                e.obj == sub]
        if gps:
            g = [e for e in evs if e.n == 'GetGpsCoordTransform']
            own = [e.res for e in evs[opt[0]:] if e.n == 'GlobalPose' and
                   e.obj == sub]
            ok = len(sets) == 1 and bool(g) and bool(own) and same(
                sets[0].args[0], T.mm(gterm(g[0]), own[0]))
            want(ok, 'with gps every submap moves once by the coordinate '
                 'transform', 'georeferenced')
        else:
            want(not sets, 'without gps no submap is moved', 'moved')
    if on_kitti(o.st.pc) and m:
        want(len(kitti) >= m, 'the pose list holds every submap', 'kitti')
    bk = [e for e in evs if e.n == 'SetMatchedTransformedToNext']
    want([e.obj for e in bk] == ([('sub', m - 1)] if m else []),
         'the last submap is completed too', 'complete')


def gterm(e):
    return ('ld', ('f', e.obj, '#GetGpsCoordTransform'))


def switch(pc, *names):
    for a, pol in pc.items():
        s = T.show(a, -9)
        if all(n in s for n in names):
            return pol
    return None


def on_kitti(pc):
    w = [pol for a, pol in pc.items() if 'output_kitti_pose' in T.show(a, -9)]
    o = [pol for a, pol in pc.items() if 'is_open' in T.show(a, -9)]
    return bool(w and w[0] and (not o or o[0]))


# ------------------------------------------------------------- combined maps
class Model(p02.Clouds):
    def __init__(self):
        self.o = Objects()

    def __call__(self, I, fn, fr, i, n, st):
        f = n.get('fn') or {}
        q, nm, cls = f.get('q', ''), f.get('n', ''), f.get('c', '') or ''
        if n['k'] == 'ctor' and cls.endswith('MultiResolutionVoxelMap'):
            return I.set(st, i, ('obj', 'mrvm', I.fresh()[1]))
        if n['k'] == 'call':
            if nm == 'ToPclPointCloud' and len(n['a']) == 2:
                a = I.lloc(fn, st, n['a'][0])
                b = I.deref(I.rvalue(fn, st, n['a'][1]))
                self.put(I, st, b, self.get(I, st, a))
                return I.set(st, i, ('void',))
            if nm == 'savePCDFileBinaryCompressed':
                a = I.lloc(fn, st, n['a'][1])
                I.ev(st, Ev('call', fn, i, q=q, n=nm, frame=fr,
                            args=(self.text(I, fn, st, n['a'][0]),),
                            val=self.get(I, st, a)))
                return I.set(st, i, c(0))
            if cls.startswith('pcl::PointCloud') and n.get('obj') is not None:
                o = self.obj(I, fn, st, n)
                if nm == 'operator+=':
                    a = I.lloc(fn, st, n['a'][0])
                    self.put(I, st, o, ('cat', self.get(I, st, o),
                                        self.get(I, st, a)))
                    return I.set(st, i, ('&', o))
                if nm == 'empty':
                    return I.set(st, i, c(self.get(I, st, o) == ('none',)))
                if nm == 'operator=' or nm == 'swap':
                    a = I.lloc(fn, st, n['a'][0])
                    x, y = self.get(I, st, o), self.get(I, st, a)
                    self.put(I, st, o, y)
                    if nm == 'swap':
                        self.put(I, st, a, x)
                    return I.set(st, i, ('&', o))
                if nm == 'clear':
                    self.put(I, st, o, ('none',))
                    return I.set(st, i, ('void',))
            if cls.endswith('MultiResolutionVoxelMap') and \
                    n.get('obj') is not None:
                o = self.obj(I, fn, st, n)
                vs = tuple(I.rvalue(fn, st, a) for a in n['a'])
                if nm != 'InsertPointCloud':
                    vs = tuple(I.load(st, v[1]) if v[0] == '&' else v
                               for v in vs)
                val = None
                if nm == 'InsertPointCloud':
                    val = self.of(I, st, vs[0])
                    L = ('f', o, '#pts')
                    self.put(I, st, o, ('cat', self.get(I, st, o), val))
                if nm == 'OutputToPointCloud':
                    val = self.get(I, st, o)
                I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls, frame=fr, obj=o,
                            args=vs, val=val))
                return I.set(st, i, ('void',))
            if nm in ('Cloud', 'GetId') and cls in CLS:
                o = self.o.obj(I, fn, st, n)
                I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls, obj=o, args=(),
                            frame=fr))
                return I.set(st, i, I.load(st, (
                    'f', o, 'id_' if nm == 'GetId' else '#Cloud')))
        r = p02.Clouds.model(self, I, fn, fr, i, n, st)
        if r is not None:
            return r
        return self.o(I, fn, fr, i, n, st)


    def text(self, I, fn, st, a):
        v = I.rvalue(fn, st, a)
        return I.load(st, v[1]) if v[0] == '&' else v


def maps(ctx):
    f = ctx.prog.one(B + '::SaveMaps')
    ctx.analysed.add(f.id)
    runs = 0
    for m, sep, step in ((1, False, 1), (2, False, 1), (3, False, 2),
                         (1, True, 1), (2, True, 1), (3, True, 2),
                         (2, True, 3)):
        for direct, static in itertools.product((False, True), repeat=2):
            runs += one_map(ctx, f, m, sep, step, direct, static)
    ctx.count('map writing scenarios', runs)


def one_map(ctx, f, m, sep, step, direct, static):
    _, tr = p02.members(ctx)
    M = Model()
    I = ctx.interp(inline=mine,
                   unroll=5, model=M)
    st = I.init_state()
    I.store(st, tr, ('&', TR), quiet=True)
    I.store(st, ('f', TR, '#size'), c(m), quiet=True)
    frames = []
    for j in range(m):
        s = ('sub', j)
        I.store(st, ('[]', TR, c(j)), ('&', s), quiet=True)
        I.store(st, ('f', ('f', s, 'id_'), 'submap_index'), c(j), quiet=True)
        k = 1 + (j + 1) % 2
        L = ('f', s, '#frames')
        I.store(st, ('f', L, '#size'), c(k), quiet=True)
        for i in range(k):
            fr = ('frame', j, i)
            frames.append((j, i))
            I.store(st, ('[]', L, c(i)), ('&', fr), quiet=True)
            I.store(st, ('f', fr, '#Cloud'), ('&', ('data', (j, i))), quiet=True)
    w = ('f', fld('options_'), 'whole_options')
    for n, v in (('output_direct_combined_map', direct), ('output_mrvm', static),
                 ('separate_output', sep), ('separate_step', step)):
        I.store(st, ('f', w, n), c(v), quiet=True)
    outs = I.run(f, state=st)
    what = '%d submaps%s' % (m, ' in parts of %d' % step if sep else '')

    def want(cond, msg, key):
        return ctx.require(cond, 'combined map', f.where(), '%s: %s' % (
            what, msg), key)
    rets = [o for o in outs if o.kind == 'ret']
    if not want(bool(rets) and not [o for o in outs if o.kind == 'back'],
                'the writing ends', 'ends'):
        return 1
    exp = sorted(repr(x) for x in frames)
    for o in rets:
        evs = [e for e in o.events() if e.k == 'call']
        for on, name, word in ((direct, 'savePCDFileBinaryCompressed', 'direct'),
                               (static, 'OutputToPointCloud', 'static')):
            got = [(k, e) for k, e in enumerate(evs) if e.n == name]
            if not on:
                want(not got, 'no %s map unless asked for' % word, word + 'off')
                continue
            items, ok = [], True
            for k, e in got:
                for x in p02.flatten(e.val or ('none',)):
                    j = owner(x)
                    ok = ok and j is not None
                    if j is not None:
                        items.append(j)
            want(ok, 'the %s map holds frames moved by their global pose' % word,
                 word + 'pose')
            want(sorted(repr(x) for x in items) == exp, 'the %s map holds every '
                 'frame once' % word, word + 'once')
            nm = [repr(e.args) for _, e in got]
            want(len(set(nm)) == len(nm), 'every piece of the %s map has its own '
                 'file' % word, word + 'name')
            if sep:
                want(len(got) == -(-m // step), 'as many parts as asked for',
                     word + 'parts')
            else:
                want(len(got) == 1, 'one file for the %s map' % word,
                     word + 'one')
        ready = set()
        for e in evs:
            if e.n == 'Initialise' and e.obj and e.obj[0] != 'this':
                ready.add(e.obj)
            if e.n == 'InsertPointCloud':
                want(e.obj in ready, 'the voxel map is set up before use', 'setup')
                j = [owner(x) for x in p02.flatten(e.val or ('none',))]
                fr = ('frame',) + j[0] if len(j) == 1 and j[0] else None
                want(fr is not None and any(
                    T.occurs(('ld', ('f', fr, n)), e.args[1]) for n in
                    ('#GlobalTranslation', '#GlobalPose')),
                    'a cloud enters with the place of its own frame', 'place')
        # a cloud is used before it is dropped
        for k, e in enumerate(evs):
            if e.n in ('ClearCloud', 'ClearCloudInFrames') and e.obj and \
                    e.obj[0] == 'sub':
                late = [x for x in evs[k:] if x.n in ('Cloud',) and x.obj and
                        x.obj[0] == 'frame' and x.obj[1] == e.obj[1]]
                want(not late, 'no cloud is asked for after it was dropped',
                     'late')
    return 1


def owner(x):
    """(submap, frame) of a list item if it is moved by the right pose"""
    if x[0] != 'moved' or x[2][0] != 'src' or x[2][1][0] != 'cloud':
        return None
    j, i = x[2][1][1]
    return (j, i) if clean(x[1]) == ('ld', ('f', ('frame', j, i),
                                            '#GlobalPose')) else None


# ------------------------------------------------------------------- refresh
def refresh(ctx):
    """frames get the pose of the submap times their own"""
    f = ctx.prog.one(S + '::UpdateInnerFramePose')
    ctx.analysed.add(f.id)
    for k in (0, 1, 3):
        M = Objects()
        I = ctx.interp(unroll=5, model=M)
        st = I.init_state()
        L = fld('frames_')
        I.store(st, ('f', L, '#size'), c(k), quiet=True)
        for j in range(k):
            I.store(st, ('[]', L, c(j)), ('&', ('frame', j)), quiet=True)
        for o in I.run(f, state=st):
            if o.kind != 'ret':
                continue
            ev = [e for e in o.events() if e.k == 'call' and
                  e.n == 'SetGlobalPose']
            ok = sorted(e.obj for e in ev) == [('frame', j) for j in range(k)] \
                and all(same(e.args[0], T.mm(
                    ('ld', fld('global_pose_')), ('ld', (
                        'f', e.obj, '#LocalPose')))) for e in ev)
            ctx.require(ok, 'refreshed', f.where(), '%d frames: each gets the '
                        'pose of the submap times its own' % k, 'refresh')
