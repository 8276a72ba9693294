"""Key frames are grouped into submaps."""
from .. import terms as T
from ..interp import Ev
from ..num import Num, NoValue
from ..paths import THIS, fld
from ..terms import c, NULL, TRUE, FALSE, ZERO
from .p32 import normalised

SRCS = ['builder/submap.cc', 'builder/frame.cc', 'builder/frame_base.cc',
        'builder/map_builder.cc', 'builder/trajectory.cc']
EXPLAIN = '''
Adding a frame is followed on all paths for a submap holding 0 to 2 frames with
room for 1 to 3 (every field of every frame symbolic): the new frame's ids, its
pose in the submap, the submap's pose and time, the stored sequence and the full
mark are compared with the specification, and the cloud built when it gets full
is computed as a symbolic list of moved clouds.  The grouping loop is followed
for one arbitrary pass with 1 to 3 frames per submap: the frames taken must be
the ones at the carried position and after, the position must move on by as many
(and not at all on a waiting pass), the index given to the submap must be the
number of submaps published before, and publication must come after the last
frame.
'''
ASSUME = ['frames are appended by scan matching only (P29)',
          'moving and concatenating clouds does what P27 says']
MIN_OBLIGATIONS = 30
S = 'static_map::Submap'
B = 'static_map::MapBuilder'
CL = 'static_map::data::InnerCloudType'
DATA = 'static_map::data::InnerPointCloudData'
G, L = 'global_pose_', 'local_pose_'


def check(ctx):
    inserting(ctx)
    grouping(ctx)


# ---------------------------------------------------------------- one submap
def pts(I, st, loc):
    v = I.load(st, ('f', loc, '#pts'))
    return v


class Clouds:
    """clouds as symbolic lists of points"""

    def model(self, I, fn, fr, i, n, st):
        f = n.get('fn') or {}
        q, nm, cls = f.get('q', ''), f.get('n', ''), f.get('c', '')
        if n['k'] == 'ctor':
            if cls == CL and not n.get('a'):
                return None
            if cls == DATA and len(n.get('a') or ()) == 1:
                v = I.rvalue(fn, st, n['a'][0])
                loc = n.get('loc')
                I.ev(st, Ev('call', fn, i, q='made', n='made', c=cls, args=(v,),
                            frame=fr, val=self.of(I, st, v)))
                return I.set(st, i, ('made', v, self.of(I, st, v),
                                     self.stamp(I, st, v)))
            return None
        if n['k'] != 'call' or n.get('obj') is None:
            return None
        if nm == 'GetInnerCloud':
            o = self.obj(I, fn, st, n)
            while o[0] in ('*', 'ld', '&'):
                o = o[1]
            if o[0] == 'data':
                return I.set(st, i, ('ld', ('cloud', o[1])))
        if nm == 'CloudInMemory':
            return I.set(st, i, TRUE)
        if nm in ('CalculateNormals', 'reserve', 'shrink_to_fit') and \
                cls in (DATA,):
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls,
                        obj=self.obj(I, fn, st, n), args=(), frame=fr))
            return I.set(st, i, ('void',))
        if q == CL + '::ApplyTransformToOutput':
            a = I.deref(I.rvalue(fn, st, n['a'][1]))
            o = self.obj(I, fn, st, n)
            self.put(I, st, a, ('moved', I.rvalue(fn, st, n['a'][0]),
                                self.get(I, st, o)))
            I.store(st, ('f', a, 'stamp'), I.load(st, ('f', o, 'stamp')),
                    quiet=True)
            return I.set(st, i, ('void',))
        if q == CL + '::ApplyTransformInplace':
            o = self.obj(I, fn, st, n)
            self.put(I, st, o, ('moved', I.rvalue(fn, st, n['a'][0]),
                                self.get(I, st, o)))
            return I.set(st, i, ('void',))
        if q == CL + '::operator+=':
            a = I.lloc(fn, st, n['a'][0])
            o = self.obj(I, fn, st, n)
            self.put(I, st, o, ('cat', self.get(I, st, o), self.get(I, st, a)))
            return I.set(st, i, ('void',))
        if nm == 'operator=' and cls == CL:
            a = I.lloc(fn, st, n['a'][0])
            o = self.obj(I, fn, st, n)
            self.put(I, st, o, self.get(I, st, a))
            I.store(st, ('f', o, 'stamp'), I.load(st, ('f', a, 'stamp')),
                    quiet=True)
            return I.set(st, i, ('void',))
        if nm == 'SetInputCloud':
            o = self.obj(I, fn, st, n)
            I.store(st, ('f', o, '#in'), I.rvalue(fn, st, n['a'][0]), quiet=True)
            return I.set(st, i, ('void',))
        if nm == 'Filter':
            o = self.obj(I, fn, st, n)
            a = I.deref(I.rvalue(fn, st, n['a'][0]))
            v = I.load(st, ('f', o, '#in'))
            if v[0] == '&':
                self.put(I, st, a, ('filtered', cls, self.get(I, st, v[1])))
                I.store(st, ('f', a, 'stamp'), I.load(
                    st, ('f', v[1], 'stamp')), quiet=True)
                return I.set(st, i, ('void',))
        if nm == 'empty' and n['k'] == 'call' and 'vector' in q:
            o = self.obj(I, fn, st, n)
            if o[0] == 'f' and o[2] == 'points':
                return I.set(st, i, FALSE)
        return None

    def obj(self, I, fn, st, n):
        return I.deref(I.ptr(fn, st, n['obj'])) if n.get('arrow') else \
            I.lloc(fn, st, n['obj'])

    def get(self, I, st, loc):
        loc = at(loc)
        return st.store.get(('f', loc, '#pts'), ('src', loc)
                            if loc[0] == 'cloud' else ('none',))

    def put(self, I, st, loc, v):
        I.store(st, ('f', at(loc), '#pts'), v, quiet=True)

    def of(self, I, st, v):
        return self.get(I, st, v[1]) if v[0] == '&' else None

    def stamp(self, I, st, v):
        return I.load(st, ('f', v[1], 'stamp')) if v[0] == '&' else None


def at(loc):
    """the place of the cloud of a frame, however it was reached"""
    x = loc
    while x and x[0] in ('*', 'ld', '&') and isinstance(x[1], tuple):
        x = x[1]
    return x if x and x[0] == 'cloud' else loc


def flatten(t):
    if t[0] == 'cat':
        return flatten(t[1]) + flatten(t[2])
    if t == ('none',):
        return []
    return [t]


def inserting(ctx):
    p = ctx.prog
    f = p.one(S + '::InsertFrame')
    ctx.analysed.add(f.id)
    for N in (1, 2, 3):
        for k in range(N):
            for vox in (False, True):
                one_insert(ctx, f, N, k, vox)
    # a full submap and a missing frame are refused
    for full, arg in ((True, ('&', ('frame', 0))), (False, NULL)):
        I, st = setup(ctx, 2, 0, False, full)
        for o in run(I, f, st, arg):
            ctx.require(o.kind != 'ret', 'refused', f.where(),
                        'a full submap takes no frame' if full else
                        'a missing frame is not taken', 'refused')


def run(I, f, st, arg):
    I.store(st, ('slot',), arg, quiet=True)
    I.outs = []
    return I.run(f, args=[('&', ('slot',))], state=st)


def setup(ctx, N, k, vox, full=False):
    M = Clouds()
    I = ctx.interp(model=M.model, unroll=4, narrow=True, opaque=(
        'InitFromXmlText', 'InsertPointCloud', 'CHECK_CLOUD'))
    st = I.init_state()
    fr = fld('frames_')
    I.store(st, ('f', fr, '#size'), c(k), quiet=True)
    for j in range(k + 1):
        if j < k:
            I.store(st, ('[]', fr, c(j)), ('&', ('frame', j)), quiet=True)
        I.store(st, ('f', ('frame', j), 'inner_cloud_'), ('&', ('data', j)),
                quiet=True)
    o = fld('options_')
    I.store(st, ('f', o, 'frame_count'), c(N), quiet=True)
    I.store(st, fld('full_'), c(full), quiet=True)
    for n, v in (('enable_inner_mrvm', False), ('enable_check', False),
                 ('enable_voxel_filter', vox)):
        I.store(st, ('f', o, n), c(v), quiet=True)
    return I, st


def one_insert(ctx, f, N, k, vox):
    what = 'frame %d of %d' % (k + 1, N)
    I, st = setup(ctx, N, k, vox)
    new = ('frame', k)
    outs = run(I, f, st, ('&', new))
    rets = [o for o in outs if o.kind == 'ret']
    if not ctx.require(bool(rets), 'taken', f.where(), what +
                       ' is accepted by a submap with room', 'taken'):
        return
    ctx.count('insertion paths', len(rets))
    for o in rets:
        s = o.st

        def want(cond, msg, key):
            ctx.require(cond, 'frame added', f.where(),
                        '%s: %s' % (what, msg), key)
        fr = fld('frames_')
        want(I.load(s, ('f', fr, '#size')) == c(k + 1) and all(
            I.load(s, ('[]', fr, c(j))) == ('&', ('frame', j))
            for j in range(k + 1)), 'kept after the earlier ones', 'kept')
        want(truth(I.load(s, fld('full_'))) == (k + 1 == N),
             'the submap is full exactly when it has all its frames', 'full')
        idl = ('f', new, 'id_')
        want(I.load(s, ('f', idl, 'frame_index')) == c(k),
             'its own index is its position', 'index')
        for n in ('submap_index', 'trajectory_index'):
            want(I.load(s, ('f', idl, n)) == ('ld', ('f', fld('id_'), n)),
                 'it carries the %s of the submap' % n.replace('_', ' '), n)
        g0 = ('ld', ('f', ('frame', 0), G))
        gk = ('ld', ('f', new, G))
        own = I.full(s, fld(G))
        if k == 0:
            want(source(own) == gk, 'the submap starts at the pose of its first '
                 'frame', 'pose')
            want(same_fields(I, s, fld('stamp_'), ('f', new, 'stamp_')),
                 'the submap gets the time of its first frame', 'time')
            loc = I.full(s, ('f', new, L))
            want(source(loc) == ('I',) or loc == ('I',),
                 'the first frame is the origin', 'origin')
        else:
            want(own == ('ld', fld(G)), 'the pose of the submap stays', 'pose')
            want(same_fields(I, s, fld('stamp_'), fld('stamp_')),
                 'the time of the submap stays', 'time')
            loc = I.full(s, ('f', new, L))
            src = source(loc)
            want(src is not None and relative(src, ('ld', fld(G)), gk),
                 'its pose is taken relative to the submap', 'relative')
        want(I.full(s, ('f', new, G)) == gk, 'its global pose is not touched',
             'global')
        built = [e for e in o.events() if e.k == 'call' and e.q == 'made']
        v = I.load(s, fld('inner_cloud_'))
        if k + 1 < N:
            want(not built and v == ('ld', fld('inner_cloud_')),
                 'no cloud before the submap is full', 'early')
            continue
        m = made(I, s, v)
        if not ctx.require(m is not None, 'cloud built', f.where(), what +
                           ': a full submap has a cloud', 'cloud'):
            continue
        body, stamp = m
        if vox:
            want(body[0] == 'filtered' and body[1].endswith('VoxelGrid'),
                 'the cloud is thinned when asked for', 'thinned')
            if body[0] == 'filtered':
                body = body[2]
        parts = flatten(body)
        exp = []
        for j in range(k + 1):
            exp.append((('src', ('cloud', j)), I.full(s, ('f', ('frame', j), L))))
        got = []
        for x in parts:
            if x[0] == 'moved':
                got.append((x[2], x[1]))
            else:
                got.append((x, ('I',)))
        want(sorted(map(repr, map(norm, exp))) ==
             sorted(map(repr, map(norm, got))),
             'the cloud is made of each frame moved by its pose in the submap, '
             'once', 'union')
        want(stamp_of(stamp) == ('cloud', 0),
             'the cloud is stamped like the first frame', 'stamp')


def stamp_of(v):
    while v and v[0] in ('ld', 'fld') and isinstance(v[1], tuple) and \
            v[1][0] != 'f':
        v = v[1]
    if v and v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == 'stamp':
        return at(v[1][1])
    return None


def norm(x):
    s, m = x
    if m[0] == 'rec' and source(m) == ('I',):
        m = ('I',)
    return s, m


def truth(v):
    return None if v is None or v[0] != 'c' else bool(v[1])


def source(v):
    if v is None:
        return None
    why, src = normalised(v)
    return src if why is None else None


def relative(v, a, b):
    """v == a^-1 * b for rigid a, b"""
    try:
        for seed in (1, 2, 3):
            n = Num(over={}, seed=seed, rigid=True, shapes={'inner': 4})
            x = n.mat(n.val(clean(v)))
            y = n.mat(n.val(T.mm(T.inv(a), b)))
            if max(abs(x(r, q) - y(r, q)) for r in range(4)
                   for q in range(4)) > 1e-6:
                return False
        return True
    except NoValue:
        return False


def clean(t):
    """values read back through a reference to a temporary"""
    if not isinstance(t, tuple):
        return t
    t = tuple(clean(x) for x in t)
    if len(t) == 2 and t[0] == 'ld' and t[1] and t[1][0] == '*' and \
            isinstance(t[1][1], tuple) and t[1][1][0] in (
                'inv', 'mm', 'I', 'cell', 'call'):
        return t[1][1]
    return t


def same_fields(I, st, a, b):
    va = I.full(st, a)
    return va == ('ld', b) or va == I.full(st, b)


def made(I, st, v):
    for x in T.walk(v):
        if isinstance(x, tuple) and x and x[0] == 'made':
            return x[2], x[3]
    if v[0] == '&':
        y = I.full(st, v[1])
        for x in T.walk(y):
            if isinstance(x, tuple) and x and x[0] == 'made':
                return x[2], x[3]
    return None


# ------------------------------------------------------------- grouping loop
class Pass:
    """one arbitrary pass of the grouping loop"""

    def __init__(self, I, o, lev, before, evs):
        self.I, self.o, self.evs, self.before = I, o, evs, before
        self.carried = dict((l, v) for l, v in lev.val or ())
        self.start = {}
        for e in before:
            if e.k == 'write' and e.loc in self.carried:
                self.start[e.loc] = e.val
        self.inserts = [(k, e) for k, e in enumerate(evs) if e.k == 'call' and
                        e.q == S + '::InsertFrame']
        self.pub = [(k, e) for k, e in enumerate(evs) if e.k == 'call' and
                    e.n in ('push_back', 'emplace_back', 'grow_by') and
                    e.obj == TR]
        self.ids = [(k, e) for k, e in enumerate(evs) if e.k == 'call' and
                    e.q == S + '::SetId']
        self.tasks = [(k, e) for k, e in enumerate(evs) if e.k == 'call' and
                      e.n == 'enqueue']

    def after(self, t):
        """the value the expression has in the next pass"""
        return T.subst(t, {v: self.I.load(self.o.st, l)
                           for l, v in self.carried.items()
                           if T.occurs(v, t)})

    def first(self, t):
        """the value in the first pass"""
        m = {}
        for l, v in self.carried.items():
            if T.occurs(v, t):
                m[v] = ZERO if l == ('f', TR, '#size') else \
                    self.start.get(l, v)
        return T.subst(t, m)


TR = ('trajectory',)


def passes(ctx, N, opaque=()):
    p = ctx.prog
    f = p.one(B + '::SubmapProcessing')
    ctx.analysed.add(f.id)
    fr, tr = members(ctx)
    fs = ('f', fr, '#size')

    def model(I, fn, frm, i, n, st):
        g = n.get('fn') or {}
        if n['k'] == 'call' and g.get('n') == 'enqueue' or \
                n['k'] == 'ctor' and g.get('c', '').endswith(
                    ('MemoryManager', 'ThreadPool')):
            I.ev(st, Ev('call', fn, i, q=g.get('q'), n=g.get('n'),
                        c=g.get('c'), frame=frm,
                        args=tuple(I.rvalue(fn, st, a) for a in n['a'])))
            return I.set(st, i, I.fresh())
        return None
    I = ctx.interp(inline=lambda g: g.cls == B or g.id.startswith('lam@'),
                   opaque=('ConnectAllSubmap', 'SubmapPairMatch') + opaque,
                   unroll=4, model=model, volatile=lambda l: l == fs)
    st = I.init_state()
    o = fld('options_')
    for n in ('back_end_options', 'submap_options', 'frame_count'):
        o = ('f', o, n)
    I.store(st, o, c(N), quiet=True)
    I.store(st, tr, ('&', TR), quiet=True)
    outs = I.run(f, state=st)
    res = []
    for x in outs:
        evs = list(x.events())
        at = [k for k, e in enumerate(evs) if e.k == 'loop']
        # the pass is that of the outermost loop
        if x.kind == 'back' and at:
            res.append(Pass(I, x, evs[at[0]], evs[:at[0]], evs[at[0] + 1:]))
    return f, I, outs, res, fs


def members(ctx):
    rec = ctx.prog.record(B)
    typ = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    frames = [n for n, t in typ.items() if 'Frame>' in t]
    traj = [n for n, t in typ.items() if 'Trajectory' in t and 'vector' not in t]
    ctx.need(len(frames) == 1 and len(traj) == 1, 'the frames and the trajectory')
    return fld(frames[0]), fld(traj[0])


def position(v, fr):
    """X of frames[X]"""
    while v and v[0] in ('ld', '&', '*') and isinstance(v[1], tuple):
        v = v[1]
    return v[2] if v and v[0] == '[]' and v[1] == fr else None


def grouping(ctx):
    fr, _ = members(ctx)
    for N in (1, 2, 3):
        f, I, outs, ps, fs = passes(ctx, N)
        ctx.need(ps, 'a pass of the grouping loop')
        group = [q for q in ps if q.inserts or q.pub]
        wait = [q for q in ps if not q.inserts and not q.pub]
        if not ctx.require(bool(group), 'grouped', f.where(),
                           'frames are grouped', 'none'):
            continue
        ctx.count('passes of the grouping loop', len(ps))
        xs = set()
        for q in group:
            def want(cond, msg, key):
                return ctx.require(cond, 'grouped', f.where(),
                                   '%d frames per submap: %s' % (N, msg), key)
            pos = [position(e.args[0], fr) for _, e in q.inserts]
            if not want(len(pos) == N and None not in pos, 'a submap takes as '
                        'many stored frames as configured', 'count'):
                continue
            X = pos[0]
            xs.add(X)
            want(all(T.sub(pos[j], X) == c(j) for j in range(N)),
                 'the frames are consecutive', 'consecutive')
            want(T.sub(q.after(X), X) == c(N), 'the next submap starts after the '
                 'last frame taken', 'next')
            want(q.first(X) == ZERO, 'the first submap starts with the first '
                 'frame', 'first')
            want(enough(q.o.st.pc, fs, X, N), 'enough frames are known to exist',
                 'exist')
            sub = {e.obj for _, e in q.inserts}
            if not want(len(sub) == 1 and len(q.pub) == 1 and len(q.ids) >= 1,
                        'one submap is filled, named and published',
                        'published'):
                continue
            obj = sub.pop()
            want(q.pub[0][0] > q.inserts[-1][0], 'published when full', 'early')
            want(any(x == ('&', obj) for x in q.pub[0][1].args or ()),
                 'the filled submap is the published one', 'which')
            k, e = q.ids[-1]
            want(k < q.inserts[0][0] and e.obj == obj, 'named before the frames '
                 'take its ids', 'named')
            E = field(e.args[0], 'submap_index')
            want(E is not None and (E == q.carried.get(('f', TR, '#size')) or
                                    q.first(E) == ZERO and
                                    T.sub(q.after(E), E) == c(1)),
                 'the index is the position in the trajectory', 'index')
            t = field(e.args[0], 'trajectory_index')
            want(t is not None and is_id(t), 'it carries the id of the '
                 'trajectory', 'trajectory')
            made_ = [e for e in q.evs if e.k == 'call' and e.q and
                     e.q.endswith('Submap::Submap')]
            want(len(made_) == 1, 'one new submap', 'new')
        for q in wait:
            for X in xs:
                if not all(any(v == x for x in q.carried.values())
                           for v in hvs(X)):
                    continue
                ctx.require(q.after(X) == X, 'grouped', f.where(),
                            'a pass without a new submap skips no frame', 'skip')
        for o in outs:
            if o.kind == 'ret':
                late = [e for e in o.events() if e.k == 'call' and e.q ==
                        S + '::InsertFrame']
                ctx.require(not late, 'grouped', f.where(), 'no submap is filled '
                            'without being published', 'late')
        loose = other_writers(ctx, fr)
        ctx.require(not loose, 'grouped', ', '.join(sorted(loose)) or f.where(),
                    'the stored frames change in no other place', 'writers')


def hvs(t):
    return {x for x in T.walk(t) if isinstance(x, tuple) and x and
            x[0] in ('hv', 'iv')}


def is_id(t):
    return 'GetId' in T.show(t, -9) and 'trajectory' in T.show(t, -9) or \
        t == ('ld', ('f', TR, 'id_'))


def field(v, name):
    if v[0] == '&':
        return None
    if v[0] == 'rec':
        for sel, x in v[2]:
            if sel == ('f', name):
                return x
    return None


def enough(pc, fs, X, N):
    """the path shows size - X >= N"""
    lv = {x for a in pc for x in T.walk(a)
          if isinstance(x, tuple) and x and x[0] == 'at' and x[2] == fs}
    vs = hvs(X)
    if len(vs) != 1 and X != ZERO:
        return False
    h = next(iter(vs), None)
    for l in lv:
        good = True
        some = False
        for size in range(0, 8):
            for x in range(0, 4) if h else (0,):
                over = {l: size}
                if h:
                    over[h] = x
                n = Exact(over)
                try:
                    X_ = n.num(X)
                    ok = all(bool(n.num(a)) == pol for a, pol in pc.items()
                             if T.occurs(l, a))
                except NoValue:
                    return False
                if X_ > size:
                    continue
                if ok:
                    some = True
                    good = good and size - X_ >= N
        if good and some:
            return True
    return False


class Exact(Num):
    def leaf(self, loc):
        if loc in self.over:
            return self.over[loc]
        raise NoValue(T.show(loc))


SHRINK = ('clear', 'pop_back', 'erase', 'resize', 'swap', 'shrink', 'operator=',
          'assign', 'insert')


def other_writers(ctx, fr):
    out = set()
    for f in ctx.prog.fns.values():
        if f.cls != B or f.nocfg:
            continue
        for i, n in f.calls():
            g = n.get('fn') or {}
            if g.get('n') in SHRINK and n.get('obj') is not None:
                x = f.nodes[n['obj']]
                while x['k'] == 'cast':
                    x = f.nodes[x['e']]
                if x['k'] == 'mem' and x.get('n') == fr[2]:
                    out.add(f.where(i))
    return out
