"""Occupancy of voxels."""
from .. import terms as T
from ..interp import Ev
from ..num import Num, Closed, NoValue
from ..paths import fld, iterations, structure, Loop, flat
from ..scen import taken
from ..terms import c, ZERO

SRCS = ['builder/multi_resolution_voxel_map.cc', 'builder/data/cloud_types.cc']
EXPLAIN = '''
Every path through one point of an inserted cloud is followed, with the voxels
of its ray kept symbolic.  For rays of 1 to 4 voxels the positions whose
probability is written are computed from the loop's conditions: the last voxel is
hit, the ones before are missed.  The value written is a closed term over the
stored 8 bit probability, the odds table filled by the constructor and the
settings as limited by initialisation; it is tabulated for every stored value
between the limits and compared with the specification (a hit never lowers, a miss
never raises, the limits are kept), for settings inside and outside their range.
Stored points and intensities are decided as tables over the orderings of their
counts and values; the flag that protects a voxel hit by the current cloud is
followed through the hit, the misses and the reset.  The output functions are
followed for two voxels with three points each and every ordering of probability
and threshold.
'''
ASSUME = ['the voxels of a ray are distinct and the last one contains the point',
          'probabilities are tabulated with 64 bit arithmetic; the margins are '
          'far above the error of 32 bit arithmetic',
          'one point is handled at a time (updates of one voxel by several '
          'threads at once are the subject of P31)']
MIN_OBLIGATIONS = 60
M = 'static_map::MultiResolutionVoxelMap::'
RAY = ('ray',)
SETTINGS = fld('settings_')
LOW, HIGH = int(0.1 * 256), int(0.9 * 256)
RAW = [(0.55, 0.48), (0.9, 0.1), (0.5, 0.5), (0.0, 1.0), (1.0, 0.0),
       (0.6, 0.4)]


def check(ctx):
    p = ctx.prog
    rec = p.record('MultiResolutionVoxelMap::HighResolutionVoxel')
    ty = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    role = {}
    for k, v in ty.items():
        if v == 'unsigned char':
            role['prob'] = k
        elif 'vector' in v:
            role['points'] = k
        elif 'int' in v:
            role['max'] = k
        elif 'signed char' in v or 'bool' in v or '_Bool' in v:
            role['flag'] = k
    ctx.need({'prob', 'points', 'max'} <= set(role), 'the fields of a voxel')
    first = initial(ctx, role)
    table = odds(ctx)
    sets = initialise(ctx)
    insert(ctx, role, table, sets, first)
    for f in p.find(M + 'OutputToPointCloud'):
        t = f.ty(f.params[1]['t'])
        if 'PointCloud' in t:
            output(ctx, f, role)
        else:
            to_file(ctx, f)


def initial(ctx, role):
    f = [g for g in ctx.prog.find(M + 'HighResolutionVoxel::HighResolutionVoxel')
         if g.kind == 'ctor' and not g.params]
    ctx.need(len(f) == 1, 'the constructor of a voxel')
    f = f[0]
    I = ctx.interp()
    r = None
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        r = {k: T.num(flagval(I, o.st, fld(n))) for k, n in role.items()
             if k != 'points'}
        ctx.require(r['prob'] == 128, 'initial', f.where(), '%s: a new voxel '
                    'does not start unknown (%s of 256)' % (f.q, r['prob']),
                    'initial/prob')
    ctx.need(r, 'paths of ' + f.q)
    return r


def flagval(I, st, loc):
    v = I.load(st, ('f', loc, 'atom_'))
    if T.num(v) is None:
        w = I.load(st, loc)
        if T.num(w) is not None:
            return w
    return v


def odds(ctx):
    """index -> value of the table, from the loop of the constructor"""
    p = ctx.prog
    f = [g for g in p.find(M + 'MultiResolutionVoxelMap')
         if g.kind == 'ctor' and not g.nocfg]
    ctx.need(len(f) == 1, 'the constructor of the map')
    I = ctx.interp()
    w = []
    for o in I.run(f[0]):
        for e in o.events():
            if e.k == 'write' and e.loc[0] == '[]' and e.loc[1][0] == 'f' and \
                    'odds' in e.loc[1][2]:
                w.append(e)
    tabs = {e.loc[1] for e in w}
    if not w:
        return None, None
    e = w[-1]
    loc = tabs.pop()

    def at(i):
        n = Closed(over={e.loc[2]: i})
        try:
            return n.num(e.val)
        except (ValueError, NoValue):
            raise NoValue('odds of %s' % i)
    return loc, at


def initialise(ctx):
    """settings in force after initialising with the raw ones"""
    f = ctx.prog.one(M + 'Initialise')
    I = ctx.interp()
    outs = I.run(f)
    r = []
    S = ('arg', f.params[0]['n'], 0)
    for h, m in RAW:
        over = {('f', S, 'hit_prob'): h, ('f', S, 'miss_prob'): m,
                ('f', S, 'max_point_num_in_cell'): 3}
        for o in taken(outs, Num(over=over, seed=3), kinds=('ret',)):
            n = Closed(over=over)
            r.append((n.num(I.load(o.st, fld('hit_prob', SETTINGS))),
                      n.num(I.load(o.st, fld('miss_prob', SETTINGS)))))
    ctx.need(r, 'settings accepted by ' + f.q)
    ctx.count('settings', len(r))
    return sorted(set(r))


# ------------------------------------------------------------------ insertion
def canon_key(sel):
    if sel[0] in ('key', 'find'):
        return sel[1]
    return sel


def voxel(loc, field):
    """key of the voxel whose field is written, or None"""
    if loc[0] == 'f' and loc[2] == 'atom_':
        loc = loc[1]
    if loc[0] != 'f' or loc[2] != field:
        return None
    b = loc[1]
    if b[0] == 'f' and b[2] == 'second':
        b = b[1]
    if b[0] == '*' and b[1][0] == '&':
        b = b[1][1]
    if b[0] == '[]' and b[1][0] == 'f':
        return canon_key(b[2])
    return None


def index_of(key):
    """position on the ray of a key term"""
    if key[0] == 'fld' and key[1] == RAY and key[2][0] == '[]':
        return key[2][1]
    if key[0] == 'ld':
        l = key[1]
        if l[0] == '[]' and l[1] in (RAY, ('*', RAY)):
            return l[2]
    return None


def last_sel(t):
    """name of the field a value is read from, ignoring atomics"""
    if t[0] == 'fld' and t[2][0] == 'f':
        if t[2][1] == 'atom_':
            return last_sel(t[1])
        return t[2][1]
    if t[0] == 'ld' and t[1][0] == 'f':
        l = t[1]
        if l[2] == 'atom_':
            l = l[1]
        return l[2] if l[0] == 'f' else None
    return None


class V(Closed):
    """values with the voxel's fields, the settings and the ray given"""

    def __init__(self, role, given, table=(None, None), over=None, size=None):
        Closed.__init__(self, over=over)
        self.names = {role[k]: v for k, v in given.items() if k in role}
        self.role = role
        self.given = given
        self.table = table
        self.raysize = size

    def _val(self, t):
        if t in self.over:
            return self.over[t]
        if t[0] in ('fld', 'ld'):
            s = last_sel(t)
            if s == '#size':
                b = t[1]
                if b == RAY or (b[0] == 'f' and b[1] in (RAY, ('*', RAY))):
                    if self.raysize is None:
                        raise NoValue('ray')
                    return self.raysize
                if t[0] == 'fld' and last_sel(b) == self.role['points']:
                    s = self.role['points']
                if t[0] == 'ld' and b[1][0] == 'f' and b[1][2] == self.role[
                        'points']:
                    s = self.role['points']
            if s in self.names and ('high' in T.show(t) or 'voxel' in T.show(t)):
                return self.names[s]
            if t[0] == 'ld' and t[1][0] == '[]' and t[1][1] == self.table[0]:
                return self.table[1](self.num(t[1][2]))
            if t[0] == 'fld' and t[2][0] == '[]' and t[1] == ('ld',
                                                             self.table[0]):
                return self.table[1](self.num(t[2][1]))
        if t[0] == 'iv' and t not in self.over:
            raise NoValue('loop')
        if t[0] == '==' or (t[0] == 'call' and 'operator==' in str(t[1])):
            a, b = t[-2:]
            i, j = index_of(a), index_of(b)
            if i is not None and j is not None:
                return self.num(i) == self.num(j)
        return Closed._val(self, t)


def ivs(t, r=None):
    r = set() if r is None else r
    if isinstance(t, tuple):
        if t and t[0] == 'iv':
            r.add(t)
        else:
            for x in t:
                ivs(x, r)
    return r


def insert(ctx, role, table, sets, first):
    p = ctx.prog
    f = p.one(M + 'InsertPointCloud')

    def model(I, fn, fr, i, n, st):
        g = n.get('fn') or {}
        if n['k'] == 'call' and g.get('n') == 'VoxelCastingBresenham':
            I.ev(st, Ev('call', fn, i, q=g['q'], n=g['n'], frame=fr,
                        args=tuple(I.rvalue(fn, st, a) for a in n['a'])))
            return I.set(st, i, RAY)
    I = ctx.interp(model=model, volatile=lambda l: False)
    outs = I.run(f)
    its = iterations(outs)
    writes = {}          # (kind, term, conditions) -> event
    outer = []
    for evid, lst in its.items():
        for o, evs in lst:
            collect(ctx, f, role, o, evs, writes)
            if any(e.k == 'call' and e.n == 'VoxelCastingBresenham'
                   for e in evs):
                outer.append((o, evs))
    for o in outs:
        if o.kind == 'ret':
            collect(ctx, f, role, o, o.events(), writes)
    ctx.need(outer, 'points handled by ' + f.q)
    ray_ends(ctx, f, {(e.where, e.args) for o, evs in outer for e in evs
                      if e.k == 'call' and e.n == 'VoxelCastingBresenham'})
    full = [(o, evs) for o, evs in outer if complete(evs)]
    for kind in ('hit', 'miss'):
        ws = [(v, cs, w) for (k, v, cs), w in writes.items() if k == kind]
        if ctx.require(ws, kind, f.where(), '%s: no voxel is ever %s' % (
                f.q, 'hit' if kind == 'hit' else 'missed'), kind + '/none'):
            tabulate(ctx, f, role, kind, ws, table, sets)
    once(ctx, f, role, outer)
    points(ctx, f, role, full)
    if 'flag' in role:
        protect(ctx, f, role, first, its, full, outs)


def complete(evs):
    """a point's iteration whose ray is not empty"""
    for e in evs:
        if e.k == 'cond' and last_sel(e.val[2] if e.val[0] == '==' else e.val) \
                == '#size' and T.occurs(RAY, e.val) and e.val[0] == '==' and \
                e.val[1] == ZERO:
            return not e.pol
    return True


def ray_ends(ctx, f, rays):
    for where, args in rays:
        org = ('arg', f.params[1]['n'], 1)
        n = Num(seed=5, shapes={(org, 'vector'): True})
        ok = len(args) == 3
        try:
            a, b = n.mat(n.val(args[0])), n.mat(n.val(args[1]))
            o = n.mat(n.val(('ld', org)))
            z = n.scal(n.leaf(fld('z_offset', SETTINGS)))
            ok = ok and all(abs(a(i) - o(i) - (z if i == 2 else 0)) < 1e-9
                            for i in range(3))
            iv = ivs(args[1])
            ok = ok and len(iv) == 1
            pt = [b(i) for i in range(3)]
            base = None
            for x in walk(args[1]):
                if x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == 'x':
                    base = x[1][1]
            ok = ok and base is not None and pt == [
                n.scal(n.leaf(('f', base, k))) for k in 'xyz']
            ok = ok and args[2] == ('ld', fld('high_resolution', SETTINGS))
        except NoValue:
            ok = False
        ctx.require(ok, 'ray', where, '%s: the ray does not lead from the raised '
                    'origin to the point in steps of the resolution' % f.q,
                    'ray')


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)


def visited(key, conds, size):
    """positions of the ray a write reaches for a ray of the given size"""
    idx = index_of(key)
    if idx is None:
        return None
    vs = sorted(ivs(idx))
    r = []
    if len(vs) > 1:
        return None
    for k in range(size + 2) if vs else (0,):
        over = {}
        if vs:
            v = vs[0]
            n0 = V(DUMMY, {}, size=size)
            try:
                over[v] = n0.num(v[2]) + k * n0.num(v[3])
            except NoValue:
                return None
        n = V(DUMMY, {}, over=over, size=size)
        if any(n.truth(a) not in (None, bool(pol)) for a, pol in conds):
            continue
        try:
            r.append(int(n.num(idx)))
        except NoValue:
            return None
    return r


DUMMY = {'prob': '#none', 'points': '#none', 'max': '#none'}


def collect(ctx, f, role, o, evs, writes):
    conds = []
    for e in evs:
        if e.k == 'cond':
            conds.append((e.val, e.pol))
        if e.k == 'loop':
            conds = [x for x in conds]
        if e.k != 'write':
            continue
        key = voxel(e.loc, role['prob'])
        if key is None:
            if role['prob'] == (e.loc[2] if e.loc[0] == 'f' else None):
                ctx.bad('update', e.where, '%s: a probability is written '
                        'outside the voxels of a ray' % f.q, 'update/other')
            continue
        kinds = set()
        for s in (1, 2, 3, 4):
            vis = visited(key, conds, s)
            if vis is None:
                kinds.add('unknown')
                continue
            for i in vis:
                kinds.add('hit' if i == s - 1 else
                          'miss' if 0 <= i < s - 1 else 'outside')
        if not kinds:
            continue        # never taken
        if len(kinds) > 1 or kinds & {'unknown', 'outside'}:
            ctx.bad('update', e.where, '%s: a probability is written at a '
                    'position of the ray that is not decided by whether the '
                    'ray ends there' % f.q, 'update/position')
            continue
        rel = tuple((a, p) for a, p in conds if mentions(a, role['prob']))
        writes.setdefault((kinds.pop(), e.val, rel), e)


def mentions(t, name):
    return any(x[0] in ('fld', 'ld') and last_sel(x) == name for x in walk(t))


def tabulate(ctx, f, role, kind, ws, table, sets):
    where = ws[0][2].where
    moved, bad = 0, None
    rows = 0
    for h, m in sets:
        over = {('ld', fld('hit_prob', SETTINGS)): h,
                ('ld', fld('miss_prob', SETTINGS)): m}
        for i in range(LOW, HIGH + 1):
            n = V(role, {'prob': i}, table, over=dict(over))
            got = set()
            for v, cs, w in ws:
                if any(n.truth(a) not in (None, bool(p)) for a, p in cs):
                    continue
                try:
                    got.add(int(n.num(v)))
                except (NoValue, OverflowError, ValueError) as e:
                    got.add('no value (%s)' % e)
            rows += 1
            if len(got) != 1:
                bad = bad or (h, m, i, got)
                continue
            j = got.pop()
            if not isinstance(j, int) or not LOW <= j <= HIGH or \
                    (j < i if kind == 'hit' else j > i):
                bad = bad or (h, m, i, j)
            moved += j != i
    ctx.count('probability updates tabulated', rows)
    if bad:
        ctx.bad(kind, where, '%s: with hit %.3g and miss %.3g a %s turns %d of '
                '256 into %s' % ((f.q,) + bad[:2] + (kind,) + bad[2:]),
                kind + '/table')
    else:
        ctx.ok(kind, where, '%d rows' % rows)
    ctx.require(moved, kind, where, '%s: a %s never changes the probability' % (
        f.q, kind), kind + '/moves')


def top(evs):
    """events of an iteration outside inner loops"""
    return [e for e in structure(evs) if not isinstance(e, Loop)]


def once(ctx, f, role, outer):
    """every point hits its voxel exactly once"""
    for o, evs in outer:
        if not complete(evs):
            continue
        hits = 0
        seen = []
        for e in top(evs):
            if e.k == 'write' and voxel(e.loc, role['prob']) is not None and \
                    all(visited(voxel(e.loc, role['prob']), [], s) == [s - 1]
                        for s in (1, 2, 3)):
                hits += 1
                seen.append(e)
        inloop = [e for e in flat(structure(evs)) if e.k == 'write' and
                  voxel(e.loc, role['prob']) is not None and e not in seen]
        if hits == 0 and inloop:
            ctx.ok('once', f.where(), 'hit inside the walk along the ray')
            continue
        ctx.require(hits == 1, 'once', seen[-1].where if seen else f.where(),
                    '%s: a point hits its voxel %d times' % (f.q, hits),
                    'once')


def points(ctx, f, role, full):
    sites = {}
    for cnt, mx in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 2), (2, 3), (3, 2),
                    (3, 3)):
        for o, evs in full:
            n = V(role, {'points': cnt}, over={
                ('ld', fld('max_point_num_in_cell', SETTINGS)): mx})
            tops = [e for e in flat(structure(evs))]
            if any(n.truth(e.val) not in (None, bool(e.pol)) for e in tops
                   if e.k == 'cond'):
                continue
            ps = [e for e in tops if e.k == 'call' and e.n in (
                'push_back', 'emplace_back', 'grow_by') and e.obj is not None and
                voxel(e.obj, role['points']) is not None]
            w = ps[0].where if ps else f.where()
            ctx.require(len(ps) == (1 if cnt < mx else 0), 'points', w,
                        '%s: with %d of at most %d points stored, %d more are '
                        'stored' % (f.q, cnt, mx, len(ps)), 'points/count')
            for e in ps:
                key = voxel(e.obj, role['points'])
                ctx.require(visited(key, [], 3) == [2], 'points', e.where,
                            '%s: a point is stored in a voxel it does not lie '
                            'in' % f.q, 'points/voxel')
    for m, x, want in ((3, 2.5, 3), (3, 3.5, 3), (3, 4.0, 4), (0, 0.0, 0),
                       (7, 200.9, 200), (200, 7.0, 200)):
        for o, evs in full:
            over = {}
            for e in flat(structure(evs)):
                for t in walk(e.val) if isinstance(e.val, tuple) else ():
                    if t[0] == 'ld' and t[1][0] == 'f' and \
                            t[1][2] == 'intensity':
                        over[t] = x
            n = V(role, {'max': m}, over=over)
            es = flat(structure(evs))
            if any(n.truth(e.val) not in (None, bool(e.pol)) for e in flat(
                    structure(evs)) if e.k == 'cond'):
                continue
            cur, w = m, f.where()
            for e in es:
                if e.k in ('astore', 'write') and voxel(e.loc, role['max']) is \
                        not None:
                    try:
                        cur = n.num(e.val)
                    except NoValue as ex:
                        cur = str(ex)
                    w = e.where
            ctx.require(cur == want, 'intensity', w, '%s: the largest intensity '
                        'of a voxel becomes %s from %d and a point of %g' % (
                            f.q, cur, m, x), 'intensity')


def protect(ctx, f, role, first, its, full, outs):
    """a voxel hit by this cloud is not missed by the rest of it"""
    flag = role['flag']
    allowed, local = [], False
    for evid, lst in its.items():
        for o, evs in lst:
            conds = []
            for e in flat(structure(evs)):
                if e.k == 'cond':
                    conds.append((e.val, e.pol))
                if e.k != 'write':
                    continue
                key = voxel(e.loc, role['prob'])
                if key is None:
                    continue
                if all(visited(key, conds, s) == [s - 1] for s in (1, 2, 3)):
                    continue
                A = set()
                for v in (0, 1):
                    n = V(role, {'flag': v})
                    rel = [(a, p) for a, p in conds if mentions(a, flag)]
                    if all(n.truth(a) == bool(p) for a, p in rel):
                        A.add(v)
                if not any(mentions(a, flag) for a, p in conds):
                    if any(x[0] in ('find',) or (x[0] == 'call' and
                                                 x[1] == 'count')
                           for a, p in conds for x in walk(a)
                           if 'end_voxel' in T.show(a)):
                        local = True
                        continue
                    A = {0, 1}
                allowed.append((A, e))
    if local and not allowed:
        ctx.ok('protected', f.where(), 'misses consult the voxels hit')
        return
    if not ctx.require(allowed, 'protected', f.where(), '%s: no miss found' % f.q,
                       'protected/none'):
        return
    A = set.union(*[a for a, e in allowed])
    w = allowed[0][1].where
    ok = True
    for o, evs in full:
        h = None
        for e in flat(structure(evs)):
            if e.k in ('astore', 'write'):
                key = voxel(e.loc, flag)
                if key is not None and visited(key, [], 3) == [2]:
                    h = T.num(e.val)
                    w = e.where
        if h is None or h in A:
            ok = False
    ctx.require(ok, 'protected', w, '%s: a voxel hit by a cloud can be missed by '
                'a later point of it' % f.q, 'protected/hit')
    ctx.require(first['flag'] in A, 'protected', w, '%s: a new voxel can never be '
                'missed' % f.q, 'protected/new')
    # after the cloud every voxel that was hit can be missed again
    good = False
    for o in outs:
        if o.kind not in ('ret', 'back'):
            continue
        for e in o.events():
            if e.k in ('astore', 'write') and voxel(e.loc, flag) is not None:
                key = voxel(e.loc, flag)
                if index_of(key) is None and T.num(e.val) in A:
                    if 'first' in T.show(key) or T.occurs('end_voxels', key) or \
                            ivs(key) or ivs(e.loc):
                        good = True
    ctx.require(good, 'protected', f.where(), '%s: a voxel hit by one cloud can '
                'never be missed by the next' % f.q, 'protected/reset')


# --------------------------------------------------------------------- output
def output(ctx, f, role):
    VM = None
    rec = ctx.prog.record('static_map::MultiResolutionVoxelMap')
    for x in rec['fields']:
        if 'HighResolutionVoxel' in rec['tu'].types[x['t']]:
            VM = fld(x['n'])
    ctx.need(VM, 'the voxels of the map')
    NP = 3

    def model(I, fn, fr, i, n, st):
        g = n.get('fn') or {}
        if n['k'] == 'ctor' and (g.get('c') or '').startswith('pcl::PointXYZ'):
            if all(I.rvalue(fn, st, a)[0] == 'c' for a in n.get('a') or ()):
                return I.set(st, i, ('zero',))
    I = ctx.interp(model=model, unroll=8)
    st = I.init_state()
    cl, slot = ('cloud', 0), ('slot', 0)
    I.store(st, slot, ('&', cl), quiet=True)
    I.store(st, ('f', VM, '#size'), c(2), quiet=True)
    vox = [('f', ('[]', VM, c(k)), 'second') for k in range(2)]
    for v in vox:
        I.store(st, ('f', fld(role['points'], v), '#size'), c(NP), quiet=True)
        I.store(st, ('f', fld(role['max'], v), 'atom_'), ('ld', (
            'f', fld(role['max'], v), 'atom_')), quiet=True)
    outs = I.run(f, args=[None, ('&', slot)], state=st)
    thr = ('arg', f.params[0]['n'], 0)
    cases = 0
    for t256 in (0, 60, 128, 153, 230, 256, 400, -40):
        t = t256 / 256.0
        for d in ((-1, 0), (0, -1), (1, 1), (-1, -1), (0, 40), (-40, 1)):
            pr = [min(max(t256 + x, LOW), HIGH) for x in d]
            for avg in (0, 1):
                for mx in (0, 1):
                    cases += 1
                    one_output(ctx, f, I, outs, role, vox, thr, t, t256, pr,
                               avg, mx, cl, NP)
    ctx.count('output cases', cases)
    # no cloud to fill
    I = ctx.interp(unroll=2)
    st = I.init_state()
    I.store(st, slot, T.NULL, quiet=True)
    for o in I.run(f, args=[None, ('&', slot)], state=st):
        if o.kind in ('ret', 'back'):
            es = [e for e in o.events() if (e.k == 'write' and
                  T.root(e.loc)[0] in ('*', 'c')) or
                  (e.k == 'call' and e.n in ('clear', 'push_back', 'reserve') and
                   T.occurs(T.NULL, e.obj))]
            ctx.require(not es, 'no cloud', es[0].where if es else f.where(),
                        '%s: a missing output cloud is used' % f.q, 'no cloud')


def one_output(ctx, f, I, outs, role, vox, thr, t, t256, pr, avg, mx, cl, NP):
    over = {thr: t, ('f', SETTINGS, 'output_average'): avg,
            ('f', SETTINGS, 'use_max_intensity'): mx}
    for v, i in zip(vox, pr):
        over[fld(role['prob'], v)] = i
    n = Num(over=over, seed=2)
    got = taken([o for o in outs if o.kind == 'ret'], n, kinds=('ret',))
    what = 'probabilities %s of 256 and threshold %d of 256' % (pr, t256)
    if not ctx.require(len(got) == 1, 'output', f.where(), '%s: with %s the '
                       'output does not end' % (f.q, what), 'output/end'):
        return
    st = got[0].st
    want = []
    for v, i in zip(vox, pr):
        if i < max(t256, 0):
            continue
        P = [[n.scal(n.leaf(('f', ('[]', fld(role['points'], v), c(k)), a)))
              for a in 'xyz'] for k in range(NP)]
        if avg:
            P = [[sum(q[a] for q in P) / NP for a in range(3)]]
        want += P
    pts = fld('points', cl)
    cnt = T.num(I.load(st, ('f', pts, '#size')))
    have = []
    for k in range(int(cnt) if cnt is not None else 0):
        try:
            e = ('f', ('f', ('[]', pts, c(k)), ''), '')
            have.append([n.num(I.load(st, ('f', e, a))) for a in 'xyz'])
        except NoValue as e:
            have.append(['?', str(e), 0])
    ok = cnt is not None and len(have) == len(want) and all(
        isinstance(a[0], (int, float)) and
        all(abs(x - y) < 1e-6 for x, y in zip(a, b))
        for a, b in zip(sorted(have, key=str), sorted(want, key=str)))
    ctx.require(ok, 'output', f.where(), '%s: with %s and averaging %s the '
                'output has %s points instead of %d or other positions' % (
                    f.q, what, 'on' if avg else 'off', cnt, len(want)),
                'output/table')


def to_file(ctx, f):
    I = ctx.interp(opaque=('OutputToPointCloud',))
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        n += 1
        es = o.events()
        outs = [e for e in es if e.k == 'call' and e.n == 'OutputToPointCloud']
        sv = [e for e in es if e.k == 'call' and (e.n or '').startswith(
            'savePCD')]
        ok = len(outs) == 1 and outs[0].args[0] == (
            'ld', ('arg', f.params[0]['n'], 0))
        ctx.require(ok, 'file', f.where(), '%s: the output is not made with the '
                    'given threshold' % f.q, 'file/threshold')
        ctx.require(len(sv) <= 1, 'file', f.where(), '%s: %d files written' % (
            f.q, len(sv)), 'file/once')
        empty = [e for e in es if e.k == 'cond' and '#size' in T.show(e.val) or
                 e.k == 'cond' and 'empty' in T.show(e.val)]
        ctx.require(sv or empty, 'file', f.where(), '%s: the output is not '
                    'saved' % f.q, 'file/saved')
        for e in sv:
            ctx.require(T.root(e.argl[0][1] if e.argl[0] and e.argl[0][0] == '&'
                               else e.argl[0])[0] == 'arg' or
                        'filename' in T.show(e.args[0]), 'file', e.where,
                        '%s: the output is saved elsewhere' % f.q, 'file/name')
    ctx.need(n, 'paths of ' + f.q)
