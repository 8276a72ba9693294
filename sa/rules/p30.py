"""P30: bins of the place descriptor stay inside the signature, every point is
counted once, and descriptors that cannot be compared give the invalid score."""
import itertools
import math
from .. import terms as T
from .. import paths
from ..ival import Ranges, Empty, INF
from ..terms import c

SRCS = ['descriptor/m2dp.cc', 'builder/frame_base.cc']
TECH = 'range analysis of index expressions over symbolic paths'
MIN_OBLIGATIONS = 300
EXPLAIN = (
    'Every path through the computation of a descriptor (one arbitrary '
    'iteration of every loop, callees followed) is analysed. (1) Each element '
    'or block of a matrix that is written has an index range, from a range '
    'analysis in which point coordinates are arbitrary and the comparisons on '
    'the path narrow the compared terms; the range must lie inside the current '
    'size of the matrix for every setting of a grid of ring widths, distances '
    'and view and bin counts. (2) Counting: every iteration over the points '
    'adds exactly one to one bin, all bins start at zero, and all rows of the '
    'signature are written (enumerated for the grid). (3) The counted points '
    'are exactly the points of the given cloud, after removal of shift and '
    'rotation, within the configured distance, put into a container emptied '
    'in the same call. (4) A table over the sizes of two descriptors decides '
    'when the comparison gives the invalid score, and the formula of the other '
    'case is compared with the absolute correlation on a grid of sums. (5) A '
    'frame stores the descriptor of its own cloud and only after success.')
ASSUME = ['coordinates are finite and conversion of a ring number to an integer '
          'does not overflow', 'view and bin counts and the maximal distance are '
          'positive', 'pcl::PCA::project writes one point per input point']

THIS = ('this',)
GRID = [dict(p=p, q=q, t=t, r=r, d=d) for p, q in ((1, 1), (2, 3), (4, 2))
        for t in (1, 2, 3, 4, 5, 16) for r, d in ((.1, 100.), (2., 9.), (1., 1.),
                                                  (3., 2.))]


def dynamic(t):
    return 'Eigen::' in t and ('-1' in t or 'X' in t)


class Sizes:
    def __init__(self, I, f):
        self.I, self.f = I, f


def check(ctx):
    p = ctx.prog
    cls = 'static_map::descriptor::M2dp'
    f = p.one(cls + '::setInputCloud')
    ctx.need(f is not None, 'M2dp::setInputCloud')
    rec = p.record('descriptor::M2dp')
    ctors = [g for g in p.fns.values() if g.cls and g.cls.endswith('M2dp') and
             g.kind == 'ctor' and len(g.params) >= 5]
    ctx.need(ctors, 'constructor of the descriptor')
    roles = parameters(ctx, ctors[0])
    ctx.need(set(roles.values()) >= set('pqtrd'), 'parameters of the descriptor')
    I = ctx.interp()
    outs = I.run(f)
    ctx.analysed.add(f.where())
    ctx.count('paths', len(outs))

    def leaf(env):
        def g(t):
            if t[0] == 'ld' and t[1][0] == 'f' and t[1][1] == THIS and \
                    t[1][2] in roles:
                v = env[roles[t[1][2]]]
                return v, v
            return None
        return g

    def integer(t):
        return t[0] == 'ld' and t[1][0] == 'f' and t[1][1] == THIS and \
            roles.get(t[1][2]) in ('p', 'q', 't')
    done = bounds(ctx, I, f, outs, leaf, integer)
    counting(ctx, I, f, outs, leaf, integer, done)
    source(ctx, I, f, outs, roles)
    compare(ctx)
    frame(ctx)


def parameters(ctx, g):
    """field -> parameter of the paper, by the position in the constructor"""
    I = ctx.interp()
    order = ['r', 'd', 't', 'p', 'q']
    r = {}
    for o in I.run(g):
        if o.kind != 'ret':
            continue
        for fl in [x['n'] for x in ctx.prog.record('descriptor::M2dp')['fields']]:
            v = I.load(o.st, ('f', THIS, fl))
            for k, q in enumerate(g.params[:5]):
                if T.show(v, -9) == 'arg(%s, %d)' % (q['n'], k):
                    r[fl] = order[k]
    return r


def size_of(I, st, base):
    r = I.load(st, ('f', base, '#rows'))
    k = I.load(st, ('f', base, '#cols'))
    return r, k


def selected(loc):
    """(matrix, first row, first column, rows, columns) of a written part"""
    if loc[0] != '[]':
        return None
    s = loc[2]
    if s[0] == 'blk':
        return loc[1], s[1], s[2], s[3], s[4]
    if s[0] == 'pair':
        return loc[1], s[1], s[2], c(1), c(1)
    return loc[1], s, c(0), c(1), c(1)


def carried(t):
    return any(x[0] == 'hv' and '[' not in str(x[-1]) and 'el(' not in str(x[-1])
               for x in T.walk(t))


def known(t):
    return not any(x[0] in ('hv', 'ld') and not (
        x[0] == 'ld' and x[1][0] == 'f' and x[1][1] == THIS) for x in T.walk(t))


def bounds(ctx, I, f, outs, leaf, integer):
    seen, done = set(), set()
    n = 0
    for o in outs:
        for e in o.events():
            if e.k not in ('write', 'cell') or not e.loc:
                continue
            s = selected(e.loc)
            if s is None or s[0][0] == 'heap':
                continue
            rows, cols = size_of(I, o.st, s[0])
            if not known(rows) or rows[0] in ('any',) or \
                    rows[0] == 'fld' or T.num(rows) is not None:
                continue
            if carried(s[1]) or carried(s[2]):
                ctx.count('writes at carried positions, not decided', 1)
                continue
            s = s[:3] + (rows if s[3] == ('rows',) else s[3],
                         cols if s[4] == ('cols',) else s[4])
            key = (e.loc, rows, cols, frozenset(o.st.pc.items()))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            done.add(e.loc)
            for env in GRID:
                try:
                    R = Ranges(leaf(env), list(o.st.pc.items()), integer)
                    nr, nc = R.of(rows), R.of(cols)
                    a, b = R.of(s[1]), R.of(s[2])
                    ha, hb = R.of(T.add(s[1], s[3])), R.of(T.add(s[2], s[4]))
                except Empty:
                    continue
                one = nc[0] == 1 or nc[0] == -INF
                ok = a[0] >= 0 and ha[1] <= nr[0] and (
                    one or b[0] >= 0 and hb[1] <= nc[0])
                if not ctx.require(ok, 'bounds', e.where,
                                   'an index into the signature can lie outside '
                                   'it: rows %s..%s of %s with %s' % (
                                       a[0], ha[1] - 1, nr[0], env), 'bounds'):
                    return done
    ctx.count('writes into matrices of variable size', n)
    return done


def points_of(R, t):
    v = R.of(t)
    return v[0] if v[0] == v[1] else None


def enumerate_cells(o, terms, leaf, integer, env, limit):
    """values of the terms for every iteration that the guards of the path let
    through"""
    ivs = sorted({x for t in terms for x in T.walk(t) if x[0] == 'iv'}, key=repr)
    atoms = [(a, p) for a, p in o.st.pc.items()
             if any(x in ivs for x in T.walk(a))]
    got = []
    for ks in itertools.product(range(limit), repeat=len(ivs)):
        base = leaf(env)
        R0 = Ranges(base, (), integer)
        val = {}
        for v, k in zip(ivs, ks):
            a, s = points_of(R0, v[2]), points_of(R0, v[3])
            if a is None or s is None:
                return None
            val[v] = a + k * s

        def lf(t, val=val, base=base):
            return (val[t], val[t]) if t in val else base(t)
        try:
            R = Ranges(lf, atoms, integer)
        except Empty:
            continue
        got.append(tuple(points_of(R, t) for t in terms))
    return got


def counting(ctx, I, f, outs, leaf, integer, done):
    its = paths.iterations(outs)
    small = [e for e in GRID if e['t'] <= 3 and e['r'] > .5]
    # the loop that counts: adds one to a bin
    counted = {}
    for lid, ways in its.items():
        for o, evs in ways:
            for e in evs:
                if e.k == 'write' and e.loc[0] == '[]' and plus_one(e):
                    counted.setdefault(lid, e)
    if not ctx.require(len(counted) == 1, 'count', f.where(),
                       'points are counted in one loop', 'loop'):
        return
    lid, e0 = next(iter(counted.items()))
    row = e0.loc[1]
    ctx.need(e0.loc in done, 'size of the bins of a view')
    for o, evs in its[lid]:
        w = [e for e in evs if e.k == 'write' and e.loc[0] == '[]' and
             e.loc[1] == row]
        try:
            for env in small[:4]:
                Ranges(leaf(env), list(o.st.pc.items()), integer)
        except Empty:
            continue
        ctx.require(len(w) == 1 and plus_one(w[0]), 'count', w[0].where if w else
                    e0.where, 'every point adds exactly one to one bin', 'once')
    lev = [e for o, _ in its[lid] for e in o.events() if id(e) == lid][0]
    coll = sorted({x for o, evs in its[lid] for e in evs if e.k == 'write'
                   for t in [e.val] if isinstance(t, tuple) and t
                   for x in T.walk(t) if x[0] == 'iv' and x[1] == lev.x}, key=repr)
    sz = {b for o, evs in its[lid] for e in evs if e.k == 'cond'
          for b in T.walk(e.val) if b[0] == 'hv' and '#size' in str(b)}
    if coll and sz:
        why, early = paths.sweeps(outs, lev, coll[0], sz)
        ctx.require(why is None and not early, 'count', e0.where,
                    'every point is counted once: %s' % why, 'sweep')
    # all bins start from zero
    zeros = []
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if e.k == 'write' and e.loc == row and zero_value(e.val):
                zeros.append('value')
            if e.k == 'call' and e.obj == row and e.n in ('setZero', 'fill',
                                                          'setConstant'):
                if e.n == 'setZero' or e.args and T.num(e.args[-1]) == 0:
                    zeros.append('call')
            if e.k == 'call' and e.n in ('fill', 'fill_n', 'memset') and any(
                    T.occurs(row, a) for a in e.args or ()):
                zeros.append('call')
    if not zeros:
        done = False
        for lz, ways in its.items():
            for o, evs in ways:
                for e in evs:
                    if e.k == 'write' and e.loc[0] == '[]' and e.loc[1] == row \
                            and T.num(e.val) == 0:
                        good = True
                        for env in small:
                            n = points_of(Ranges(leaf(env), (), integer),
                                          size_of(I, o.st, row)[0])
                            got = enumerate_cells(o, (e.loc[2],), leaf, integer,
                                                  env, int(n or 0) + 2)
                            good = good and got is not None and n and \
                                {x[0] for x in got} == set(range(int(n)))
                        done = done or good
        ctx.require(done, 'count', e0.where, 'every bin starts at zero', 'zero')
    else:
        ctx.ok('count', e0.where, 'every bin starts at zero')
    # every row of the signature is written
    hit = False
    for lz, ways in its.items():
        for o, evs in ways:
            for e in evs:
                s = selected(e.loc) if e.k == 'write' and e.loc else None
                if s is None or s[0][0] != 'f' or s[0][1] != THIS:
                    continue
                rows, cols = size_of(I, o.st, s[0])
                hit = True
                if carried(s[1]) or carried(s[2]):
                    continue
                s = s[:3] + (rows if s[3] == ('rows',) else s[3],
                             cols if s[4] == ('cols',) else s[4])
                for env in small:
                    R = Ranges(leaf(env), (), integer)
                    n, k = points_of(R, rows), points_of(R, cols)
                    got = enumerate_cells(o, (s[1], s[2], s[3], s[4]), leaf,
                                          integer, env, env['p'] * env['q'] + 1)
                    cells = set()
                    for r0, c0, nr, nc in got or ():
                        if None in (r0, c0, nr, nc):
                            continue
                        cells |= {(a, b) for a in range(int(r0), int(r0 + nr))
                                  for b in range(int(c0), int(c0 + nc))}
                    full = n is not None and k is not None and len(cells) == n * k
                    if not ctx.require(full, 'filled', e.where, 'every row of the '
                                       'signature is written (%s)' % env, 'rows'):
                        break
    ctx.require(hit, 'filled', f.where(), 'the signature is filled', 'rows')


def plus_one(e):
    v = e.val
    if not isinstance(v, tuple) or v[0] != 'lin' or v[2] != 1 or len(v[1]) != 1:
        return False
    x, a = v[1][0]
    return a == 1 and T.occurs(e.loc[2], x)


def zero_value(v):
    return v == c(0) or v[0] == 'zero' or v[0] == 'call' and (
        v[1] == 'constant' and T.num(v[2]) == 0 or 'Zero' in str(v[1])) or \
        v[0] == 'rec' and zero_value(v[1])


def source(ctx, I, f, outs, roles):
    """the counted points are those of the given cloud in range"""
    its = paths.iterations(outs)
    dist = [k for k, v in roles.items() if v == 'd'][0]
    fill = {}
    for lid, ways in its.items():
        for o, evs in ways:
            for e in evs:
                if e.k == 'call' and e.n in ('push_back', 'emplace_back') and \
                        e.obj and owned(ctx, I, o, e.obj):
                    fill.setdefault(lid, []).append((o, e))
    if not ctx.require(len(fill) == 1, 'points', f.where(),
                       'the points are collected in one loop', 'fill'):
        return
    lid, pushes = next(iter(fill.items()))
    obj = pushes[0][1].obj
    lev = [e for o, _ in its[lid] for e in o.events() if id(e) == lid][0]
    used = {T.show(e.val, -9) for o in outs for e in o.events() if e.k == 'write'
            and isinstance(e.val, tuple)}
    # emptied in the same call, before the loop
    for o, evs in its[lid]:
        pre = o.events()
        k = [j for j, e in enumerate(pre) if e is lev][0]
        own = [e for e in pre[:k] if e.k == 'write' and e.loc and
               (e.loc == obj or T.is_prefix(e.loc, obj))]
        empty = bool(own) and own[-1].val[0] in ('cont', '&') and (
            own[-1].val[0] == '&' or T.num(own[-1].val[-1]) == 0)
        r = T.root(obj)
        empty = empty or r[0] == 'heap' and any(
            e.k == 'new' and T.occurs(r, e.res or e.loc or e.val or c(0))
            for e in pre[:k]) or r[0] == 'heap' and not any(
            e.k == 'call' and e.obj == obj and e.n == 'push_back'
            for e in pre[:k])
        ctx.require(empty, 'points', pushes[0][1].where, 'the points of an earlier '
                    'cloud are dropped before new ones are collected', 'drop')
    # which points
    n = 0
    pts = [(0, 0, 0), (3, 4, 0), (0, 3, 4), (4, 0, 3), (6, 8, 0), (5, 0, 0),
           (0, -5, 0), (0, 0, 5), (0, 0, -5.5), (3, 4, 1), (-3, -4, 0), (2, 3, 4)]
    for (x, y, z), d in itertools.product(pts, (5., 6., 1.)):
        want = x * x + y * y + z * z <= d * d
        got = 0
        for o, evs in its[lid]:
            xyz = {'x': x, 'y': y, 'z': z}

            def leaf(t):
                if t[0] == 'ld' and t[1] == ('f', THIS, dist):
                    return d, d
                a = axis(t)
                if a and T.show(t, -9).find('project') >= 0:
                    return xyz[a], xyz[a]
                return None
            try:
                atoms = [(e.val, e.pol) for e in evs if e.k == 'cond' and
                         not any(q[0] == 'iv' for q in (e.val[1], e.val[2])
                                 if e.val[0] in ('<', '=='))]
                R = Ranges(leaf, atoms)
            except Empty:
                continue
            for e in evs:
                if e.k == 'call' and e.n in ('push_back', 'emplace_back') and \
                        e.obj == obj:
                    got += 1
                    for k, a in enumerate('xyz'):
                        v = I_field(I, e.args[0], a)
                        ok = v is not None and R.of(v) == (xyz[a], xyz[a])
                        ctx.require(ok, 'points', e.where, 'a collected point is '
                                    'the projected point (%s)' % a, 'copy/' + a)
        n += 1
        if not ctx.require(got == (1 if want else 0), 'points', f.where(),
                           'a point at (%s, %s, %s) is %s with distance %s' % (
                               x, y, z, 'used' if want else 'left out', d),
                           'range'):
            break
    ctx.count('points against distances', n)
    # all of them, from the given cloud
    for o, evs in its[lid][:1]:
        pre = o.events()
        conv = [e for e in pre if e.k == 'call' and e.n == 'ToPclPointCloud']
        proj = [e for e in pre if e.k == 'call' and e.n == 'project']
        seti = [e for e in pre if e.k == 'call' and e.n == 'setInputCloud' and
                'PCA' in (e.q or '')]
        ok = len(conv) == 1 and len(proj) == 1 and len(seti) == 1
        ok = ok and 'arg(source' in T.show(conv[0].args[0], -9) or \
            ok and ('arg(%s' % f.params[0]['n']) in T.show(conv[0].args[0], -9)
        ok = ok and seti[0].args[0] == conv[0].args[1] and \
            'out:ToPclPointCloud' in T.show(proj[0].args[0], -9)
        ctx.require(ok, 'points', f.where(), 'shift and rotation are removed from '
                    'the given cloud', 'given')
    ivs = sorted({x for o, evs in its[lid] for e in evs if e.k in ('cond', 'call')
                  for t in ([e.val] if e.k == 'cond' else e.args or ())
                  for x in T.walk(t) if x[0] == 'iv' and x[1] == lev.x}, key=repr)
    sz = {b for o, evs in its[lid] for e in evs if e.k == 'cond'
          for b in T.walk(e.val) if '#size' in str(b) and b[0] in ('fld', 'ld', 'hv')}
    if ctx.require(bool(ivs and sz), 'points', f.where(),
                   'the projected points are visited in order', 'visit'):
        why, early = paths.sweeps(outs, lev, ivs[0], sz)
        ctx.require(why is None and not early, 'points', lev.where or f.where(),
                    'every projected point is visited: %s' % why, 'visit')
    # refused clouds leave at once with false, others end with true
    for o in outs:
        if o.kind != 'ret':
            continue
        worked = any(e.k == 'call' and e.n == 'project' for e in o.events())
        ctx.require(o.val is not None and (T.num(o.val) == 1) == worked or
                    o.val == ('c', worked), 'points', f.where(), 'success is '
                    'reported exactly when the descriptor was computed', 'result')
        if worked:
            ws = [e for e in o.events() if e.k in ('write', 'call', 'cell') and (
                (e.loc and T.root(e.loc) == THIS) or e.k == 'call' and e.obj and
                e.obj[0] == 'f' and e.obj[1] == THIS)]
            names = {(e.loc or e.obj)[2] if (e.loc or e.obj)[0] == 'f' else None
                     for e in ws}
            ctx.require(any('escriptor' in str(x) for x in names), 'points',
                        f.where(), 'the descriptor is set', 'set')


def owned(ctx, I, o, obj):
    if T.occurs(THIS, obj):
        return True
    r = T.root(obj)
    return any(I.load(o.st, ('f', THIS, x['n'])) == ('&', r) for x in
               ctx.prog.record('descriptor::M2dp')['fields'])


def I_field(I, v, a):
    if v[0] == 'rec':
        for s, x in v[2]:
            if s == ('f', a):
                return x
    return None


def axis(t):
    if t[0] == 'fld' and t[2][0] == 'f' and t[2][1] in 'xyz':
        return t[2][1]
    if t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in ('x', 'y', 'z'):
        return t[1][2]
    return None


def compare(ctx):
    p = ctx.prog
    g = p.one('static_map::descriptor::matchTwoM2dpDescriptors')
    ctx.need(g is not None, 'matchTwoM2dpDescriptors')
    I = ctx.interp()
    outs = [o for o in I.run(g) if o.kind == 'ret']
    ctx.analysed.add(g.where())
    A, B = [x['n'] for x in g.params[:2]]

    def which(t):
        s = T.show(t, -9)
        a, b = 'arg(%s, 0)' % A in s, 'arg(%s, 1)' % B in s
        return 'A' if a and not b else 'B' if b and not a else None

    def leaf(env):
        def h(t):
            if t[0] in ('ld', 'fld'):
                s = T.show(t, -9)
                if s.endswith(('#rows', '#size')):
                    v = env[which(t)]
                    return v, v
            if t[0] == 'call' and t[1] == 'sum':
                v = env['s' + (which(t) or 'A')]
                return v, v
            if t[0] == 'call' and t[1] == 'dot':
                k = sorted(str(which(x)) for x in t[2:])
                v = env['d' + ''.join(k)]
                return v, v
            if t[0] == 'call' and t[1] == 'sqn' and which(t):
                v = env['d' + which(t) * 2]
                return v, v
            if t[0] == 'call' and t[1] in ('mean',) and which(t):
                v = env['s' + which(t)] / env[which(t)]
                return v, v
            return None
        return h
    vals = dict(sA=3., sB=-2., dAA=7., dBB=11., dAB=-4.)
    n = 0
    for a, b in itertools.product((0, 1, 2, 8, 9, 10, 11, 12, 192), repeat=2):
        env = dict(vals, A=a, B=b)
        got = []
        for o in outs:
            try:
                R = Ranges(leaf(env), list(o.st.pc.items()), lambda t: t[0] in (
                    'ld', 'fld') and '#' in T.show(t, -9))
            except Empty:
                continue
            got.append((o, R.of(o.val)))
        n += 1
        if not ctx.require(got, 'compare', g.where(), 'a result for '
                           'sizes %d and %d' % (a, b), 'one'):
            return
        if a != b or a < 10:
            ok = all(v == (-1., -1.) for _, v in got)
            msg = 'descriptors of sizes %d and %d do not match' % (a, b)
        else:
            ok = all(v[0] == v[1] for _, v in got)
            for k, (sA, sB, dAA, dBB, dAB) in enumerate((
                    (3., -2., 7., 11., -4.), (1., 2., 5., 3., 2.),
                    (0., .5, 1., 2., 1.2))):
                e2 = dict(sA=sA, sB=sB, dAA=dAA, dBB=dBB, dAB=dAB, A=a, B=b)
                want = abs((a * dAB - sA * sB) / math.sqrt(
                    (a * dAA - sA * sA) * (a * dBB - sB * sB)))
                for o, _ in got:
                    x = Ranges(leaf(e2)).of(o.val)
                    ok = ok and abs(x[0] - want) < 1e-9 and x[0] == x[1]
            msg = 'descriptors of equal size %d get their absolute correlation' % a
        if not ctx.require(ok, 'compare', g.where(), msg, 'score'):
            return
    ctx.count('pairs of sizes', n)


def frame(ctx):
    p = ctx.prog
    g = p.one('static_map::FrameBase::CalculateDescriptor') or \
        next((x for x in p.fns.values() if x.n == 'CalculateDescriptor'), None)
    ctx.need(g is not None, 'CalculateDescriptor')
    I = ctx.interp(opaque=['setInputCloud', 'getFinalDescriptor', 'GetInnerCloud'])
    ctx.analysed.add(g.where())
    n = 0
    for o in I.run(g):
        if o.kind != 'ret':
            continue
        n += 1
        s = [e for e in o.events() if e.k == 'call' and e.n == 'setInputCloud']
        fin = [e for e in o.events() if e.k == 'call' and
               e.n == 'getFinalDescriptor']
        w = [e for e in o.events() if e.k == 'write' and e.loc and
             e.loc[0] == 'f' and e.loc[1] == THIS]
        ok = len(s) == 1 and 'inner_cloud_' in T.show(s[0].args[0], -9) + str(
            [T.show(e.obj, -9) for e in o.events() if e.k == 'call' and
             e.n == 'GetInnerCloud'])
        ctx.require(ok, 'frame', g.where(), 'a frame describes its own cloud', 'own')
        if not ok:
            continue
        v = paths.truth_of(o.st.pc, s[0].res)
        ctx.require((len(w) == 1 and len(fin) == 1 and w[0].val == fin[0].res and
                     fin[0].obj == s[0].obj) if v else not w, 'frame', g.where(),
                    'a frame keeps a descriptor exactly after success', 'keep')
    ctx.require(n >= 2, 'frame', g.where(), 'success is tested', 'tested')
