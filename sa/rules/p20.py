"""Cubes, their octants and the octree."""
import itertools
from .. import terms as T
from ..mat import value_cell
from ..paths import fld, ld, THIS, calls, is_iv, iterations, structure, \
    Loop, flat
from ..table import bool_table, ret_paths, ev, Unknown
from ..interp import bty
from ..terms import c, ZERO, TRUE

SRCS = ['common/bounding_box.cc', 'common/octree.cc']
EXPLAIN = '''
Containment, the octant index and the eight sub-cubes are evaluated to closed
terms over centre, half size and point coordinates.  Containment is compared
with the closed-interval oracle, and the index of every contained point must
select, among the sub-cubes actually built, the one whose bounds lie on the
point's side of the centre on each axis, for all combinations of coordinates
below, on and above the centre and on and beyond the faces; the sub-cubes'
bounds must be the eight distinct half intervals.  For the tree every path of
the builder is followed: leaf exactly when the depth limit is reached or the
points fit, each point distributed once to the octant it belongs to, recursion
on the eight octants with depth plus one and matching cube and points.
'''
ASSUME = ['rounding of cube centres is not modelled']
MIN_OBLIGATIONS = 12
Q = 'static_map::common::'


def vecs(I, v, name):
    return [I.proj(I.proj(v, ('f', None, name)), ('[]', None, c(k)))
            for k in range(3)]


def check(ctx):
    p = ctx.prog
    C = [ld(('[]', fld('center_'), c(k))) for k in range(3)]
    MN = [ld(('[]', fld('min_'), c(k))) for k in range(3)]
    MX = [ld(('[]', fld('max_'), c(k))) for k in range(3)]
    H, S = ld(fld('half_size_')), ld(fld('size_'))

    def full(e, centre, h):
        r = dict(e)
        r[H], r[S] = h, 2 * h
        for k in range(3):
            r[C[k]], r[MN[k]], r[MX[k]] = centre[k], centre[k] - h, \
                centre[k] + h
        return r
    centre, h = (1, -2, 5), 4
    offs = (-5, -4, -1, 0, 1, 4, 5)

    # --- containment
    fn = p.one(Q + 'CubeBoundingBox::ContainsPoint')
    A = [ld(('[]', ('arg', fn.params[0]['n'], 0), c(k))) for k in range(3)]
    env0 = full({}, centre, h)
    syms = list(env0)
    I = ctx.interp()
    vals = [[env0[s]] for s in syms]
    pts = [[centre[k] + o for o in offs] for k in range(3)]

    def table(rule, fn, paths, oracle, what, A):
        n, bad = bool_table(paths, syms + A, vals + pts, oracle)
        ctx.count('point_positions', n)
        if bad:
            env, want, got = bad[0]
            ctx.bad(rule, fn.where(), '%s: for offsets (%s) from the centre of a '
                    'cube of half size %s it gives %s instead of %s' % (
                        what, ', '.join(str(env[A[k]] - centre[k])
                                        for k in range(3)), h,
                        ' or '.join(map(str, got)) or 'nothing', want), rule)
        else:
            ctx.ok(rule, fn.where(), '%s: %d positions' % (what, n))
    table('contains', fn, ret_paths(I.run(fn)),
          lambda e: all(abs(e[A[k]] - centre[k]) <= h for k in range(3)),
          'containment', A)

    # --- plain box
    fn = p.one(Q + 'BoundingBox::ContainsPoint')
    B = [ld(('[]', ('arg', fn.params[0]['n'], 0), c(k))) for k in range(3)]
    n, bad = bool_table(ret_paths(ctx.interp().run(fn)), MN + MX + B,
                        [(0,)] * 3 + [(2,)] * 3 + [(-1, 0, 1, 2, 3)] * 3,
                        lambda e: all(0 <= e[B[k]] <= 2 for k in range(3)))
    ctx.require(not bad, 'contains-box', fn.where(), 'a box contains its closed '
                'region (%d positions)' % n, 'box')

    # --- construction
    for fn in p.find(Q + 'CubeBoundingBox::CubeBoundingBox'):
        if len(fn.params) != 2 or fn.kind != 'ctor' and not fn.nodes:
            continue
        by_len = bty(fn.ty(fn.params[1]['t'])) == 'double'
        a = [('arg', fn.params[k]['n'], k) for k in range(2)]
        env = {}
        for k in range(3):
            if by_len:
                env[ld(('[]', a[0], c(k)))] = centre[k]
                env[ld(a[1])] = 2 * h
            else:
                env[ld(('[]', a[0], c(k)))] = centre[k] - h
                env[ld(('[]', a[1], c(k)))] = centre[k] + h
        I = ctx.interp()
        n = 0
        for o in I.run(fn):
            if o.kind != 'ret' or not holds(o, env):
                continue
            n += 1
            got = {}
            try:
                for nm in ('center_', 'min_', 'max_'):
                    got[nm] = tuple(ev(I.load(o.st, ('[]', fld(nm), c(k))), env)
                                    for k in range(3))
                got['half_size_'] = ev(I.load(o.st, fld('half_size_')), env)
            except Unknown as u:
                got['?'] = T.show(u.args[0])
            want = {'center_': centre, 'min_': tuple(x - h for x in centre),
                    'max_': tuple(x + h for x in centre), 'half_size_': h}
            ctx.require(got == want, 'cube-fields', fn.where(),
                        'a new cube has centre, bounds and half size %s' % got,
                        'cube/%s' % by_len)
        ctx.need(n, 'no path constructs a cube')

    # --- octants
    fng = p.one(Q + 'CubeBoundingBox::GenerateSubBoxes')
    I = ctx.interp()
    sub = [o for o in I.run(fng) if o.kind == 'ret' and holds(o, env0)]
    ctx.need(sub, 'no path returns the sub-cubes')
    boxes = None
    for o in sub:
        bx = []
        for i in range(8):
            b = I.proj(o.val, ('[]', None, c(i)))
            try:
                bx.append(tuple(tuple(ev(x, env0) for x in vecs(I, b, nm))
                                for nm in ('min_', 'max_', 'center_')) +
                          (ev(I.proj(b, ('f', None, 'half_size_')), env0),))
            except Unknown as u:
                bx.append(None)
                ctx.bad('octants', fng.where(), 'sub-cube %d depends on %s' % (
                    i, T.show(u.args[0])), 'octants/%d' % i)
        boxes = bx
        want = set()
        for s in itertools.product((0, 1), repeat=3):
            mn = tuple(centre[k] - h * (1 - s[k]) for k in range(3))
            want.add((mn, tuple(x + h for x in mn),
                      tuple(x + h / 2 for x in mn), h / 2))
        size = I.proj(o.val, ('f', None, '#size'))
        ctx.require(set(bx) == want and len(set(bx)) == 8 and size == c(8),
                    'octants', fng.where(), 'the eight sub-cubes are the eight '
                    'half-interval combinations', 'octants/tile')
    fn = p.one(Q + 'CubeBoundingBox::GetSubBoxIndexForPoint')
    A = [ld(('[]', ('arg', fn.params[0]['n'], 0), c(k))) for k in range(3)]

    def index(e):
        if not all(abs(e[A[k]] - centre[k]) <= h for k in range(3)):
            return -1
        mn = tuple(centre[k] if e[A[k]] >= centre[k] else centre[k] - h
                   for k in range(3))
        for i, b in enumerate(boxes):
            if b and b[0] == mn:
                return i
        return -2
    table('octant-index', fn, ret_paths(ctx.interp().run(fn)), index,
          'the octant index', A)

    # --- tree
    tree(ctx, p)


def holds(o, env):
    """the path is taken for these numbers"""
    for a, pol in o.st.pc.items():
        try:
            if bool(ev(a, env)) != pol:
                return False
        except Unknown:
            pass
    return True


def role(fn, what):
    for k, q in enumerate(fn.params):
        if what in fn.ty(q['t']):
            return k, ('arg', q['n'], k)
    return None, None


def tree(ctx, p):
    fn = p.one(Q + 'Octree::BuildTree')
    kb, B = role(fn, 'CubeBoundingBox')
    kp, P = role(fn, 'vector')
    kd = [k for k in range(len(fn.params)) if k not in (kb, kp)]
    ctx.need(len(kd) == 1 and kb is not None and kp is not None,
             'the tree builder takes depth, cube and points')
    kd = kd[0]
    D = ld(('arg', fn.params[kd]['n'], kd))
    size = ld(('f', P, '#size'))
    lim = ld(('f', fld('config_'), 'max_depth'))
    cap = ld(('f', fld('config_'), 'max_num_points_in_voxel'))
    I = ctx.interp(opaque=('GetSubBoxIndexForPoint', 'GenerateSubBoxes',
                           'BuildTree'))
    outs = I.run(fn)
    rets = [o for o in outs if o.kind == 'ret']
    paths = []
    for o in rets:
        nd = I.deref(o.val)
        leaf = I.load(o.st, ('f', nd, 'is_leaf_'))
        kids = [e for e in o.events() if e.k == 'call' and
                e.n == 'GenerateSubBoxes']
        pts = I.full(o.st, ('f', nd, 'points_'))
        kind = 'leaf' if leaf == TRUE and not kids and pts == ld(P) else \
            'split' if leaf != TRUE and kids else 'odd'
        if kind == 'odd':
            ctx.bad('leaf', fn.where(), 'a node is neither a leaf holding all '
                    'its points nor split', 'leaf/odd')
        paths.append((list(o.st.pc.items()), c(int(kind == 'leaf')), fn.where()))
        ctx.require(I.load(o.st, ('f', nd, 'depth_')) == D, 'leaf', fn.where(),
                    'a node records its depth', 'depth')
        if kind == 'leaf':
            md = I.load(o.st, fld('max_depth_'))
            old = ld(fld('max_depth_'))
            ok = True
            for a, b in ((1, 2), (2, 1), (2, 2)):
                env = {D: a, old: b, lim: 9, size: 0, cap: 1}
                try:
                    ok = ok and (not holds(o, env) or ev(md, env) == max(a, b))
                except Unknown:
                    ok = False
            ctx.require(ok, 'leaf', fn.where(), 'the reported depth is the '
                        'largest leaf depth', 'maxdepth')
    n, bad = bool_table(paths, [D, lim, size, cap],
                        [(0, 1, 2, 3), (3,), (0, 1, 3, 4, 5), (1, 4)],
                        lambda e: int(e[D] == e[lim] or e[size] <= e[cap]))
    if bad:
        e, want, got = bad[0]
        ctx.bad('leaf', fn.where(), 'at depth %d of %d with %d points (allowed '
                '%d) the node must %s' % (e[D], e[lim], e[size], e[cap],
                                          'be a leaf' if want else 'be split'),
                'leaf/when')
    else:
        ctx.ok('leaf', fn.where(), '%d combinations of depth and size' % n)
    # distribution and recursion, one arbitrary iteration each
    dist = rec = 0
    its = iterations(outs)
    pushed_to = {e.obj[1] for alts in its.values() for o, evs in alts
                 for e in evs if e.k == 'call' and e.obj is not None and
                 e.obj[0] == '[]' and e.n in ('push_back', 'emplace_back')}
    for key, alts in its.items():
        for o, evs in alts:
            gi = [e for e in evs if e.k == 'call' and
                  e.n == 'GetSubBoxIndexForPoint']
            rc = [e for e in evs if e.k == 'call' and e.n == 'BuildTree']
            if gi:
                dist += 1
                ok, why = distributed(o, evs, gi, P, B)
                ctx.require(ok, 'distribution', gi[0].where, why, 'distribute')
            if rc:
                rec += 1
                recursion(ctx, I, o, evs, rc, kd, kb, kp, D, B, pushed_to)
    ctx.need(dist and rec, 'no distribution or recursion loop found')
    for o in rets:
        for l in structure(o.events()):
            if isinstance(l, Loop):
                early = [e for e in flat(l.items) if e.k == 'call' and e.n in
                         ('GetSubBoxIndexForPoint', 'BuildTree')]
                ctx.require(not early, 'distribution', l.ev.where, 'the loop is '
                            'left only when all elements were visited', 'early')
    # --- entry
    fn = p.one(Q + 'Octree::InitWithPointCloud')
    M = ('arg', fn.params[0]['n'], 0)
    I = ctx.interp(opaque=('BuildTree',))
    outs = I.run(fn)
    ncol = ld(('f', M, '#cols'))
    filled = {}
    for key, alts in iterations(outs).items():
        for o, evs in alts:
            for e in evs:
                if e.k == 'write' and e.loc[0] == '[]' and is_iv(e.loc[2]):
                    cont, iv, val = e.loc[1], e.loc[2], e.val
                elif e.k == 'call' and e.n in ('push_back', 'emplace_back') and \
                        e.args:
                    cont, iv, val = e.obj, None, e.args[0]
                else:
                    continue
                cells = [value_cell(I.proj(val, ('[]', None, c(k))))
                         for k in range(3)]
                ok = all(x and x[0] == M and x[1] == c(k) and is_iv(x[2]) and
                         (iv is None or x[2] == iv)
                         for k, x in enumerate(cells))
                go = any(v[0] == '<' and is_iv(v[1]) and v[2] == ncol and pl or
                         v[0] == '==' and ncol in v and not pl
                         for v, pl in ((x.val, x.pol) for x in evs
                                       if x.k == 'cond'))
                once = len([1 for x in evs if x.k == 'write' and
                            x.loc[0] == '[]' and x.loc[1] == cont or
                            x.k == 'call' and x.obj == cont and x.n in
                            ('push_back', 'emplace_back')]) == 1
                skip = len(alts) > 1
                filled[cont] = ok and go and once and not skip
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        rc = [e for e in o.events() if e.k == 'call' and e.n == 'BuildTree']
        ok = len(rc) == 1
        ctx.require(ok, 'tree-root', fn.where(), 'the tree is built once',
                    'root/once')
        if not ok:
            continue
        n += 1
        e = rc[0]
        box = e.args[kb]
        cc, ms = fld('center', fld('config_')), ld(fld('max_size',
                                                       fld('config_')))
        good = I.proj(box, ('f', None, 'center_')) == ld(cc) and \
            T.scale(I.proj(box, ('f', None, 'half_size_')), 2) in (
                ms, T.scale(ms, 1.0))
        ctx.require(good, 'tree-root', e.where, 'the root cube is the configured '
                    'one', 'root/box')
        ctx.require(e.args[kd] == ZERO, 'tree-root', e.where,
                    'the root has depth zero', 'root/depth')
        loc = e.argl[kp][1] if e.argl and e.argl[kp][0] == '&' else None
        ctx.require(filled.get(loc, False), 'tree-root', e.where, 'every input '
                    'column reaches the root exactly once', 'root/points')
        ctx.require(I.load(o.st, fld('root_')) == e.res or e.res is None and
                    I.load(o.st, fld('root_'))[0] == 'res', 'tree-root',
                    e.where, 'the root is kept', 'root/kept')
    ctx.need(n, 'no path builds a tree')


def bound(x, iv):
    """the limit a loop condition compares its counter with"""
    if x.k != 'cond' or iv is None:
        return None
    v = x.val
    if v[0] == '<' and v[1] == iv and x.pol:
        return v[2]
    if v[0] == '==' and iv in v[1:] and not x.pol:
        return v[2] if v[1] == iv else v[1]
    return None


def distributed(o, evs, gi, P, B):
    e = gi[0]
    pt = e.args[0]
    if len(gi) != 1 or e.obj != B:
        return False, 'the index of a point is asked once, of the node\'s cube'
    if not (pt[0] == 'ld' and pt[1][0] == '[]' and pt[1][1] == P and
            is_iv(pt[1][2])):
        return False, 'the points are visited one after another'
    lim = [b for b in (bound(x, pt[1][2]) for x in evs) if b is not None]
    if not lim or lim[0] != ld(('f', P, '#size')):
        return False, 'all points are visited'
    r = e.res if e.res is not None else ('call', e.q, ld(B), pt)
    neg = None
    for a, pol in o.st.pc.items():
        if a[0] == '<' and a[1][0] in ('call', 'res') and a[2] == ZERO:
            neg, r = pol, a[1]
    ps = [x for x in evs if x.k == 'call' and x.n in ('push_back',
                                                      'emplace_back')]
    if neg:
        return not ps, 'a point outside the cube is stored nowhere'
    if len(ps) != 1:
        return False, 'a contained point is stored exactly once'
    x = ps[0]
    return (x.obj[0] == '[]' and x.obj[2] == r and x.args[0] == pt,
            'a contained point is stored with the octant it belongs to')


def recursion(ctx, I, o, evs, rc, kd, kb, kp, D, B, pushed_to):
    e = rc[0]
    a = e.args
    ctx.require(len(rc) == 1 and a[kd] == T.add(D, c(1)), 'recursion', e.where,
                'a child is one deeper than its parent', 'rec/depth')
    box = a[kb]
    bi = box[2][1] if box[0] == 'fld' and box[2][0] == '[]' else \
        box[1][2] if box[0] == 'ld' and box[1][0] == '[]' else None
    l = e.argl[kp] if e.argl else None
    pl = l[1] if l is not None and l[0] == '&' else None
    pi = pl[2] if pl is not None and pl[0] == '[]' else None
    ctx.require(bi is not None and bi == pi and is_iv(bi), 'recursion', e.where,
                'a child gets the points of its own sub-cube', 'rec/match')
    ctx.require(pl is not None and pl[0] == '[]' and pl[1] in pushed_to,
                'recursion', e.where, 'a child gets the distributed points',
                'rec/points')
    ctx.require(any(
        isinstance(x, str) and 'GenerateSubBoxes' in x
        for t in T.walk(box) if isinstance(t, tuple) for x in t),
        'recursion', e.where, 'a child gets one of the node\'s sub-cubes',
        'rec/box')
    up = [b for b in (bound(x, bi) for x in evs) if b is not None]
    ctx.require(bool(up) and up[0] == c(8) or up and T.num(up[0]) is None and
                T.has(up[0], '#size'), 'recursion', e.where,
                'all eight octants are visited', 'rec/all')
    ws = [x for x in evs if x.k == 'write' and x.loc[0] == '[]' and
          x.loc[1][0] == 'f' and x.loc[1][2] == 'children_' and x.loc[2] == bi]
    ps = [x for x in evs if x.k == 'call' and x.n in ('push_back',
                                                      'emplace_back')
          and x.obj[0] == 'f' and x.obj[2] == 'children_']
    ctx.require(len(ws) + len(ps) == 1, 'recursion', e.where,
                'the child is kept with the node', 'rec/kept')
