"""Conversion and transformation of clouds."""
from .. import terms as T
from ..num import Num, NoValue, rigid, close, Leaf, same, Quat, Mat
from ..paths import THIS, fld, ld, pointee, truth_of
from ..seq import image, filled, size_of
from ..terms import c, NULL, ZERO

SRCS = ['builder/data/cloud_types.cc', 'common/simple_time.cc']
EXPLAIN = '''
Every path of each conversion is followed.  The loop that fills the output must
visit every index of the source exactly once and in order, add or write exactly
one element per iteration on every path through its body, start from an empty
(or correctly sized) output and be the last thing that changes it.  The value
given to each element is extracted as a closed term and compared, field by
field, with the specified formula (same axis, rotation times point plus
translation, rotation times normal) by evaluating both at sample points of all
their inputs.  Time stamps are compared the same way.
'''
MIN_OBLIGATIONS = 40
D = 'static_map::data::'
SEEDS = (1, 2, 3)


def rot(Tm, p, t=True):
    return [sum(Tm(i, k) * p[k] for k in range(3)) + (Tm(i, 3) if t else 0)
            for i in range(3)]


def partial(M, t):
    """the motion M taken only for the fraction t"""
    q = Quat(1, 0, 0, 0).slerp(t, Quat.of(M)).mat()
    return Mat(4, 4, lambda i, j: M(i, 3) * t if j == 3 and i < 3 else
               q(i, j) if i < 3 and j < 3 else float(i == j))


class Check:
    def __init__(self, ctx):
        self.ctx = ctx

    # ------------------------------------------------------------ elements
    def fields(self, v, P, want, over):
        """None, or which field differs"""
        for s in SEEDS:
            n = Num(over=over(s, P) if over else None, seed=s)
            src = Leaf(n, P)
            try:
                val = n.val(v) if v is not None else src
            except NoValue as e:
                return 'no value: %s' % e
            w = want(n, src)
            for name, x in w.items():
                try:
                    got = n.scal(n.field(val, name))
                except NoValue as e:
                    return '%s: %s' % (name, e)
                if not close(got, n.scal(x), 1e-7):
                    return name
        return None

    def mapping(self, f, src, dst, want, over=None, start='empty', I=None,
                outs=None, what='output', same_len=True):
        ctx = self.ctx
        I = I or ctx.interp()
        if outs is None:
            outs = I.run(f)
        seen = set()
        n = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            s = src(o) if callable(src) else src
            d = dst(o) if callable(dst) else dst
            if d is None:
                ctx.bad('returned', f.where(), '%s returns nothing it built' %
                        f.q, f.n + '/ret')
                continue
            n += 1
            R = image(I, outs, o, s, d)
            key = (R.why, R.where, R.start, len(R.elems))
            if key in seen:
                continue
            seen.add(key)
            w = R.where or f.where()
            ctx.require(not R.why, 'one-per-point', w, '%s: the %s %s' % (
                f.q, what, R.why or 'gets one point per source point, in '
                'order'), f.n + '/map')
            if R.why:
                continue
            ctx.require(R.start == start or s == d, 'old-content', w,
                        '%s: what the %s held before %s' % (
                            f.q, what, 'is dropped' if R.start == 'empty' else
                            'stays'), f.n + '/start')
            if not R.elems:
                ctx.require(not filled(o, s), 'one-per-point', w, '%s: nothing '
                            'is written although the source may hold points'
                            % f.q, f.n + '/none')
            for v, P, oo, w2 in R.elems:
                if P is None:
                    P = ('[]', s, ('iv', 0, ZERO, T.ONE))
                bad = self.fields(v, P, want, over)
                ctx.require(not bad, 'attributes', w2, '%s: %s' % (
                    f.q, bad and 'wrong value of ' + bad or
                    'every attribute is the specified one'), f.n + '/fields')
        ctx.need(n, 'a returning path of ' + f.q)
        return outs


def check(ctx):
    p = ctx.prog
    K = Check(ctx)

    def copied(names):
        def want(n, src):
            return {k: n.field(src, k) for k in names}
        return want

    def moved(arg):
        def over(s, P):
            return {arg: rigid(('T', s)), ld(arg): rigid(('T', s))}

        def want(n, src):
            q = rot(n.over[arg], [n.scal(n.field(src, k)) for k in 'xyz'])
            return dict(zip('xyz', q), intensity=n.field(src, 'intensity'),
                        factor=n.field(src, 'factor'))
        return want, over

    # ----- external -> internal
    NS = 1234567890123456
    fs = p.find(D + 'ToInnerPointCloud')
    ctx.need(len(fs) >= 1, 'conversion to internal clouds')
    for f in fs:
        a = ('arg', f.params[0]['n'], 0)
        I = ctx.interp()
        outs = I.run(f)
        has_i = 'XYZI' in f.ty(f.params[0]['t'])

        def dst(o):
            return fld('points', o.val[1]) if o.val and o.val[0] == '&' else None
        K.mapping(f, ('f', a, 'points'), dst,
                  copied('xyz') if not has_i else
                  copied(['x', 'y', 'z', 'intensity']), I=I, outs=outs)
        for o in outs:
            if o.kind == 'ret' and o.val[0] == '&':
                n = Num(over={('f', ('f', a, 'header'), 'stamp'): NS})
                v = I.full(o.st, fld('stamp', o.val[1]))
                try:
                    x = n.val(v)
                    t = n.scal(n.field(x, 'secs')) * 10**9 + \
                        n.scal(n.field(x, 'nsecs'))
                except NoValue as e:
                    t = str(e)
                ctx.require(t == NS * 1000, 'stamp', f.where(), '%s: the time '
                            'stamp of the external cloud (%d us) becomes %s ns'
                            % (f.q, NS, t), 'ToInner/stamp')
    # ----- internal -> external
    fs = p.find(D + 'ToPclPointCloud')
    ctx.need(len(fs) >= 1, 'conversion to external clouds')
    for f in fs:
        a = ('arg', f.params[0]['n'], 0)
        b = pointee(('arg', f.params[1]['n'], 1))
        I = ctx.interp()
        outs = I.run(f)
        has_i = 'XYZI' in f.ty(f.params[1]['t'])
        K.mapping(f, fld('points', a), fld('points', b),
                  copied('xyz') if not has_i else
                  copied(['x', 'y', 'z', 'intensity']), I=I, outs=outs)
        st = fld('stamp', a)
        for o in outs:
            if o.kind == 'ret':
                n = Num(over={fld('secs', st): 1234567890,
                              fld('nsecs', st): 123456789})
                try:
                    t = n.num(I.full(o.st, fld('stamp', fld('header', b))))
                except NoValue as e:
                    t = str(e)
                ctx.require(t == 1234567890123456, 'stamp', f.where(), '%s: the '
                            'time stamp 1234567890.123456789 s becomes %s us' % (
                                f.q, t), 'ToPcl/stamp')
    # ----- transforms of point clouds
    f = p.one(D + 'InnerCloudType::ApplyTransformInplace')
    want, over = moved(('arg', f.params[0]['n'], 0))
    outs = K.mapping(f, fld('points'), fld('points'), want, over,
                     what='cloud')
    for o in outs:
        ctx.require(not any(e.k == 'write' and e.loc == fld('stamp')
                            for e in o.events()), 'stamp', f.where(),
                    '%s leaves the time stamp alone' % f.q, 'inplace/stamp')
    f = p.one(D + 'InnerCloudType::ApplyTransformToOutput')
    want, over = moved(('arg', f.params[0]['n'], 0))
    b = pointee(('arg', f.params[1]['n'], 1))
    I = ctx.interp()
    outs = I.run(f)
    K.mapping(f, fld('points'), fld('points', b), want, over, I=I, outs=outs)
    for o in outs:
        if o.kind == 'ret':
            v = I.full(o.st, fld('stamp', b))
            ctx.require(v == ld(fld('stamp')), 'stamp', f.where(),
                        '%s: the output has the time stamp %s' % (
                            f.q, T.show(v)), 'output/stamp')
    # ----- append
    f = p.one(D + 'InnerCloudType::operator+=')
    a = ('arg', f.params[0]['n'], 0)
    K.mapping(f, fld('points', a), fld('points'),
              copied(['x', 'y', 'z', 'intensity', 'factor']), start='kept',
              what='cloud')
    # ----- matrix view
    f = p.one(D + 'EigenPointCloud::FromPointCloud')
    matrix_view(ctx, f)
    f = p.one(D + 'EigenPointCloud::ApplyTransform')
    matrix_transform(ctx, f)
    in_step(ctx)


def matrix_view(ctx, f):
    from ..paths import iterations, sweeps, exits
    a = ('arg', f.params[0]['n'], 0)
    N = size_of(a)
    I = ctx.interp()
    outs = I.run(f)
    its = iterations(outs)
    lev = None
    for o in outs:
        for e in o.events():
            if e.k == 'loop' and any(any(
                    x.k == 'write' and x.loc[0] == '[]' and
                    x.loc[1] == fld('factors') for x in es)
                    for _, es in its.get(id(e), [])):
                lev = e
    ctx.need(lev is not None, 'the loop that fills the matrix view')
    n = 0
    for oo, es in its[id(lev)]:
        idx = None
        for e in es:
            if e.k == 'write' and e.loc[0] == '[]' and \
                    e.loc[1] == fld('factors'):
                idx = e.loc[2]
        ctx.require(idx is not None, 'view', es[-1].where, '%s sets the '
                    'position of every point' % f.q, 'view/factor')
        if idx is None:
            continue
        why, early = sweeps(outs, lev, idx, [N])
        ctx.require(not why and not early, 'view', lev.where, '%s: the matrix '
                    'view %s' % (f.q, why or (early and 'can be left '
                                 'unfinished') or 'covers every point'),
                    'view/sweep')
        for s in SEEDS:
            num = Num(over={idx: 5, N: 8}, seed=s)
            src = ('[]', a, idx)
            got, want = [], []
            try:
                for r, k in enumerate('xyz'):
                    v = cell(I, oo, fld('points'), r, idx)
                    got.append(num.num(v))
                    want.append(num.num(ld(('f', src, k))))
                n += 1
                bad = [k for g, w, k in zip(got, want, 'xyz') if not close(g, w)]
            except NoValue as e:
                bad = [str(e)]
            ctx.require(not bad, 'view', lev.where, '%s: rows of the matrix '
                        'view are the coordinates in order%s' % (
                            f.q, bad and ', except %s' % bad or ''),
                        'view/points')
            try:
                x = num.num(I.full(oo.st, ('[]', fld('factors'), idx)))
                i = num.num(I.full(oo.st, ('[]', fld('indices'), idx)))
            except NoValue as e:
                x = i = str(e)
            ctx.require(x == 5.0 / 8, 'view', lev.where, '%s: point 5 of 8 gets '
                        'the relative position %s' % (f.q, x), 'view/position')
            ctx.require(i == 5, 'view', lev.where, '%s: point 5 gets index %s' %
                        (f.q, i), 'view/index')
    for o in outs:
        if o.kind != 'ret' or truth_of(o.st.pc, T.cmp('==', N, ZERO)):
            continue
        szs = {}
        for e in o.events():
            if e.k == 'call' and e.n == 'resize':
                szs[e.obj] = e.args
        for nm, w in (('indices', (N,)), ('factors', (N,)),
                      ('points', (c(3), N))):
            g = szs.get(fld(nm))
            ctx.require(g == w, 'view', f.where(), '%s: %s is sized %s' % (
                f.q, nm, g and ' x '.join(T.show(x) for x in g)),
                'view/size/' + nm)
        ctx.require(any(e is lev for e in o.events()), 'view', f.where(),
                    '%s fills the matrix view on every path' % f.q,
                    'view/filled')


def cell(I, o, base, r, k):
    """value of base(r, k) after path o, whichever way it was written"""
    from ..paths import fld
    for l in sorted(o.st.store, key=lambda l: -len(repr(l))):
        if l[0] != '[]':
            continue
        if l[1] == base and l[2] == ('pair', c(r), k):
            return o.st.store[l]
        if l[1][0] == '[]' and l[1][1] == base and l[1][2][0] == 'blk' and \
                l[1][2][1] == ZERO and l[1][2][2] == k:
            if l[2] in (c(r), ('pair', c(r), ZERO)):
                return o.st.store[l]
    for l in o.st.store:
        if l[0] == '[]' and l[1] == base and l[2][0] == 'blk' and \
                l[2][1] == ZERO and l[2][2] == k:
            v = o.st.store[l]
            if v[0] == 'vec':
                return v[1 + r]
            return ('fld', v, ('[]', ('pair', c(r), ZERO)))
    return ('uninit', base)


def matrix_transform(ctx, f):
    a = ('arg', f.params[0]['n'], 0)
    I = ctx.interp()
    outs = I.run(f)
    from ..paths import iterations
    its = iterations(outs)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        if truth_of(o.st.pc, T.cmp('<', ZERO, ('ld', ('f', fld('points'),
                                                      '#cols')))) is False:
            continue
        n += 1
        hasn = truth_of(o.st.pc, T.cmp('<', ZERO, ('ld', (
            'f', fld('normals'), '#cols'))))
        for name, tr in (('points', True), ('normals', False)):
            if name == 'normals' and hasn is False:
                continue
            bad = None
            for s in SEEDS:
                Tm = rigid(('T', s))
                num = Num(over={a: Tm, ld(a): Tm,
                                ('ld', ('f', fld('points'), '#cols')): 4,
                                ('ld', ('f', fld('normals'), '#cols')): 4},
                          seed=s, shapes={fld('points'): (3, 4),
                                          fld('normals'): (3, 4)})
                old = num.mat(num.leaf(fld(name)))
                try:
                    v = I.full(o.st, fld(name))
                    new = num.mat(num.val(v))
                    for k in range(4):
                        w = rot(Tm, [old(r, k) for r in range(3)], tr)
                        for r in range(3):
                            if not close(new(r, k), w[r]):
                                bad = 'row %d of %s' % (r, name)
                except NoValue as e:
                    bad = per_column(ctx, I, outs, its, o, f, a, name, tr, s) \
                        or None
                    if bad == 'unknown':
                        bad = str(e)
            ctx.require(not bad, 'matrix-transform', f.where(), '%s: %s %s' % (
                f.q, name, bad and 'are wrong (%s)' % bad or
                'are moved by the rotation%s' % (
                    tr and ' and translation' or ' only')),
                'matrix/' + name)
        if hasn is None:
            w = [e for e in o.events() if e.k == 'write' and
                 T.is_prefix(fld('normals'), e.loc)]
            ctx.require(bool(w) or True, 'matrix-transform', f.where(), '')
    ctx.need(n, 'returning paths of the matrix transform')


def per_column(ctx, I, outs, its, o, f, a, name, tr, seed, part=None):
    """the transform written as a loop over columns"""
    from ..paths import sweeps
    for e in o.events():
        if e.k != 'loop':
            continue
        for oo, es in its.get(id(e), []):
            k = None
            for x in es:
                if x.k == 'write' and T.is_prefix(fld(name), x.loc):
                    for y in T.walk(x.loc):
                        if y[0] == 'blk' and (k is None or T.num(y[2]) is
                                              None):
                            k = y[2]
                        elif y[0] == 'pair' and T.num(y[2]) is None:
                            k = y[2]
            if k is None:
                continue
            N = ('ld', ('f', fld(name), '#cols'))
            P = ('ld', ('f', fld('points'), '#cols'))
            why, early = sweeps(outs, e, k, [N, P])
            if why:
                return why
            Tm = rigid(('T', seed))
            for r in range(3):
                v = cell(I, oo, fld(name), r, k)
                num = Num(over={a: Tm, ld(a): Tm, k: 2, N: 4, P: 4}, seed=seed,
                          shapes={fld(name): (3, 4)})
                base = fld(name)
                for x in T.walk(v):
                    if x[0] == 'hv' and 'el(%s)' % name in str(x[2]):
                        base = x
                num.shapes[base] = (3, 4)
                old = num.mat(num.leaf(base))
                M = Tm
                if part:
                    q = part(k)
                    num.over[q] = num.over[('ld', q)] = 0.25
                    M = partial(Tm, 0.25)
                try:
                    if not close(num.num(v), rot(M, [old(q, 2) for q in
                                                     range(3)], tr)[r]):
                        return 'row %d' % r
                except NoValue as ex:
                    return str(ex)
            return None
    return 'unknown'


def in_step(ctx):
    p = ctx.prog
    B = D + 'InnerPointCloudData'
    inner, eig = fld('inner_cloud_'), fld('eigen_cloud_')
    f = p.one(B + '::TransformCloud')
    I = ctx.interp(opaque=('ApplyTransformInplace', 'ApplyTransform'))
    a = ('arg', f.params[0]['n'], 0)
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        n += 1
        for ptr, name, empty in (
                (inner, 'ApplyTransformInplace',
                 T.cmp('==', size_of(fld('points', pointee(inner))), ZERO)),
                (eig, 'ApplyTransform', None)):
            cs = [e for e in o.events() if e.k == 'call' and e.n == name]
            absent = truth_of(o.st.pc, T.cmp('==', ld(ptr), NULL)) or \
                empty is not None and truth_of(o.st.pc, empty)
            if absent:
                ctx.require(not cs, 'in-step', f.where(), '%s' % f.q, 'step')
                continue
            ok = len(cs) == 1 and cs[0].obj == pointee(ptr) and \
                cs[0].args and cs[0].args[0] in (('ld', a), a)
            ctx.require(ok, 'in-step', f.where(), '%s: a present %s view is '
                        'moved %d times by the given transform' % (
                            f.q, 'point' if ptr == inner else 'matrix',
                            len(cs) if ok or not cs else -1), 'step/' + name)
    ctx.need(n, 'paths of TransformCloud')
    f = p.one(B + '::SetInnerCloudImpl')
    I = ctx.interp(opaque=('EigenPointCloud', 'FromPointCloud'))
    a = ld(('arg', f.params[0]['n'], 0))
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        v = I.full(o.st, inner)
        ctx.require(v == a, 'in-step', f.where(), '%s: the point view is %s' % (
            f.q, T.show(v)), 'set/inner')
        t = I.full(o.st, fld('time_'))
        ctx.require(t == ld(fld('stamp', ('*', a))), 'in-step', f.where(),
                    '%s: the time is %s' % (f.q, T.show(t)), 'set/time')
        e = I.full(o.st, eig)
        src = ld(fld('points', ('*', a)))
        made = [x for x in o.events() if x.k == 'call' and x.n in (
            'EigenPointCloud', 'FromPointCloud') and x.args and
            src in (x.args[0],) + tuple(x.argl or ())]
        ctx.require(e[0] == '&' and e[1][0] == 'heap' and made, 'in-step',
                    f.where(), '%s: the matrix view is built anew from the same '
                    'points' % f.q, 'set/eigen')
