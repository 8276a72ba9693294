"""Motion compensation of scans."""
from .. import terms as T
from ..lib_scan import analyse, compensators
from ..num import Num, rigid, Leaf
from ..paths import THIS, fld, ld, pointee, truth_of, iterations
from ..terms import NULL
from . import p27, p29

SRCS = ['builder/map_builder.cc', 'builder/data/cloud_types.cc']
EXPLAIN = '''
Every function that compensates a scan is found by its signature.  On every path
its output is filled with one point per source point, in order, starting empty;
the value of each point is extracted as a closed term and compared with the
motion interpolated at the point's own fraction by evaluating both at sample
points.  In the scan matching loop every use of compensation is followed: which
cloud it reads, by which motion, where the result goes, and that the cloud
matched and the cloud kept both come from it.
'''
MIN_OBLIGATIONS = 60
FR = (0.25, 0.5, 1.0)
D = 'static_map::data::'


def check(ctx):
    p = ctx.prog
    K = p27.Check(ctx)
    fs = compensators(p)
    ctx.need(fs, 'a function that compensates a scan')
    for f in fs:
        src, mot = (('arg', f.params[k]['n'], k) for k in (0, 1))
        out = pointee(('arg', f.params[2]['n'], 2))

        def over(s, P):
            t = FR[s % 3]
            q = ('f', P, 'factor')
            M = rigid(('T', s))
            return {mot: M, ld(mot): M, q: t, ('ld', q): t}

        def want(n, e):
            t = n.scal(n.field(e, 'factor'))
            q = p27.rot(p27.partial(n.over[mot], t),
                        [n.scal(n.field(e, k)) for k in 'xyz'])
            return dict(zip('xyz', q), intensity=n.field(e, 'intensity'),
                        factor=t)
        I = ctx.interp()
        outs = I.run(f)
        K.mapping(f, fld('points', src), fld('points', out), want, over, I=I,
                  outs=outs)
        for o in outs:
            if o.kind == 'ret':
                v = I.full(o.st, fld('stamp', out))
                ctx.require(v == ld(fld('stamp', src)), 'stamp', f.where(),
                            '%s: the compensated scan has the time stamp %s' % (
                                f.q, T.show(v)), 'stamp')
    matrix(ctx, p.one(D + 'EigenPointCloud::ApplyMotionCompensation'))
    use(ctx)


def matrix(ctx, f):
    """each column moved by its own fraction"""
    a = ('arg', f.params[0]['n'], 0)
    I = ctx.interp()
    outs = I.run(f)
    its = iterations(outs)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        for s in p27.SEEDS:
            bad = p27.per_column(ctx, I, outs, its, o, f, a, 'points', True, s,
                                 lambda k: ('[]', fld('factors'), k))
            ctx.require(not bad, 'matrix', f.where(), '%s: points are not moved '
                        'by their own part of the motion (%s)' % (f.q, bad),
                        'matrix/points')
    ctx.need(n, 'returning paths of the matrix compensation')


def use(ctx):
    f, I, outs, its, comp = analyse(ctx)
    names = {x.n for x in comp}
    n = 0
    for it in its:
        if not it.align:
            continue
        al = it.align[0]
        on = None
        for e in it.evs:
            if e.k == 'cond' and any(isinstance(x, tuple) and x[0] == 'f' and
                                     x[-1] == 'enable' and
                                     x[1][-1] == 'motion_compensation_options'
                                     for x in T.walk(e.val)):
                on = e.pol
        pos = {id(e): k for k, e in enumerate(it.evs)}
        cs = [e for e in it.evs if e.k == 'call' and e.n in names]
        sets = [e for e in it.evs if e.k == 'call' and e.n == 'SetInnerCloud'
                and e.obj == it.src]
        if not on:
            ctx.require(not sets, 'use', al.where, 'a scan is replaced although '
                        'compensation is off', 'use/off')
            continue
        n += 1
        raw = {it.new.res}
        for e in it.evs:
            if e.k == 'call' and e.n == 'GetInnerCloud' and e.obj == it.src and \
                    not any(pos[id(x)] < pos[id(e)] for x in sets):
                raw.add(e.res)
        acc = accumulated(it)
        fin = p29.final(it)
        for e in cs:
            a0 = e.args[0]
            ok = a0 in {('ld', ('*', r)) for r in raw} | {('*', r) for r in raw}
            ctx.require(ok, 'input', e.where, 'compensation reads a scan that '
                        'is not the uncompensated input', 'use/input')
            first = pos[id(e)] < pos[id(al)]
            goal = al.args[0] if first else fin
            ok = any(p29.eq(e.args[1], lambda m: p29.mul(
                m, m.inverse(m.val(s)), m.val(goal))) for s in acc)
            ctx.require(ok, 'motion', e.where, 'the motion compensated is not '
                        'the %s relative to the last scan' % (
                            'guess' if first else 'alignment'), 'use/motion')
        outs_ = {e.args[2]: e for e in cs}
        before = [e for e in sets if pos[id(e)] < pos[id(al)]]
        ss = [e for e in it.evs if e.k == 'call' and e.n == 'SetInputSource'
              and pos[id(e)] < pos[id(al)]]
        after = [e for e in sets if pos[id(e)] > pos[id(al)]]
        for e in sets:
            x = outs_.get(e.args[0])
            ctx.require(x is not None and pos[id(x)] < pos[id(e)], 'installed',
                        e.where, 'the scan is replaced by something that was '
                        'not compensated', 'use/installed')
        ctx.require(bool(before) and bool(ss) and
                    pos[id(before[-1])] < pos[id(ss[-1])], 'matched', al.where,
                    'the scan matched is not compensated', 'use/matched')
        kf = it.keyframes()
        ok = bool(after) and all(
            pos[id(outs_[after[-1].args[0]])] > pos[id(al)]
            for _ in kf if after[-1].args[0] in outs_)
        ctx.require(ok, 'kept', al.where, 'the scan kept is not compensated by '
                    'the alignment', 'use/kept')
    ctx.require(n > 0, 'use', f.where(), 'compensation is never used when '
                'switched on', 'use/any')


def accumulated(it):
    """loop variables that end as the motion since the reference, or identity
    after a key frame"""
    r = []
    fin = p29.final(it)
    for l, s in it.syms.items():
        if s[0] != 'hv' or l[0] not in 'vf':
            continue
        v = it.end(l)
        if v[0] == 'I' and it.keyframes() or \
                not it.keyframes() and (v == fin or p29.eq(v, fin)):
            r.append(s)
    return r
