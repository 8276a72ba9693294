"""How a point filter's Filter() distributes the input points."""
from . import terms as T
from .terms import c, ZERO, ONE, NULL
from .paths import (Loop, structure, iterations, flat, fld, ld, pointee, THIS,
                    conds)

FILTERS = {
    'Range': 'pre_processors/filter_range.cc',
    'AxisRange': 'pre_processors/filter_axis_range.cc',
    'BoundingBoxRemoval': 'pre_processors/filter_bounding_box.cc',
    'RandomSampler': 'pre_processors/filter_random_sample.cc',
    'GroundRemoval2': 'pre_processors/filter_ground_removal2.cc',
}
SRCS = sorted(FILTERS.values()) + ['pre_processors/filter_interface.cc',
                                   'common/bounding_box.cc']
NS = 'static_map::pre_processers::filter::'
I_ = ('idx',)

INNER = fld('inner_cloud_')
INP = ('*', ld(INNER))
IN = ('f', INP, 'points')
SIZE = ld(('f', IN, '#size'))
INL, OUTL = fld('inliers_'), fld('outliers_')
MUT = {'push_back', 'emplace_back', 'clear', 'assign', 'insert', 'erase',
       'resize', 'pop_back', 'swap', 'emplace', 'pop_front', 'push', 'pop'}


def run(ctx, cls):
    fn = ctx.prog.one(cls + '::Filter')
    ctx.need(len(fn.params) == 1, cls + '::Filter takes one cloud')
    # tasks handed to the pool are followed for what they write
    I = ctx.interp(opaque=('enqueue', 'ThreadPool'),
                   effects=('FitSegments', 'ClusterGround', 'FitLines',
                            'VerticalDistanceToSegment'))
    I.this_class = NS + cls
    outs = I.run(fn)
    return fn, I, outs


def locs(fn):
    a = ('arg', fn.params[0]['n'], 0)
    out = ('*', ld(a))
    return ld(a), out, ('f', out, 'points')


def canon_iv(t, iv):
    return T.subst(t, {iv: I_}) if iv is not None else t


def mutations(items, conts):
    """(container, event) for every event in items that changes one"""
    for e in flat(items):
        if e.k == 'call' and e.n in MUT and e.obj in conts:
            yield e.obj, e
        elif e.k == 'call' and e.n == 'swap' and e.argl and \
                e.argl[0][1] in conts:
            yield e.argl[0][1], e


def touches(e, heads):
    """does the event write below one of the locations"""
    if e.k == 'write':
        return any(T.is_prefix(h, e.loc) for h in heads)
    if e.k == 'call' and e.obj is not None and e.n in MUT:
        return any(T.is_prefix(h, e.obj) for h in heads)
    if e.k == 'call':
        # handed to a call that may change it
        return any(a[0] == '&' and any(T.is_prefix(h, a[1]) or
                                       T.is_prefix(a[1], h) for h in heads)
                   for a in (e.argl or ()))
    return False


class Split:
    """what one returning path does with the points"""

    def __init__(self):
        self.cases = []        # (guards, 'in'|'out'|problem, where)
        self.bad = []          # (where, message, key)


def loop_iv(loop, backs):
    """the variable this loop counts with: starts at 0, advances by one and
    is below the number of points exactly while the loop runs"""
    for w, v in loop.ev.val:
        iv = v[2] if v[0] == 'it' else v
        if iv[0] != 'iv' or iv[2] != ZERO or T.num(iv[3]) != 1:
            continue
        yield iv


def covers(iv, loop, backs, size):
    """all iterations run with iv < size and the loop is left only with iv at
    the size"""
    less = ('<', iv, size)
    eq = ('==',) + tuple(sorted((iv, size), key=repr))
    for o, evs in backs:
        pc = o.st.pc
        if not (pc.get(less) is True or pc.get(eq) is False):
            return False
    ex = [(e.val, e.pol) for e in loop.items if e.k == 'cond']
    return (less, False) in ex or (eq, True) in ex


def analyse(ctx, cls, report):
    """checks the partition on every returning path; returns the keep/remove
    cases of all processing paths.  report(ok, rule, where, msg, key)"""
    fn, I, outs = run(ctx, cls)
    CP, OUT, OUTP = locs(fn)
    iters = iterations(outs)
    nullin = T.cmp('==', NULL, ld(INNER))
    nullout = T.cmp('==', NULL, CP)
    heads = [OUT, INL, OUTL]
    allcases = []
    nproc = nnull = 0
    for o in outs:
        if o.kind == 'throw' or o.kind == 'back':
            continue
        evs = o.events()
        if o.kind == 'abort':      # a failed CHECK stops the program
            continue
        pc = o.st.pc
        if pc.get(nullin) is not False or pc.get(nullout) is not False:
            w = [e for e in evs if touches(e, heads + [INP])]
            report(not w, 'null-does-nothing', w[0].where if w else fn.where(),
                   'with a missing input or output cloud %s changes nothing'
                   % fn.q, cls + '/null')
            nnull += 1
            continue
        nproc += 1
        allcases += one_path(ctx, cls, fn, o, evs, iters, OUT, OUTP, report)
    ctx.need(nproc > 0, '%s::Filter has no path that processes points' % cls)
    report(nnull > 0, 'null-does-nothing', fn.where(),
           '%s has a path for missing clouds' % fn.q, cls + '/null')
    ctx.count('processing_paths', nproc)
    ctx.count('null_paths', nnull)
    return fn, allcases


def one_path(ctx, cls, fn, o, evs, iters, OUT, OUTP, report):
    items = structure(evs)
    fresh = {INL: False, OUTL: False, OUTP: False}
    whole = False              # the output was assigned the whole input cloud
    stamp = None
    pre = [(e.val, e.pol) for e in items if not isinstance(e, Loop)
           and e.k == 'cond']
    per_loop = []
    for e in items:
        if isinstance(e, Loop):
            backs = iters.get(id(e.ev), [])
            conts = {INL: 'in', OUTL: 'out', OUTP: 'pts'}
            # a partially executed iteration that leaves the loop
            part = list(mutations(e.items, conts))
            if part:
                report(False, 'every-index-once', part[0][1].where,
                       'the loop can be left after an element was stored, '
                       'before the remaining points were looked at',
                       cls + '/break')
                continue
            cs = []
            used = False
            for bo, bev in backs:
                ms = list(mutations(structure(bev), conts))
                used = used or bool(ms)
                cs.append((bo, bev, ms))
                for bl in structure(bev):
                    if isinstance(bl, Loop):
                        for b2, be2 in iters.get(id(bl.ev), []):
                            m2 = list(mutations(structure(be2), conts))
                            if m2:
                                report(False, 'every-index-once',
                                       m2[0][1].where,
                                       'elements are stored from a nested '
                                       'loop', cls + '/nested')
            if not used:
                # still must not write the lists some other way
                for bo, bev in backs:
                    for x in bev:
                        if x.k == 'write' and any(
                                T.is_prefix(h, x.loc) for h in conts):
                            report(False, 'every-index-once', x.where,
                                   'a list element is overwritten',
                                   cls + '/overwrite')
                continue
            for h in conts:
                if any(m[0] == h for _, _, ms in cs for m in ms) and \
                        not (fresh[h] is True):
                    report(False, 'nothing-left-over', e.ev.where,
                           '%s is appended to before it was emptied on a path '
                           'through %s' % (T.show(h), fn.q),
                           '%s/%s/stale' % (cls, conts[h]))
            ivs = [iv for iv in loop_iv(e, backs) if covers(iv, e, backs, SIZE)]
            derived = derived_loop(e, backs)
            if not ivs and not derived:
                report(False, 'every-index-once', e.ev.where,
                       'the loop that stores elements does not visit every '
                       'index from 0 to the number of points once, in order',
                       cls + '/range')
                continue
            per_loop.append((e, ivs[0] if ivs else None, derived, cs, backs))
        elif e.k == 'call' and e.n == 'clear' and e.obj in fresh:
            fresh[e.obj] = True
            if e.obj == OUTP:
                whole = False
        elif e.k == 'call' and e.n == 'assign' and e.obj in fresh:
            fresh[e.obj] = 'other'
        elif e.k == 'write' and e.loc in fresh:
            if e.val[0] == 'cont' and e.val[2] == ZERO:
                fresh[e.loc] = True
            elif e.loc == OUTP and e.val == ld(IN):
                whole, fresh[OUTP] = True, 'whole'
            else:
                fresh[e.loc] = 'other'
        elif e.k == 'write' and e.loc == OUT:
            if e.val == ld(INP):
                whole, fresh[OUTP], stamp = True, 'whole', True
            else:
                fresh[OUTP] = 'other'
        elif e.k == 'write' and e.loc == ('f', OUT, 'stamp'):
            stamp = e.val == ld(('f', INP, 'stamp'))
        elif e.k == 'call' and e.obj in fresh and e.n in MUT:
            if e.n in ('push_back', 'emplace_back', 'insert', 'resize', 'erase',
                       'pop_back', 'swap'):
                report(False, 'every-index-once', e.where,
                       '%s is changed outside the per-point loop' %
                       T.show(e.obj), cls + '/extra')
        elif e.k == 'call' and e.q.startswith('std::') and e.n in (
                'reverse', 'shuffle', 'random_shuffle', 'sort', 'rotate',
                'unique', 'remove', 'remove_if') and e.args and \
                e.args[0][0] == 'it' and e.args[0][1] in fresh:
            if e.n != 'sort' or e.args[0][1] == OUTP:
                report(False, 'order-preserved', e.where,
                       'the list %s is rearranged after it was built' %
                       T.show(e.args[0][1]), cls + '/order')
    # every list is emptied or replaced
    for h, nm in ((INL, 'in'), (OUTL, 'out'), (OUTP, 'pts')):
        report(fresh[h] in (True, 'whole'), 'nothing-left-over', fn.where(),
               '%s starts empty on every processing path of %s' %
               (T.show(h), fn.q), '%s/%s/stale' % (cls, nm))
    report(stamp is True, 'stamp-kept', fn.where(),
           'the output of %s carries the time stamp of the input' % fn.q,
           cls + '/stamp')
    # combine the loops of this path: what happens to an arbitrary index
    cases = [(list(pre), (), fn.where())]
    for e, iv, derived, cs, backs in per_loop:
        if derived:
            base, contents = derived
            nc = []
            for g, acts, w in cases:
                if (base,) in [a[:1] for a in acts if a[0] == base]:
                    nc.append((g, acts + contents, w))
                else:
                    nc.append((g, acts, w))
            cases = nc
            continue
        nc = []
        for g, acts, w in cases:
            for bo, bev, ms in cs:
                gg = list(g)
                ok = True
                seen = dict(gg)
                for x in bev:
                    if x.k != 'cond':
                        continue
                    a = canon_iv(x.val, iv)
                    if a in seen and seen[a] != x.pol:
                        ok = False
                        break
                    seen[a] = x.pol
                    gg.append((a, x.pol))
                if not ok:
                    continue
                act = []
                for h, m in ms:
                    v = canon_iv(m.args[0], iv) if m.args else None
                    if m.n not in ('push_back', 'emplace_back'):
                        act.append(('bad', m.where, 'list changed by %s' % m.n))
                    elif h == OUTP:
                        act.append(('pts', v, m.where))
                    else:
                        act.append(('in' if h == INL else 'out', v, m.where))
                nc.append((gg, acts + tuple(act), bev[0].where if bev else w))
        cases = nc
    out = []
    want_pt = ld(('[]', IN, I_))
    for g, acts, w in cases:
        kinds = [a[0] for a in acts]
        w2 = acts[0][2] if acts and len(acts[0]) > 2 and acts[0][0] != 'bad' \
            else w
        badv = [a for a in acts if a[0] in ('in', 'out') and a[1] != I_]
        badp = [a for a in acts if a[0] == 'pts' and a[1] != want_pt]
        n_in, n_out, n_pts = (kinds.count('in'), kinds.count('out'),
                              kinds.count('pts'))
        pts = n_pts if not whole else n_pts + 1
        guard = ' and '.join(('' if p else 'not ') + T.show(a) for a, p in g[-4:])
        ok = True
        if 'bad' in kinds:
            ok = False
            msg = acts[kinds.index('bad')][2]
        elif badv:
            ok, msg = False, 'the stored index is %s, not the index of the ' \
                'point' % T.show(badv[0][1])
            w2 = badv[0][2]
        elif badp:
            ok, msg = False, 'the point stored in the output is %s, not the ' \
                'input point' % T.show(badp[0][1])
            w2 = badp[0][2]
        elif n_in + n_out != 1:
            ok, msg = False, 'a point with (%s) is put %d times into the ' \
                'inliers and %d times into the outliers' % (guard, n_in, n_out)
        elif pts != n_in:
            ok, msg = False, 'a point with (%s) is listed %d times as inlier ' \
                'but stored %d times in the output' % (guard, n_in, pts)
        else:
            msg = 'under (%s) the point goes to the %s only' % (
                guard, 'inliers and the output' if n_in else 'outliers')
        report(ok, 'every-index-once', w2, msg, cls + '/partition')
        if ok:
            out.append((g, 'in' if n_in else 'out', w2))
    if not per_loop:
        report(False, 'every-index-once', fn.where(),
               'a path of %s stores no element at all' % fn.q, cls + '/none')
    return out


def derived_loop(loop, backs):
    """a loop that copies the points of an index list that was built before:
    for j in 0..list.size: output.push_back(input[list[j]])"""
    for w, v in loop.ev.val:
        iv = v[2] if v[0] == 'it' else v
        if iv[0] != 'iv' or iv[2] != ZERO or T.num(iv[3]) != 1:
            continue
        for L, nm in ((INL, 'in'), (OUTL, 'out')):
            # the size of the list at this point
            for o, evs in backs:
                for a, p in o.st.pc.items():
                    pass
            ok = bool(backs)
            for o, evs in backs:
                ms = [e for e in evs if e.k == 'call' and e.n in MUT]
                if len(ms) != 1 or not ms[0].args:
                    ok = False
                    break
                x = ms[0].args[0]
                if not (x[0] == 'ld' and x[1][0] == '[]' and x[1][1] == IN):
                    ok = False
                    break
                j = x[1][2]
                if not (j[0] in ('fld', 'ld') and T.occurs(iv, j)):
                    ok = False
                    break
                src = j[2][1] if j[0] == 'fld' else j[1][2]
                if src != iv:
                    ok = False
                    break
            if ok and bounded_by_list(loop, backs, iv, L):
                return nm, (('pts', ld(('[]', IN, I_)), loop.ev.where),)
    return None


def bounded_by_list(loop, backs, iv, L):
    """the loop bound is the size of L at loop entry"""
    for o, evs in backs:
        sz = o.st.store.get(('f', L, '#size'))
        for a, p in o.st.pc.items():
            if a[0] in ('<', '==') and iv in a[1:]:
                other = a[2] if a[1] == iv else a[1]
                if other == sz:
                    return True
    return False
