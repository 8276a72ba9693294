"""Identifiers of frames and submaps."""
from .. import terms as T
from ..paths import fld, ld, THIS, calls
from ..strs import parts, injective, vars_of, show
from ..table import bool_table, ret_paths
from ..terms import c, NULL

SRCS = ['builder/frame_base.cc', 'builder/frame.cc', 'builder/submap.cc']
EXPLAIN = '''
The comparison operators of both identifier types are evaluated to closed terms
over the index parts (callees and tuple comparisons followed) and compared with
the lexicographic order for every combination of three values per part, which
covers every relative order of each pair of parts.  Printed names and derived
file names are reduced to their sequence of literals and printed parts; each
part of the identifier must be printed, in order, separated by text that no
number contains.  For the look-up of a frame every path that returns an element
must have established both submap indices and an upper bound on the position,
and every other path returns nothing.
'''
ASSUME = ['frame positions are not negative (every writer stores a container '
          'size)']
MIN_OBLIGATIONS = 15
PARTS = {'FrameId': ('trajectory_index', 'submap_index', 'frame_index'),
         'SubmapId': ('trajectory_index', 'submap_index')}


def check(ctx):
    p = ctx.prog
    import operator as O
    for cls, ps in PARTS.items():
        A = [ld(fld(x)) for x in ps]
        for op, f in (('==', O.eq), ('!=', O.ne), ('<', O.lt)):
            fn = p.one('static_map::%s::operator%s' % (cls, op))
            I = ctx.interp()
            outs = I.run(fn)
            B = [ld(('f', ('arg', fn.params[0]['n'], 0), x)) for x in ps]
            vals = (-1, 0, 1, 2) if len(ps) == 2 else (0, 1, 2)
            n, bad = bool_table(
                ret_paths(outs), A + B, [vals] * (2 * len(ps)),
                lambda e: f(tuple(e[a] for a in A), tuple(e[b] for b in B)))
            ctx.count('index_combinations', n)
            if bad:
                env, want, got = bad[0]
                ctx.bad('identifier-order', fn.where(), '%s operator%s gives %s '
                        'instead of %s for %s' % (
                            cls, op, ' or '.join(map(str, got)), want,
                            ', '.join('%s=%s' % (T.show(k), v)
                                      for k, v in env.items())), cls + op)
            else:
                ctx.ok('identifier-order', fn.where(),
                       '%s operator%s: %d combinations' % (cls, op, n))
    # --- printed names
    for cls, ps in PARTS.items():
        fn = p.one('static_map::%s::DebugString' % cls)
        want = [ld(fld(x)) for x in ps]
        for o in ctx.interp().run(fn):
            if o.kind != 'ret':
                continue
            sp = parts(o.val)
            vs = [v for v in vars_of(sp) if v in want]
            why = injective(sp, want)
            if not why and vs != want:
                why = 'the parts are printed in a different order'
            ctx.require(not why, 'printed-name', fn.where(), '%s is printed as '
                        '%s%s' % (cls, show(sp), ': ' + why if why else ''),
                        cls + '/name')
    # --- file names
    fn = p.one('static_map::Submap::SetId')
    idp = ('arg', fn.params[0]['n'], 0)
    I = ctx.interp()
    n = 0
    for o in I.run(fn):
        if o.kind != 'ret':
            continue
        for x in PARTS['SubmapId']:
            v = I.load(o.st, ('f', fld('id_'), x))
            ctx.require(v == ld(('f', idp, x)), 'identifier-stored', fn.where(),
                        'the submap takes the given %s' % x, 'setid/' + x)
        name = I.load(o.st, fld('save_filename_'))
        if name == ld(fld('save_filename_')):
            ctx.require(T.cmp('==', c(''), name) in o.st.pc and not
                        o.st.pc[T.cmp('==', c(''), name)],
                        'file-name', fn.where(),
                        'the file name is left alone only if there is one',
                        'setid/keep')
            continue
        n += 1
        want = [ld(('f', idp, x)) for x in PARTS['SubmapId']]
        why = injective(parts(name), want)
        ctx.require(not why, 'file-name', fn.where(), 'submap file name %s%s' % (
            show(parts(name)), ': ' + why if why else ''), 'submapfile')
    ctx.need(n, 'no path of SetId derives a file name')
    n = 0
    fn = p.one('static_map::Submap::SetMatchedTransformedToNext')
    I = ctx.interp(opaque=('SaveToFile', 'Clear', 'Empty'))
    seen = set()
    for o in I.run(fn):
        for e in o.events():
            if e.k == 'call' and e.n == 'SaveToFile' and e.obj is not None and \
                    (e.fn.id, e.node, e.args) not in seen:
                seen.add((e.fn.id, e.node, e.args))
                sp = parts(e.args[0])
                own = e.obj == ('*', ld(fld('inner_cloud_')))
                if own:
                    ctx.require(('text', ld(fld('save_filename_'))) in sp,
                                'file-name', e.where, 'the submap cloud goes to '
                                'its own file %s' % show(sp), 'submapsave')
                    continue
                ids = {}
                for v in vars_of(sp):
                    if v[0] == 'ld' and v[1][0] == 'f' and v[1][2] in \
                            PARTS['FrameId'] and v[1][1][0] == 'f' and \
                            v[1][1][2] == 'id_':
                        ids.setdefault(v[1][1], []).append(v)
                ok = len(ids) == 1
                why = 'no frame identifier in the name'
                if ok:
                    idl = list(ids)[0]
                    why = injective(sp, [ld(('f', idl, x))
                                         for x in PARTS['FrameId']])
                    fr = e.obj
                    if not why and not T.occurs(idl[1], fr):
                        why = 'it is the identifier of another frame'
                n += 1
                ctx.require(not why, 'file-name', e.where, 'frame file name %s%s'
                            % (show(sp), ': ' + why if why else ''),
                            'framefile')
    ctx.need(n, 'no frame is saved when a submap is matched')
    # --- look-up
    fn = p.one('static_map::Submap::GetFrame')
    a = ('arg', fn.params[0]['n'], 0)
    I = ctx.interp()
    outs = [o for o in I.run(fn) if o.kind == 'ret']
    A = [ld(('f', fld('id_'), x)) for x in ('trajectory_index', 'submap_index')]
    B = [ld(('f', a, x)) for x in ('trajectory_index', 'submap_index')]
    ix, sz = ld(('f', a, 'frame_index')), ld(fld('#size', fld('frames_')))
    elem = ld(('[]', fld('frames_'), ix))
    rp = [(list(o.st.pc.items()), c(1) if o.val == elem else
           c(0) if o.val == NULL else ('?',), fn.where()) for o in outs]
    n, bad = bool_table(rp, A + B + [ix, sz], [(0, 1)] * 4 + [(0, 1, 2)] * 2,
                        lambda e: int(e[A[0]] == e[B[0]] and e[A[1]] == e[B[1]]
                                      and e[ix] < e[sz]))
    ctx.count('index_combinations', n)
    if bad:
        env, want, got = bad[0]
        ctx.bad('frame-lookup', fn.where(), 'with %s the look-up %s' % (
            ', '.join('%s=%s' % (T.show(k), v) for k, v in env.items()),
            'does not return nothing' if not want else
            'does not return the frame at the position'), 'lookup')
    else:
        ctx.ok('frame-lookup', fn.where(), '%d combinations of indices' % n)
