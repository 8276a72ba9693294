"""Written clouds can be read back with all of their points."""
from .. import terms as T
from ..interp import Budget

SRCS = ['builder/map_package.cc', 'builder/multi_resolution_voxel_map.cc',
        'builder/trajectory.cc', 'builder/data/cloud_types.cc',
        'builder/data/data_collector.cc', 'builder/map_builder.cc',
        'builder/submap.cc', 'builder/frame.cc', 'builder/frame_base.cc',
        'tools/join_pieces.cc', 'tools/pcd_sampler.cc', 'tools/bin_viewer.cc']
EXPLAIN = '''
Every function that changes the number of points of a point cloud of the file
library is collected from the syntax tree.  A change through the cloud itself
keeps its width and height right.  A change of the bare list of points makes the
cloud unfit for writing until width and height are set again; the function is
then followed on all paths, and a cloud that leaves it (as argument, member,
result or saved file) must be fit again at that point.
'''
ASSUME = ['the file library keeps width and height right in its own functions']
MIN_OBLIGATIONS = 8
GROW = {'push_back', 'emplace_back', 'resize', 'insert', 'assign', 'swap', 'clear',
        'erase', 'pop_back', 'operator=', 'emplace'}
WHOLE = {'push_back', 'emplace_back', 'resize', 'insert', 'clear', 'swap',
         'operator+=', 'operator=', 'assign', 'erase', 'transient_push_back'}
SAVE = ('savePCD', 'savePLY', 'writeBinary', 'toROSMsg', 'toPCLPointCloud2')


def bare(q, n):
    return n in GROW and (q or '').startswith('std::vector<pcl::')


def whole(q, n):
    return n in WHOLE and (q or '').startswith('pcl::PointCloud<')


def saves(n):
    return (n or '').startswith(SAVE)


def check(ctx):
    n = 0
    for f in sorted(ctx.prog.fns.values(), key=lambda g: g.id):
        if not f.nodes or not f.file or f.file.startswith('/') or \
                '/test/' in '/' + f.file:
            continue
        b = w = s = 0
        for i, x in f.calls():
            fn = x.get('fn') or {}
            if bare(fn.get('q'), fn.get('n')) and not temp(f, x):
                b += 1
            elif whole(fn.get('q'), fn.get('n')):
                w += 1
            elif saves(fn.get('n')):
                s += 1
        if not (b or w or s):
            continue
        ctx.analysed.add(f.id)
        n += b + w + s
        if not b:
            ctx.ok('whole', f.where(), '%s: %d changes and %d saves' % (f.n, w, s))
            continue
        follow(ctx, f)
    ctx.count('changes and saves of clouds', n)


def temp(f, x):
    return 'obj' not in x


def cloud_of(loc):
    if loc and loc[0] == 'f' and loc[2] == 'points':
        return loc[1]
    return None


def steps(evs):
    """[(position, cloud, what)]"""
    for k, e in enumerate(evs):
        if e.k == 'call' and bare(e.q, e.n):
            x = cloud_of(e.obj)
            if x is not None:
                yield k, x, 'bare'
        elif e.k == 'call' and whole(e.q, e.n) and e.obj:
            yield k, e.obj, 'whole'
        elif e.k == 'write' and e.loc and e.loc[0] == 'f' and e.loc[2] in (
                'width', 'height'):
            yield k, e.loc[1], e.loc[2]


def state(ops):
    """what is missing for the cloud to be fit"""
    miss = set()
    for what in ops:
        if what == 'bare':
            miss = {'width', 'height'}
        elif what == 'whole':
            miss = set()
        else:
            miss.discard(what)
    return miss


def follow(ctx, f):
    I = ctx.interp(inline=lambda g: g.file == f.file and g.id.startswith('lam@'))
    try:
        outs = I.run(f)
    except Budget as b:
        ctx.need(False, 'a bounded number of paths: %s' % b)
    # what a round of a loop leaves behind, with the loops inside it
    left = {}
    while True:
        more = False
        for o in outs:
            if o.kind != 'back':
                continue
            evs = o.events()
            at = [k for k, e in enumerate(evs) if e.k == 'loop' and e.x == o.x]
            marks = {k: (x, w) for k, x, w in steps(evs)}
            ops = {}
            for k in range(at[-1] + 1 if at else 0, len(evs)):
                if k in marks:
                    ops.setdefault(marks[k][0], []).append(marks[k][1])
                elif evs[k].k == 'loopexit':
                    for x in left.get(evs[k].x, ()):
                        ops.setdefault(x, []).append('bare')
            for x, ws in ops.items():
                if state(ws) and x not in left.setdefault(o.x, set()):
                    left[o.x].add(x)
                    more = True
        if not more:
            break
    seen = 0
    for o in outs:
        if o.kind not in ('ret', 'back'):
            continue
        evs = o.events()
        todo = {}
        marks = {k: (x, w) for k, x, w in steps(evs)}
        for k, e in enumerate(evs):
            if k in marks:
                x, w = marks[k]
                todo.setdefault(x, []).append(w)
            elif e.k == 'loopexit':
                for x in left.get(e.x, ()):
                    todo.setdefault(x, []).append('bare')
            elif e.k == 'call' and saves(e.n):
                for x, ws in todo.items():
                    if passed(e, x):
                        seen += 1
                        require(ctx, f, e.where, state(ws), 'saved')
        if o.kind == 'ret':
            for x, ws in todo.items():
                if leaves(x) or o.val is not None and T.occurs(x, o.val):
                    seen += 1
                    require(ctx, f, f.where(), state(ws), 'handed over')
    if not seen:
        ctx.ok('whole', f.where(), '%s: the cloud stays inside' % f.n)


def require(ctx, f, where, miss, what):
    ctx.require(not miss, 'fit', where, '%s: a cloud is %s whose %s does not match '
                'its points' % (f.n, what, ' and '.join(sorted(miss)) or '-'),
                '%s/%s' % (f.n, what))


def leaves(x):
    r = T.root(x)
    return r is not None and r[0] in ('arg', 'this', 'g', 'ld') or \
        T.show(x, -9).startswith(('*arg', 'arg', 'this'))


def passed(e, x):
    for a in list(e.args or ()) + list(e.argl or ()):
        if isinstance(a, tuple) and a and (T.occurs(x, a)):
            return True
    return False
