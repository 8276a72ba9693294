"""P31: iterations that run in parallel touch disjoint plain data."""
from .. import terms as T
from .. import paths

SRCS = ['back_end/isam_optimizer.cc', 'back_end/view_graph.cc',
        'builder/data/cloud_types.cc', 'builder/data/data_collector.cc',
        'builder/frame.cc', 'builder/frame_base.cc', 'builder/map_builder.cc',
        'builder/map_package.cc', 'builder/multi_resolution_voxel_map.cc',
        'builder/pose_extrapolator.cc', 'builder/submap.cc',
        'builder/trajectory.cc', 'common/math.cc', 'common/octree.cc',
        'descriptor/m2dp.cc', 'pre_processors/filter_axis_range.cc',
        'pre_processors/filter_bounding_box.cc',
        'pre_processors/filter_ground_removal.cc',
        'pre_processors/filter_ground_removal2.cc',
        'pre_processors/filter_random_sample.cc',
        'pre_processors/filter_range.cc', 'pre_processors/filter_range_image.cc',
        'pre_processors/filter_statistic_removal.cc',
        'pre_processors/filter_voxel_grid.cc', 'registrators/ndt.cc',
        'registrators/ndt_gicp.cc']
TECH = 'effect analysis of the bodies of parallel loops'
MIN_OBLIGATIONS = 15
EXPLAIN = (
    'Every loop with an OpenMP directive is found in all translation units '
    '(instantiated templates included). For each, all paths through one '
    'arbitrary iteration are followed into callees and lambdas, with references '
    'resolved to the storage they name. Every plain location that is written '
    'must be declared inside the iteration or named in a private or reduction '
    'clause, allocated by the iteration, or selected by a one-to-one function of '
    'the loop index or by the thread number, or lie in an atomic or critical '
    'region; changing a standard container that '
    'is not owned in this way is a violation, atomics and concurrent containers '
    'are allowed. An element that one iteration writes may be read by the same '
    'iteration only. Writing elements of a packed boolean vector is a '
    'violation whatever the index.')
ASSUME = ['distinct access paths do not alias',
          'functions of external libraries other than container members do not '
          'change shared state']

MUTATE = {'push_back', 'emplace_back', 'pop_back', 'insert', 'emplace', 'erase',
          'clear', 'resize', 'reserve', 'assign', 'push_front', 'pop_front',
          'push', 'pop', 'swap', 'append', 'operator+=', 'shrink_to_fit'}
OWN = ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear',
       'threadprivate')


def check(ctx):
    p = ctx.prog
    done, loops = set(), 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        for d in f.omp:
            key = (f.file, d['line'], d['o0'])
            if 'for' not in d['kind'] or 'b0' not in d or key in done:
                continue
            done.add(key)
            loops += one(ctx, f, d)
    ctx.count('parallel loops', loops)
    ctx.need(loops >= 3, 'parallel loops')


def reachable(p, f, lo, hi):
    """functions that the body of the loop may run"""
    work, seen = [], set()

    def calls(g, a, b):
        for i, n in enumerate(g.nodes):
            o = n.get('o')
            if a is not None and (o is None or not a <= o <= b):
                continue
            fn = n.get('fn')
            if fn and fn.get('u') in p.fns:
                work.append(fn['u'])
    calls(f, lo, hi)
    for g in p.fns.values():
        if g.id.startswith('lam@') and g.id.endswith('#' + f.id):
            work.append(g.id)
    while work:
        u = work.pop()
        if u in seen:
            continue
        seen.add(u)
        calls(p.fns[u], None, None)
    return seen


def one(ctx, f, d):
    p = ctx.prog
    lo, hi = d['b0'], d['b1']
    use = reachable(p, f, lo, hi)
    I = ctx.interp(reads=True, inline=lambda g: g.id in use)
    outs = I.run(f)
    ctx.analysed.add('%s:%d' % (f.file, d['line']))
    its = paths.iterations(outs)
    # the outermost loop inside the directive
    heads = {}
    for lid, ways in its.items():
        lev = next(e for e in ways[0][0].events() if id(e) == lid)
        if lev.fn is f and inside(f, lev.node, lo, hi):
            evs = ways[0][0].events()
            k = next(j for j, e in enumerate(evs) if e is lev)
            outer = open_loops(evs[:k])
            if not any(e.fn is f and inside(f, e.node, lo, hi) for e in outer):
                heads[lid] = lev
    if not ctx.require(bool(heads), 'loop', '%s:%d' % (f.file, d['line']),
                       'the parallel loop is found', 'found'):
        return 0
    first = min(heads.values(), key=lambda e: f.nodes[e.node].get('o', 0))
    own = set()
    for cl in d['clauses']:
        if cl['kind'] in OWN:
            own.update(cl['vars'])
    if d.get('iv') is not None:
        own.add(d['iv'])
    for n in f.nodes:
        if n['k'] == 'decl' and lo <= n.get('o', -1) <= hi:
            own.update(v['d'] for v in n['v'] if not v.get('static'))
    prot = [(x['b0'], x['b1']) for x in f.omp if x is not d and 'b0' in x and
            any(w in x['kind'] for w in ('critical', 'atomic', 'ordered',
                                         'single', 'master'))]
    wrote, read = {}, []
    found = {}
    for lid, lev in heads.items():
        if f.nodes[lev.node].get('o') != f.nodes[first.node].get('o'):
            continue
        for o in outs:
            evs = o.events()
            k = [j for j, e in enumerate(evs) if e is lev]
            if not k:
                continue
            body = []
            for e in evs[k[0] + 1:]:
                if e.k == 'loopexit' and e.x == lev.x:
                    break
                body.append(e)
            scan(ctx, f, d, body, lev, own, prot, wrote, read, found)
    for e in read:
        hit = wrote.get(e.loc[1])
        if hit and e.loc[2] not in hit:
            found.setdefault(('neighbour', T.show(e.loc[1], -9)), (
                e.where, 'an element of %s that another iteration writes is read'
                % T.show(e.loc[1])))
    n = 0
    for b in wrote:
        ctx.ok('own', '%s:%d' % (f.file, d['line']), T.show(b)[:60])
        n += 1
    ctx.ok('own', '%s:%d' % (f.file, d['line']), 'loop')
    for (kind, what), (where, msg) in sorted(found.items(), key=repr):
        ctx.require(False, 'shared', where, msg, '%s/%s' % (kind, what))
    return 1


def inside(f, node, lo, hi):
    if not isinstance(node, int) or node < 0:
        return False
    return lo <= f.nodes[node].get('o', -1) <= hi


def open_loops(evs):
    r = []
    for e in evs:
        if e.k == 'loop':
            r.append(e)
        elif e.k == 'loopexit':
            while r and r[-1].x != e.x:
                r.pop()
            if r:
                r.pop()
    return r


def own_index(t, lev):
    """the index is a one-to-one function of the parallel loop's index, or the
    number of the thread"""
    if t[0] == 'pair':
        return own_index(t[1], lev) or own_index(t[2], lev)
    if t[0] == 'blk':
        one = T.num(t[3]) == 1 and own_index(t[1], lev)
        return one or T.num(t[4]) == 1 and own_index(t[2], lev)
    if t[0] == 'key':
        return own_index(t[1], lev)
    if mine(t, lev) or thread(t):
        return True
    if t[0] in ('fl',) or t[0] == 'op' and t[1] == 'trunc':
        return own_index(t[-1], lev)
    if t[0] == 'lin':
        hit = [(x, a) for x, a in t[1] if varies(x, lev)]
        inner = [x for x, a in t[1] if not varies(x, lev) and any(
            y[0] in ('hv', 'iv') for y in T.walk(x))]
        if len(hit) == 1:
            x, a = hit[0]
            if mine(x, lev) or thread(x):
                return not inner or abs(a) > 1
            return x[0] == 'op' and x[1] == '*' and sum(
                varies(y, lev) for y in x[2:]) == 1 and any(
                mine(y, lev) for y in x[2:])
    if t[0] == 'op' and t[1] == '*':
        return any(mine(y, lev) for y in t[2:]) and sum(
            varies(y, lev) for y in t[2:]) == 1
    return False


def mine(t, lev):
    return t[0] == 'iv' and t[1] == lev.x


def thread(t):
    return t[0] == 'call' and 'omp_get_thread_num' in str(t[1])


def varies(t, lev):
    return any(mine(x, lev) or thread(x) for x in T.walk(t))


def owner(loc, lev, own, fresh):
    """why the location belongs to one iteration, or None"""
    l = loc
    sel = None
    while True:
        if l[0] == '[]':
            if own_index(l[2], lev):
                return (l[1], l[2])
            l = l[1]
        elif l[0] == 'f':
            l = l[1]
        elif l[0] == '*':
            # what a pointer refers to: follow where the pointer came from
            v = l[1]
            if v[0] == 'ld':
                l = v[1]
            else:
                return 'local' if v[0] in ('uninit', 'eigen', 'tmp', 'vec',
                                           'rec') else None
        else:
            break
    if l[0] == 'v':
        if l[1] != 1 or l[2] in own:
            return 'local'
        return None
    if l[0] == 'tmp' or l[0] == 'ret':
        return 'local'
    if l[0] in ('heap', 'obj') and l in fresh:
        return 'local'
    return None


def scan(ctx, f, d, body, lev, own, prot, wrote, read, found):
    at = None
    fresh = set()
    for e in body:
        if e.fn is f and isinstance(e.node, int) and e.node >= 0:
            at = f.nodes[e.node].get('o')
        guarded = at is not None and any(a <= at <= b for a, b in prot) or \
            bool(e.locks)
        if e.k == 'new':
            fresh.add(T.root(e.res[1]) if e.res and e.res[0] == '&' else
                      e.loc or e.res)
        if e.k == 'read' and e.loc and e.loc[0] == '[]':
            read.append(e)
        if guarded:
            continue
        if e.k in ('write', 'cell') and e.loc:
            w = owner(e.loc, lev, own, fresh)
            if w is None and heapy(e.loc, body):
                w = 'local'
            if w is None:
                found.setdefault(('write', part(f, e.loc)), (
                    e.where, '%s is written by several iterations of a parallel '
                    'loop' % short(e.loc)))
            elif w != 'local':
                wrote.setdefault(w[0], set()).add(w[1])
        bits = packed(e)
        if bits is not None and bits[0] not in (own if e.fn is f else {bits[0]}):
            found.setdefault(('packed', bits[1]), (
                e.where, 'elements of the packed boolean vector %s are '
                'written in parallel' % bits[1]))
        if e.k == 'call' and e.obj is not None and (e.c or '').startswith('std::'):
            name = e.c.split('<')[0]
            if e.n in MUTATE or e.n == 'operator[]' and name in (
                    'std::map', 'std::unordered_map'):
                if 'atomic' in name or 'ptr' in name or 'stream' in name:
                    continue
                w = owner(e.obj, lev, own, fresh)
                if w is None and not heapy(e.obj, body):
                    found.setdefault(('call', e.n + T.show(e.obj, -9)[-30:]), (
                        e.where, '%s of %s changes it from several iterations of a '
                        'parallel loop' % (e.n, short(e.obj))))


def heapy(loc, body):
    """on the heap, made by this iteration"""
    r = T.root(loc)
    return r[0] == 'heap' and any(e.k in ('new', 'ctor', 'call', 'write') and
                                  e.val is not None and e.val == ('&', r) and
                                  e.loc is not None and e.loc[0] == 'v'
                                  for e in body)


def packed(e):
    """(declaration, name) of the packed boolean vector whose element is
    written here"""
    n = e.fn.nodes[e.node] if isinstance(e.node, int) and e.node >= 0 else {}
    fn = n.get('fn') or {}
    if n.get('k') != 'call' or fn.get('n') != 'operator=' or \
            '_Bit_reference' not in str(fn.get('c')):
        return None
    o = n.get('obj')
    while isinstance(o, int) and o >= 0:
        x = e.fn.nodes[o]
        if x['k'] == 'call':
            o = x.get('obj', (x.get('a') or [None])[0])
        elif x['k'] in ('cast', 'un'):
            o = x['e']
        elif x['k'] == 'ref':
            return x.get('d'), x['n']
        elif x['k'] == 'mem':
            return None, x['n']
        else:
            break
    return None, 'vector'


def part(f, loc):
    """what is written, independent of how it is reached: the member, or the
    kind of container whose elements are written"""
    own = (f.cls or f.n or '').split('::')[-1].split('<')[0]
    l, elem = loc, False
    while True:
        if l[0] == 'f':
            if l[2] not in ('first', 'second'):
                return '%s.%s%s' % (own, l[2], '[]' if elem else '')
            l = l[1]
        elif l[0] == '[]':
            l, elem = l[1], True
        elif l[0] == '*' and l[1][0] == 'ld':
            l = l[1][1]
        else:
            break
    if l[0] == 'v':
        for n in f.nodes:
            if n['k'] == 'decl':
                for v in n['v']:
                    if v['d'] == l[2] and elem:
                        t = f.ty(v['t']).split('<')[0].split('::')[-1].strip()
                        return '%s.%s[]' % (own, t)
    return '%s.%s' % (own, T.show(l, -9)[-40:])


def strip(loc):
    """the location without the values of its selections"""
    if loc[0] in ('f', '[]'):
        return (loc[0], strip(loc[1])) + ((loc[2],) if loc[0] == 'f' else
                                          (('c', 0),))
    return loc


def short(loc):
    return T.show(strip(loc)).replace('[0]', '[..]')[-70:]

