"""Shared state under its lock."""
import re
from collections import defaultdict
from .. import terms as T
from ..interp import Budget

SRCS = ['builder/data/data_collector.cc', 'builder/data/cloud_types.cc',
        'builder/pose_extrapolator.cc', 'builder/map_builder.cc',
        'builder/submap.cc', 'builder/memory_manager.cc',
        'common/performance/process_info.cc',
        'pre_processors/filter_ground_removal2.cc']
EXPLAIN = '''
Lockset analysis.  Every public function, thread body and destructor (up to the
joining of the threads) of the classes below is followed along all paths with
its callees; for each member the accesses are collected with the locks held.
A member that is changed after construction must be atomic, or used by one
confined thread only, or there must be one lock that is held at every access,
exclusively where the member is changed.  The acquisitions made while another
lock is held form a graph, which must have no cycle and no repeated acquisition
of a lock already held.
'''
ASSUME = ['clouds are fed in from one thread (as the intake function says)',
          'normals are estimated on holders no other thread has yet (as the '
          'function says)',
          'distinct access paths do not alias']
MIN_OBLIGATIONS = 40
D = 'static_map::data::DataCollector'
H = 'static_map::data::InnerPointCloudData'
X = 'static_map::PoseExtrapolator'
TP = 'static_map::common::ThreadPool'
MM = 'static_map::MemoryManager'
PP = 'static_map::common::performance::ProcessProfiler'
CLASSES = (D, H, X, TP, MM, PP)
ORDER = CLASSES + ('static_map::Submap', 'static_map::MapBuilder')
# members the property names; others of the same classes are judged as well
SKIP_T = re.compile(r'mutex|condition_variable|Mutex|^std::(?:vector<)?(?:std::)?'
                    r'thread|std::vector<std::thread')
ATOMIC = re.compile(r'^(?:volatile )?(?:std::atomic|std::__atomic|tbb::atomic|'
                    r'std::atomic_)')
READ = {'size', 'empty', 'front', 'back', 'at', 'begin', 'end', 'cbegin', 'cend',
        'rbegin', 'rend', 'operator[]', 'find', 'count', 'get', 'operator->',
        'operator*', 'operator bool', 'operator!', 'c_str', 'data', 'value',
        'is_initialized', 'has_value', 'operator==', 'operator!=', 'operator<',
        'operator<=', 'operator>', 'operator>=', 'inverse', 'operator-',
        'operator+', 'capacity', 'Forward', 'orientation', 'time', 'ToSec',
        'joinable', 'length', 'rows', 'cols', 'block', 'cast', 'norm',
        'transpose', 'operator()', 'str', 'good', 'is_open', 'max_size'}


def check(ctx):
    edges = {}
    for q in ORDER:
        judge(ctx, q, edges)
    order(ctx, edges)


def member(l):
    """the member of the object itself an access path starts with"""
    while isinstance(l, tuple) and len(l) > 1:
        if l[0] == 'f' and l[1] == ('this',):
            return l[2]
        l = l[1]
    return None


def entries(ctx, q, rec):
    """(function, role) of what other threads may call"""
    acc = {m['u']: m['access'] for m in rec['methods']}
    fns = [f for f in ctx.prog.fns.values() if f.cls == q and f.nodes]
    inside = set()
    for f in fns:
        for _, n in f.calls():
            u = (n.get('fn') or {}).get('u')
            if u:
                inside.add(u)
    byname = defaultdict(set)
    for m in rec['methods']:
        byname[m['n']].add(m['access'])
    for f in fns:
        if f.kind == 'ctor' or getattr(f, 'static', False):
            continue
        a = acc.get(f.id)
        if a is None:
            s = byname.get(f.n, {'public'})
            a = 'public' if 'public' in s else 'private'
        if f.kind == 'dtor':
            yield f, 'end'
        elif a == 'public':
            yield f, feeder(f) or f.n
        elif f.id not in inside:
            yield f, 'thread ' + f.n


def feeder(f):
    if f.cls == D and any('pcl::PointCloud' in f.ty(x['t']) for x in f.params):
        return 'thread feeding clouds'
    return None


def judge(ctx, q, edges):
    rec = ctx.need(ctx.prog.records.get(q) or ctx.prog.record(q),
                   'the class ' + q)
    types = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    acc = defaultdict(dict)         # member -> {(role, kind, locks): where}
    names = {}
    nfn = 0
    todo = list(entries(ctx, q, rec))
    if q == TP:
        todo += [(f, 'thread worker') for f in ctx.prog.fns.values()
                 if f.id.startswith('lam@') and f.id.count('lam@') == 1 and
                 'S@ThreadPool@F@ThreadPool#' in f.id]
    if q not in CLASSES:
        todo = [(f, r) for f, r in todo if any_lock(ctx, f)]
    for f, role in todo:
        ctx.analysed.add(f.id)
        nfn += 1
        I = ctx.interp(reads=True)
        try:
            outs = I.run(f)
        except Budget:
            ctx.need(False, 'a bounded number of paths in ' + f.q)
        for o in outs:
            joined = False
            for e in o.events():
                if e.k == 'call' and e.n == 'join':
                    joined = True
                if e.k == 'acquire':
                    lockorder(ctx, e, names, edges, q, f)
                if q in CLASSES and not (role == 'end' and joined):
                    if not (q == H and f.n == 'CalculateNormals'):
                        collect(e, role, acc, types)
    ctx.count('functions of ' + q.rsplit('::', 1)[-1], nfn)
    if q in CLASSES:
        settle(ctx, q, types, acc)


def any_lock(ctx, f):
    return any(n['k'] == 'ctor' and re.search(
        'lock', (n.get('fn') or {}).get('q', ''), re.I) for n in f.nodes)


def collect(e, role, acc, types):
    if e.k not in ('read', 'write', 'call', 'index', 'aload', 'astore'):
        return
    for l, k in [(e.loc, 'w' if e.k in ('write', 'astore') else 'r'),
                 (e.obj, 'r' if (e.n or '') in READ else 'w')] + [
                     (a[1], 'r') for a in e.args or () if isinstance(a, tuple)
                     and a[:1] == ('&',)]:
        x = member(l)
        if x is not None and x in types:
            key = (role, k, tuple(e.locks))
            acc[x].setdefault(key, e.where)


def settle(ctx, q, types, acc):
    short = q.rsplit('::', 1)[-1]
    for x in sorted(acc):
        t = types[x]
        if SKIP_T.search(t) or ATOMIC.match(t):
            continue
        uses = acc[x]
        if not any(k == 'w' for _, k, _ in uses):
            ctx.ok('constant', '%s::%s' % (short, x))
            continue
        roles = {r for r, _, _ in uses}
        if len(roles) == 1 and (next(iter(roles)).startswith('thread ') or
                                roles == {'end'}):
            ctx.ok('confined', '%s::%s' % (short, x))
            continue
        cand = defaultdict(int)
        for r, k, ls in uses:
            for m in {m for m, _ in ls}:
                cand[m] += 1
        if not cand:
            where = sorted(uses.values())[0]
            ctx.require(False, 'guarded', where, '%s: %s is used by several '
                        'threads without a lock' % (short, x),
                        '%s/%s' % (short, x))
            continue
        best = max(sorted(cand, key=repr), key=lambda m: cand[m])
        for (r, k, ls), where in sorted(uses.items(), key=repr):
            held = {mode for m, mode in ls if m == best}
            ok = 'x' in held or k == 'r' and bool(held)
            ctx.require(ok, 'guarded', where, '%s: %s is %s %s %s' % (
                short, x, 'changed' if k == 'w' else 'read',
                'holding only the shared side of' if held and k == 'w' else
                'without holding', T.show(best)), '%s/%s' % (short, x))


# ---------------------------------------------------------------- lock order
def lockorder(ctx, e, names, edges, q, f):
    m = e.loc if e.loc is not None else e.obj
    k = key(e, m)
    names[m] = k
    before = [(x, mode) for x, mode in e.locks]
    same = [mode for x, mode in before if x == m]
    new = e.x
    ctx.require(not same or same == ['u'] and new == 'x', 'order', e.where,
                '%s is taken while it is already held' % T.show(m),
                'twice/%s' % f.q)
    for x, mode in before:
        if x != m:
            edges.setdefault((names.get(x, key(None, x)), k), e.where)


def key(e, m):
    owner = e.fn.cls if e is not None and e.fn is not None else ''
    tail = m
    idx = ''
    if tail[0] == '[]':
        idx = '[%s]' % T.show(tail[2])
        tail = tail[1]
    return '%s::%s%s' % (owner, tail[2] if tail[0] == 'f' else T.show(tail), idx)


def order(ctx, edges):
    ctx.count('nested acquisitions', len(edges))
    g = defaultdict(set)
    for a, b in edges:
        g[a].add(b)
    for (a, b), where in sorted(edges.items()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g[x]
        ctx.require(a not in seen, 'order', where, '%s is taken while holding %s, '
                    'and elsewhere the other way round' % (b, a),
                    'cycle/%s' % b)
