"""Finishing drains every stage."""
import itertools
from .. import terms as T
from ..conc import Epochs
from ..num import Num, NoValue
from ..paths import THIS, fld
from ..terms import c, NULL, TRUE, FALSE, ZERO

SRCS = ['builder/map_builder.cc', 'builder/data/data_collector.cc']
EXPLAIN = '''
Every path on which a worker stage ends is enumerated.  The end flag of the
stage before it and the fill level of its input are replaced by fresh values
each time they are looked at (any interleaving), and the order of the looks is
kept: on every such path the end flag must have been seen set before the look
at the input that found it empty (for the two cloud queues: in one locked
section, or the first queue before the second).  Which fill levels a path
allows is decided by evaluating its conditions for all small values.  Stores to
the end flags are searched in the whole unit and must follow the last output of
the stage; the hand-over between the two cloud queues must add and remove inside
one locked section; the count of pending clouds must be zero only when both
queues are; the finish call must set the flag first and join both workers.
'''
ASSUME = ['the caller does not hand in clouds from another thread while it calls '
          'for the end (a call already past its check may still add one)',
          'the tasks of the pool run before the pool is gone (P08)',
          'each stage consumes its input as P15, P29, P02 and P03 say']
MIN_OBLIGATIONS = 20
B = 'static_map::MapBuilder'
D = 'static_map::data::DataCollector'
HEAVY = ('SaveMaps', 'OutputPath', 'SaveMapPackage', 'GenerateMapPackage',
         'CalculateCoordTransformToGps', 'SubmapPairMatch', 'Align',
         'PrintTransform')
GONE = ('pop_front', 'pop_back', 'pop', 'erase', 'clear', 'swap', 'resize',
        'operator=', 'assign')
PUT = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push',
       'emplace', 'insert')


def check(ctx):
    p = ctx.prog
    names = ('ScanMatchProcessing', 'SubmapProcessing', 'ConnectAllSubmap',
             'FinishAllComputations')
    W = {n: p.one(B + '::' + n) for n in names}
    rec = p.record(B)
    typ = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    flags = [n for n, t in typ.items() if 'atomic' in t and 'bool' in t]
    st = stores(ctx, flags)
    end, run, done = own(ctx, st, flags, (
        (W['FinishAllComputations'], 'true', 'finish request'),
        (W['ScanMatchProcessing'], 'false', 'end of matching'),
        (W['SubmapProcessing'], 'true', 'end of grouping')))
    frames = [n for n, t in typ.items() if 'Frame>' in t]
    traj = [n for n, t in typ.items() if 'Trajectory' in t and 'vector' not in t]
    coll = [n for n, t in typ.items() if 'DataCollector' in t and 'Options'
            not in t]
    ctx.need(len(frames) == 1 and len(traj) == 1 and len(coll) == 1,
             'the inputs of the stages')
    frames, traj, coll = fld(frames[0]), fld(traj[0]), fld(coll[0])
    raw, ready, lock = queues(ctx)
    flag_values(ctx, st, end, run, done, W)
    matching(ctx, W['ScanMatchProcessing'], end, run, frames, coll, raw, ready,
             lock)
    grouping(ctx, W['SubmapProcessing'], run, done, frames, traj)
    connecting(ctx, W['ConnectAllSubmap'], done, traj)
    finish(ctx, W['FinishAllComputations'], end, typ)
    handover(ctx, raw, ready, lock)
    accepted(ctx, end)
    dropped(ctx, ready, done, W)
    filtering(ctx)


# ---------------------------------------------------------------- end flags
def stores(ctx, flags):
    """[(function, flag, value text or None)] over the whole unit"""
    out = []
    for f in ctx.prog.fns.values():
        for i, n in f.calls():
            g = n.get('fn') or {}
            if not str(g.get('c', '')).startswith('std::atomic') or \
                    n.get('obj') is None or not n.get('a') and \
                    g.get('n') not in ('test_and_set', 'clear'):
                continue
            x = f.nodes[n['obj']]
            while x['k'] == 'cast':
                x = f.nodes[x['e']]
            if x['k'] != 'mem' or x.get('n') not in flags:
                continue
            if g['n'] in ('load',):
                continue
            v = None
            if n.get('a'):
                y = f.nodes[n['a'][0]]
                while y['k'] == 'cast':
                    y = f.nodes[y['e']]
                v = y.get('v') if y['k'] == 'bool' else y.get('cv')
            out.append((f, x['n'], None if v is None else
                        'true' if v in (True, 1, '1', 'true') else 'false',
                        f.where(i)))
    return out


def own(ctx, st, flags, roles):
    """the flag each function sets; a role no store shows gets the flag left
    over"""
    c = [{n for g, n, v, _ in st if inside(ctx, g, f) and v == val}
         for f, val, _ in roles]
    for _ in roles:
        for k, x in enumerate(c):
            if len(x) == 1:
                for j, y in enumerate(c):
                    if j != k and len(y) > 1:
                        c[j] = y - x
    got = set().union(*(x for x in c if len(x) == 1))
    for k, x in enumerate(c):
        if not x:
            c[k] = set(flags) - got
    for x, r in zip(c, roles):
        ctx.need(len(x) == 1, 'the flag for the %s' % r[2])
    return [x.pop() for x in c]


def inside(ctx, g, f):
    return g.id == f.id or g.id.startswith('lam@') and g.file == f.file and \
        any(n['k'] == 'lam' and (n['fn'] if isinstance(n['fn'], str) else
                                 n['fn'].get('u')) == g.id for n in f.nodes)


def flag_values(ctx, st, end, run, done, W):
    for f, n, v, where in st:
        who = W['FinishAllComputations'] if n == end else \
            W['ScanMatchProcessing'] if n == run else \
            W['SubmapProcessing'] if n == done else None
        if who is None:
            continue
        final = 'false' if n == run else 'true'
        if v == final:
            ctx.require(inside(ctx, f, who) or n == end, 'end announced', where,
                        'the end of a stage is announced by the stage only',
                        'announced')
        elif v is not None and n == run:
            ctx.require(inside(ctx, f, who) or f.cls == B, 'start announced',
                        where, 'the start of matching is announced before its '
                        'loop', 'started')
        else:
            ctx.bad('end withdrawn', where, 'an announced end is taken back',
                    'withdrawn')
    ctx.count('stores to end flags', len(st))


# ------------------------------------------------------------------ helpers
def order(t):
    """moment a looked-up value was taken"""
    m = None
    for x in T.walk(t):
        if x and x[0] in ('at', 'hv') and isinstance(x[1], int):
            m = x[1] if m is None else max(m, x[1])
    return m


def allowed(pc, levels, fixed, top=3, extra=()):
    """assignments of small numbers to the levels a path allows; atoms that
    cannot be evaluated do not restrict"""
    res = []
    atoms = [(a, pol) for a, pol in pc.items()
             if any(T.occurs(l, a) for l in levels)]
    for vs in itertools.product(range(top + 1), repeat=len(levels)):
        for xs in itertools.product(*(r for _, r in extra)):
            over = dict(fixed)
            over.update(zip(levels, vs))
            over.update(zip((k for k, _ in extra), xs))
            N = Strict(over)
            ok = True
            for a, pol in atoms:
                try:
                    if bool(N.num(a)) != pol:
                        ok = False
                        break
                except NoValue:
                    continue
            if ok:
                res.append((vs, xs))
    return res


class Strict(Num):
    """only the given values are known"""

    def __init__(self, over):
        Num.__init__(self, over=over)

    def leaf(self, loc):
        if loc in self.over:
            return self.over[loc]
        raise NoValue(T.show(loc))


def seen(o, loc, want):
    """moments at which the path saw the flag with the wanted value"""
    r = []
    for a, pol in o.st.pc.items():
        if a[0] == 'at' and a[2] == loc and pol == want:
            r.append(a[1])
    return r


def ends(ctx, I, f, **kw):
    I.outs = []
    r = [o for o in I.run(f, **kw)]
    ctx.analysed.add(f.id)
    ret = [o for o in r if o.kind == 'ret']
    ctx.need(ret, 'an end of ' + f.q)
    ctx.count('paths on which a stage ends', len(ret))
    return r, ret


def stored(o, loc):
    return [(k, e) for k, e in enumerate(o.events())
            if e.k == 'astore' and e.loc == loc]


def put_to(o, L):
    return [k for k, e in enumerate(o.events()) if e.k == 'call' and
            e.n in PUT + ('grow_by', 'grow_to_at_least') and e.obj == L]


def deref(I, st, loc):
    v = I.load(st, loc)
    return I.deref(v) if v[0] in ('&', 'ld', 'heap', 'new') else ('*', v)


def announce(ctx, f, outs, ret, flag, val, outputs, what):
    """the flag gets its final value after the last output, on every end"""
    for o in outs:
        at = [k for k, e in stored(o, flag) if e.val == val]
        if o.kind == 'ret':
            if not ctx.require(len(at) >= 1, 'end announced', f.where(),
                               '%s ends without saying so' % what, 'silent'):
                continue
        bad = [k for L in outputs for k in put_to(o, L)
               if at and k > at[0]]
        if o.kind == 'ret' or at:
            ctx.require(not bad and o.kind != 'back', 'announced last',
                        f.where(), '%s announces its end before its last output '
                        'is visible' % what, 'early')


# ----------------------------------------------------------------- matching
def queues(ctx):
    rec = ctx.prog.record(D)
    qs = [x['n'] for x in rec['fields'] if 'deque' in rec['tu'].types[x['t']]
          and 'InnerCloud' in rec['tu'].types[x['t']]]
    ctx.need(len(qs) == 2, 'the two cloud queues')
    # scan matching takes from the filtered one
    f = ctx.prog.one(D + '::GetNewCloud')
    I = ctx.interp()
    out = set()
    locks = set()
    for o in I.run(f):
        for e in o.events():
            if e.k == 'call' and e.n in GONE and e.obj and e.obj[0] == 'f' and \
                    e.obj[2] in qs:
                out.add(e.obj[2])
                locks |= {l[0] for l in e.locks}
    ctx.need(len(out) == 1 and len(locks) == 1, 'the filtered queue and its lock')
    ready = out.pop()
    raw = next(q for q in qs if q != ready)
    return fld(raw), fld(ready), locks.pop()


def move(loc, obj):
    """the same member of another object"""
    if loc == THIS:
        return obj
    return (loc[0], move(loc[1], obj)) + loc[2:]


def matching(ctx, f, end, run, frames, coll, raw, ready, lock):
    p = ctx.prog
    I = ctx.interp(inline=lambda g: (g.cls or '').startswith((B, D)) or
                   g.id.startswith('lam@'), opaque=HEAVY,
                   volatile=lambda l: l in (fld(end), fld(run)))
    st = I.init_state()
    obj = ('collector',)
    I.store(st, coll, ('&', obj), quiet=True)
    R, Q, M = (move(x, obj) for x in (raw, ready, lock))
    E = Epochs(I, {M: [R, Q]})
    outs, ret = ends(ctx, I, f, state=st)
    for o in ret:
        at = seen(o, fld(end), True)
        secs = []
        for n, d in sorted(E.secs.items()):
            ls = [d['size', R], d['size', Q]]
            m = max(order(l) or 0 for l in ls)
            if any(T.occurs(l, a) for l in ls for a in o.st.pc):
                secs.append((m, ls))
        empty = {0: [], 1: []}
        for m, ls in secs:
            a = allowed(o.st.pc, ls, {})
            for k in (0, 1):
                if a and all(vs[k] == 0 for vs, _ in a):
                    empty[k].append(m)
        ok = bool(at) and any(x <= y and t < x for t in at
                              for x in empty[0] for y in empty[1])
        ctx.require(ok, 'drained', f.where(), 'scan matching ends only when it '
                    'has seen the finish request and, after that, no cloud '
                    'waiting before or after filtering', 'matching')
    announce(ctx, f, outs, ret, fld(run), FALSE, [frames], 'scan matching')
    # the count used must be that of both queues
    g = p.one(D + '::GetRemainingCloudSize')
    I = ctx.interp()
    E = Epochs(I, {lock: [raw, ready]})
    for o in I.run(g):
        if o.kind != 'ret':
            continue
        ok = False
        for d in E.secs.values():
            ls = [d['size', raw], d['size', ready]]
            try:
                vals = {}
                for vs in itertools.product(range(3), repeat=2):
                    vals[vs] = Strict(dict(zip(ls, vs))).num(o.val)
                ok = ok or all((v == 0) == (k == (0, 0))
                               for k, v in vals.items())
            except NoValue:
                pass
        ctx.require(ok, 'remaining', g.where(), 'the number of remaining clouds '
                    'is zero exactly when both queues are empty at one moment',
                    'remaining')
        ctx.analysed.add(g.id)


# ----------------------------------------------------------------- grouping
def grouping(ctx, f, run, done, frames, traj):
    fs = ('f', frames, '#size')
    I = ctx.interp(inline=lambda g: (g.cls or '') == B or
                   g.id.startswith('lam@'), opaque=HEAVY + (
                       'ConnectAllSubmap', 'CalculateDescriptor'),
                   volatile=lambda l: l in (fld(run), fld(done), fs))
    st = I.init_state()
    T_ = ('trajectory',)
    I.store(st, traj, ('&', T_), quiet=True)
    outs, ret = ends(ctx, I, f, state=st)
    for o in ret:
        levels = {x for a in o.st.pc for x in T.walk(a)
                  if x and x[0] == 'at' and x[2] == fs}
        at = seen(o, fld(run), False)
        ok = False
        for l in levels:
            others = leaves(o.st.pc, l)
            idx = [x for x in others if 'frame_count' not in T.show(x)]
            cnt = [x for x in others if 'frame_count' in T.show(x)]
            if len(idx) > 1 or len(cnt) != 1:
                continue
            extra = [(x, range(3)) for x in idx] + [(cnt[0], range(1, 4))]
            a = allowed(o.st.pc, [l], {}, 4, extra)
            good = [vs[0] - (xs[0] if idx else 0) < xs[-1] for vs, xs in a
                    if not idx or xs[0] <= vs[0]]
            if good and all(good) and any(t < l[1] for t in at):
                ok = True
        ctx.require(ok, 'drained', f.where(), 'grouping ends only when it has '
                    'seen scan matching ended and, after that, too few frames '
                    'for another submap', 'grouping')
        evs = o.events()
        fin = [k for k, e in stored(o, fld(done)) if e.val == TRUE]
        pool = [k for k, e in enumerate(evs) if e.k == 'dtor' and
                'ThreadPool' in str(e.c or e.q or e.x)]
        # the pool waits for the connector, the connector for the flag
        ctx.require(fin and all(k > fin[0] for k in pool), 'connector released',
                    f.where(), 'the end of grouping is announced before its '
                    'pool is waited for', 'released')
    announce(ctx, f, outs, ret, fld(done), TRUE, [T_], 'grouping')
    starts = set()
    for o in outs:
        for e in o.events():
            if e.k == 'call' and e.n == 'enqueue':
                starts.add(calls_of(ctx, e))
    for o in ret:
        n = sum(1 for e in o.events() if e.k == 'call' and e.n == 'enqueue' and
                'ConnectAllSubmap' in calls_of(ctx, e))
        ctx.require(n == 1, 'connector started', f.where(), 'the stage that '
                    'connects submaps is started once', 'connector')


def leaves(pc, l):
    """unknowns compared with the level l, other than l"""
    out = set()
    for a in pc:
        if not T.occurs(l, a):
            continue
        walk(a, l, out)
    return sorted(out, key=repr)


def walk(t, l, out):
    if not isinstance(t, tuple) or not t:
        return
    if t == l:
        return
    if t[0] in ('ld', 'fld', 'iv', 'hv', 'at', 'res', 'arg'):
        out.add(t)
        return
    if t[0] == 'c':
        return
    if t[0] == 'lin':
        for x, _ in t[1]:
            walk(x, l, out)
        return
    for x in t[1:]:
        walk(x, l, out)


def calls_of(ctx, e):
    """names of functions a submitted task calls"""
    names = set()
    for a in e.args or ():
        for x in T.walk(a):
            if x and x[0] == 'lam':
                g = ctx.prog.fns.get(x[1])
                if g:
                    names |= {n['fn']['n'] for _, n in g.calls()
                              if n.get('fn')}
            if x and x[0] in ('fn', 'memfn'):
                names.add(str(x[1]).split('::')[-1].split('(')[0])
    return ' '.join(sorted(names))


# --------------------------------------------------------------- connecting
def connecting(ctx, f, done, traj):
    T_ = ('trajectory',)
    ts = ('f', T_, '#size')
    I = ctx.interp(inline=lambda g: (g.cls or '') == B or
                   g.id.startswith('lam@'), opaque=HEAVY,
                   volatile=lambda l: l in (fld(done), ts))
    st = I.init_state()
    I.store(st, traj, ('&', T_), quiet=True)
    I.given = lambda a: False if 'show_' in T.show(a) else None
    outs, ret = ends(ctx, I, f, state=st)
    done_ = set()
    for o in ret:
        pc = {}
        for e in o.events():
            if e.k == 'call' and e.n == 'RunFinalOptimazation':
                break
            if e.k == 'cond':
                pc[e.val] = e.pol
        if tuple(sorted(pc.items(), key=repr)) in done_:
            continue
        done_.add(tuple(sorted(pc.items(), key=repr)))
        at = [a[1] for a, pol in pc.items() if a[0] == 'at' and pol and
              a[2] == fld(done)]
        levels = {x for a in pc for x in T.walk(a)
                  if x and x[0] == 'at' and x[2] == ts}
        ok = False
        for l in levels:
            idx = leaves(pc, l)
            if len(idx) > 1:
                continue
            a = allowed(pc, [l], {}, 4, [(x, range(4)) for x in idx])
            good = [vs[0] == 0 or vs[0] - 1 == (xs[0] if idx else 0)
                    for vs, xs in a
                    if not idx or xs[0] < max(vs[0], 1)]
            if good and all(good) and any(t < l[1] for t in at):
                ok = True
        ctx.require(ok, 'drained', f.where(), 'connecting ends only when it has '
                    'seen grouping ended and, after that, no submap left to '
                    'connect', 'connecting')


# ------------------------------------------------------------------- finish
def finish(ctx, f, end, typ):
    threads = [fld(n) for n, t in typ.items() if 'thread' in t and
               'unique_ptr' in t]
    ctx.need(len(threads) == 2, 'the two workers of the builder')
    I = ctx.interp(opaque=HEAVY)
    outs, ret = ends(ctx, I, f)
    for o in ret:
        evs = o.events()
        at = [k for k, e in stored(o, fld(end)) if e.val == TRUE]
        if not ctx.require(bool(at), 'finish requested', f.where(),
                           'the finish call requests the end', 'request'):
            continue
        for t in threads:
            j = [k for k, e in enumerate(evs) if e.k == 'call' and
                 e.n == 'join' and e.obj and T.occurs(t, e.obj)]
            ctx.require(absent(o, t) or j and j[0] > at[0], 'joined', f.where(),
                        'the finish call returns only after %s has been '
                        'joined' % t[2], 'join:' + t[2])


def absent(o, t):
    """does the path know the worker is not there or already joined?"""
    for a, pol in o.st.pc.items():
        if not T.occurs(t, a):
            continue
        if a[0] == '==' and NULL in a[1:] and pol:
            return True
        if a[0] in ('ld',) and not pol:
            return True
        if 'joinable' in T.show(a) and not pol:
            return True
    return False


# ----------------------------------------------------------------- handover
def handover(ctx, raw, ready, lock):
    n = 0
    for f in ctx.prog.fns.values():
        if f.cls != D or f.nocfg or f.kind in ('dtor',):
            continue
        if not any(x.get('k') == 'mem' and x.get('n') in (raw[2], ready[2])
                   for x in f.nodes):
            continue
        ctx.analysed.add(f.id)
        I = ctx.interp(unroll=0, opaque=('ToInnerPointCloud', 'Filter'))
        for o in I.run(f):
            sec = None
            took = put = 0
            for e in o.events():
                if e.k == 'acquire' and e.loc == lock or \
                        e.k == 'release' and e.loc == lock:
                    if e.k == 'release':
                        if took:
                            n += 1
                            ctx.require(put >= took, 'handed over', f.where(),
                                        '%s: a cloud leaves the first queue '
                                        'outside the section that adds it to the '
                                        'second' % f.q, 'handover')
                    took = put = 0
                if e.k == 'call' and e.obj == raw and e.n in GONE:
                    took += 1 if e.n.startswith('pop') or e.n == 'erase' else 9
                    ctx.require(any(l[0] == lock for l in e.locks),
                                'handed over', f.where(), '%s: a cloud leaves '
                                'the first queue without the lock' % f.q,
                                'unlocked')
                if e.k == 'call' and e.obj == ready and e.n in PUT:
                    put += 1
    ctx.need(n, 'the hand-over between the cloud queues')
    ctx.count('hand-over sections', n)


# --------------------------------------------------- what is accepted or lost
def accepted(ctx, end):
    """no cloud is taken in once the end has been requested"""
    n = 0
    for f in ctx.prog.fns.values():
        if f.cls != B or f.nocfg or not any(
                'Cloud' in f.ty(q['t']) for q in f.params) or not any(
                g['fn'].get('n') == 'AddSensorData' for _, g in f.calls()
                if g.get('fn')):
            continue
        I = ctx.interp(volatile=lambda l: l == fld(end))
        ctx.analysed.add(f.id)
        for o in I.run(f):
            refused = False
            for e in o.events():
                if e.k == 'cond' and e.val[0] == 'at' and \
                        e.val[2] == fld(end) and not e.pol:
                    refused = True
                if e.k in ('call', 'callin', 'enter') and \
                        e.n == 'AddSensorData':
                    n += 1
                    ctx.require(refused, 'taken in', f.where(), 'a cloud is '
                                'accepted only while the end has not been '
                                'requested', 'taken')
    ctx.need(n, 'the intake of clouds')
    ctx.count('paths taking in a cloud', n)


def dropped(ctx, ready, done, W):
    """clouds are thrown away only when nothing can be waiting"""
    p = ctx.prog
    drop = set()
    for f in p.fns.values():
        if f.cls == D and f.n != 'GetNewCloud' and f.kind not in (
                'ctor', 'dtor') and any(
                g['fn'].get('n') in GONE and g.get('obj') is not None and
                names(f, g['obj'], ready[2]) for _, g in f.calls()
                if g.get('fn')):
            drop.add(f.q)
    for f in p.fns.values():
        if f.cls == D or f.nocfg:
            continue
        sites = [i for i, g in f.calls() if g.get('fn') and g['fn']['q'] in drop]
        if not sites:
            continue
        ctx.analysed.add(f.id)
        I = ctx.interp(inline=lambda g: False, opaque=HEAVY,
                       volatile=lambda l: l == fld(done))
        I.given = lambda a: False if 'show_' in T.show(a) else None
        for o in I.run(f):
            safe = False
            for e in o.events():
                if e.k == 'cond' and e.val[0] == 'at' and \
                        e.val[2] == fld(done) and e.pol:
                    safe = True
                if e.k == 'call' and e.n == 'join':
                    safe = True
                if e.k == 'call' and e.q in drop:
                    ctx.require(safe, 'dropped', f.where(), 'waiting clouds are '
                                'thrown away only after the stages before are '
                                'seen finished', 'dropped')


def names(f, i, n):
    x = f.nodes[i]
    while x['k'] == 'cast':
        x = f.nodes[x['e']]
    return x['k'] == 'mem' and x.get('n') == n


def ending(p, g, seen=()):
    """g runs only while its owner is destroyed"""
    if g.kind == 'dtor':
        return True
    up = [h for h in p.fns.values() if h.id != g.id and any(
        (n.get('fn') or {}).get('u') == g.id for n in h.nodes)]
    return bool(up) and g.id not in seen and all(
        ending(p, h, seen + (g.id,)) for h in up)


def filtering(ctx):
    """the filtering thread stops only when its owner goes away"""
    p = ctx.prog
    f = p.one(D + '::CloudPreProcessing')
    rec = p.record(D)
    kill = [x['n'] for x in rec['fields'] if 'bool' in
            rec['tu'].types[x['t']] and 'opt' not in x['n']]
    I = ctx.interp(volatile=lambda l: l[0] == 'f' and l[2] in kill,
                   opaque=('Filter',))
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        fl = {a[2][2] for a, pol in o.st.pc.items() if a[0] == 'at' and pol and
              a[2][0] == 'f' and a[2][2] in kill}
        ctx.require(bool(fl), 'filtering ends', f.where(), 'filtering ends only '
                    'on the request of its owner', 'filtering')
        for g in p.fns.values():
            if g.nocfg or g.kind in ('ctor', 'dtor'):
                continue
            for i, x in enumerate(g.nodes):
                if x['k'] == 'bin' and x.get('op') == '=' and any(
                        names(g, x['a'], n) for n in fl) or \
                        x['k'] == 'call' and x.get('obj') is not None and \
                        x.get('a') and any(names(g, x['obj'], n) for n in fl):
                    ctx.require(ending(p, g), 'filtering ends', g.where(i),
                                'only the end of the collector stops the '
                                'filtering', 'kill')
