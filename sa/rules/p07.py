"""Background threads start on constructed objects and end before them."""
from .. import terms as T
from ..interp import Budget
from ..paths import fld
from ..terms import c, NULL
from .p06 import member, READ, D, TP, MM, PP

SRCS = ['builder/data/data_collector.cc', 'builder/map_builder.cc',
        'builder/memory_manager.cc', 'common/performance/process_info.cc',
        'pre_processors/filter_ground_removal2.cc']
EXPLAIN = '''
For every class that holds a thread the function the thread runs is followed
along all paths and the members it uses are collected.  In the constructor, with
its member initialisers in the order the compiler gives them, each of these
members must have been initialised before the thread starts and must not be
changed plainly afterwards.  In the destructor every thread must be joined on
every path on which it can be running, after the flag was set to the value that
makes every further round of the thread function impossible, and before a member
the thread uses is given up.  For the builder the same is decided at the function
that starts its workers and at its destructor with the finishing function.
'''
ASSUME = ['the work of one round of a thread ends']
MIN_OBLIGATIONS = 25
B = 'static_map::MapBuilder'
GIVEN_UP = {'reset', 'clear', 'swap', 'shrink_to_fit', 'release', 'pop_back',
            'pop_front', 'erase', 'resize'}


def check(ctx):
    found = 0
    for q in (D, MM, PP, TP):
        rec = ctx.need(ctx.prog.records.get(q) or ctx.prog.record(q),
                       'the class ' + q)
        owner(ctx, q, rec)
        found += 1
    ctx.count('thread owning classes', found + 1)
    builder(ctx)


def thread_members(rec, what='std::thread'):
    return [x['n'] for x in rec['fields'] if what in rec['tu'].types[x['t']]]


def body_of(ctx, args):
    for a in args or ():
        for t in T.walk(a):
            if isinstance(t, tuple) and t[:1] in (('fn',), ('lam',)) and \
                    len(t) > 1 and t[1] in ctx.prog.fns:
                return ctx.prog.fns[t[1]]
    return None


def starts(ctx, evs, threads):
    """(index, event, body) of the places a thread starts"""
    for k, e in enumerate(evs):
        if e.k != 'call':
            continue
        if e.n == 'thread' and e.args or e.n in (
                'emplace_back', 'push_back') and member(e.obj) in threads or \
                e.n in ('make_unique', 'make_shared') and e.args:
            b = body_of(ctx, e.args)
            if b is not None:
                yield k, e, b


def uses(ctx, body):
    """members the thread touches, and its runs"""
    I = ctx.interp(reads=True)
    try:
        outs = I.run(body)
    except Budget:
        ctx.need(False, 'a bounded number of paths in ' + body.q)
    s = set()
    for o in outs:
        for e in o.events():
            for l in [e.loc, e.obj] + [a[1] for a in e.args or () if
                                       isinstance(a, tuple) and a[:1] == ('&',)]:
                x = member(l)
                if x is not None:
                    s.add(x)
    ctx.analysed.add(body.id)
    return s, outs


def owner(ctx, q, rec):
    short = q.rsplit('::', 1)[-1]
    threads = thread_members(rec)
    ctx.need(threads, 'a thread in ' + short)
    types = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    made = [f for f in ctx.prog.fns.values() if f.cls == q and f.nodes and
            f.kind == 'ctor']
    gone = [f for f in ctx.prog.fns.values() if f.cls == q and f.nodes and
            f.kind == 'dtor']
    body = None
    used = set()
    runs = []
    for f in made:
        ctx.analysed.add(f.id)
        I = ctx.interp(reads=True)
        for o in I.run(f):
            if o.kind in ('abort', 'throw'):
                continue
            evs = list(o.events())
            for k, e, b in starts(ctx, evs, threads):
                if body is None or b.id != body.id:
                    body = b
                    used, runs = uses(ctx, b)
                set_up = {member(x.loc) for x in evs[:k] if x.k in (
                    'write', 'astore') and x.loc and x.loc[0] == 'f'}
                for n in sorted(used & set(types)):
                    ctx.require(n in set_up, 'started', e.where, '%s: the thread '
                                'uses %s, which is not set up when it starts' % (
                                    short, n), '%s/%s' % (short, n))
                for x in evs[k + 1:]:
                    n = None
                    if x.k == 'write':
                        n = member(x.loc)
                    elif x.k == 'call' and (x.n or '') not in READ:
                        n = member(x.obj)
                    if n in used and n not in threads and not x.locks and \
                            not types.get(n, '').startswith('std::atomic'):
                        ctx.require(False, 'started', x.where, '%s: %s is set '
                                    'while the thread may already use it' % (
                                        short, n), '%s/%s/late' % (short, n))
    ctx.need(body, 'the function the thread of %s runs' % short)
    if not ctx.require(bool(gone), 'ended', '%s:%s' % (rec['file'], rec['line']),
                       '%s owns a thread and has no destructor that ends it' %
                       short, short + '/none'):
        return
    flags = stop_flags(ctx, short, body, runs) if q != TP else None
    for f in gone:
        ctx.analysed.add(f.id)
        I = ctx.interp(reads=True)
        for o in I.run(f):
            evs = list(o.events())
            for t in threads:
                pool_round(ctx, f, short, evs, o, t)
            if o.kind != 'ret':
                continue
            ended(ctx, f, short, list(o.events()), o, threads, used, flags)


def atoms_on(pc, runs=None):
    for a, pol in pc.items():
        for t in T.walk(a):
            if isinstance(t, tuple) and t[:1] in (('ld',), ('at',)):
                n = member(t[-1])
                if n is not None and t[-1] == fld(n):
                    yield n, a == t, pol


def stop_flags(ctx, short, body, runs):
    """{member: value} that excludes another round"""
    backs = [o for o in runs if o.kind == 'back']
    # the rounds are those of the body itself; a reading loop of a helper ends
    # with what it reads
    level, seen = [body.id], set()
    while level:
        own = [o for o in backs if o.fn.id in level]
        if own:
            backs = own
            break
        seen |= set(level)
        level = [n['fn']['u'] for u in level if u in ctx.prog.fns for _, n in
                 ctx.prog.fns[u].calls() if n.get('fn') and
                 n['fn'].get('u') in ctx.prog.fns and n['fn']['u'] not in seen]
    if not ctx.require(bool(backs) or all(o.kind != 'back' for o in runs),
                       'ended', body.where(), 'rounds', short):
        return {}
    cand = None
    for o in backs:
        here = {(n, not pol) for n, direct, pol in atoms_on(o.st.pc) if direct}
        cand = here if cand is None else cand & here
    ok = ctx.require(cand is None or bool(cand), 'ended', body.where(), '%s: every '
                     'round of the thread looks at a flag that ends it' % short,
                     short + '/flag')
    return dict(cand or ()) if ok else {}


def pool_round(ctx, f, short, evs, o, t):
    """one round over a list of threads waits for its thread"""
    for e in evs:
        if e.k == 'call' and e.n == 'detach':
            ctx.require(False, 'ended', e.where, '%s: no thread is left on its '
                        'own' % short, short + '/detach')
    if o.kind != 'back' or o.fn is not f:
        return
    js = any(e.k == 'call' and e.n == 'join' and t in T.show(e.obj, -9)
             for e in evs)
    idle = any('joinable' in T.show(a, -9) and pol is False
               for a, pol in o.st.pc.items())
    ctx.require(js or idle, 'ended', f.where(), '%s: every thread of the list is '
                'joined' % short, short + '/each')


def ended(ctx, f, short, evs, o, threads, used, flags):
    for t in threads:
        loc = fld(t)
        js = [k for k, e in enumerate(evs) if e.k == 'call' and e.n == 'join' and
              e.obj and member(e.obj) == t]
        idle = any('joinable' in T.show(a, -9) and t in T.show(a, -9) and
                   pol is False for a, pol in o.st.pc.items())
        loop = [e for e in evs if e.k == 'loop']
        every = bool(js) or idle
        if not js and not idle and loop:
            # a list of threads: the pass over it joins the element
            every = not any(e.k == 'iterend' for e in evs) and any(
                True for e in evs if e.k == 'loopexit')
        ctx.require(every, 'ended', f.where(), '%s: the thread is joined before '
                    'the object goes' % short, short + '/join')
        if not js:
            continue
        k = js[0]
        if flags is not None:
            set_ = [(member(e.loc), e.val) for e in evs[:k] if e.k in (
                'write', 'astore') and e.loc and e.loc[0] == 'f']
            ok = any(n in flags and v == c(flags[n]) for n, v in set_)
            ctx.require(ok, 'ended', f.where(), '%s: the thread is told to stop '
                        'before it is waited for' % short, short + '/told')
        for e in evs[:k]:
            n = None
            if e.k == 'call' and e.n in GIVEN_UP:
                n = member(e.obj)
            if e.k in ('delete', 'dtor'):
                n = member(e.loc or e.obj)
            if n in used:
                ctx.require(False, 'ended', e.where, '%s: %s is given up while '
                            'the thread may use it' % (short, n),
                            '%s/%s/early' % (short, n))


# ------------------------------------------------------------------- builder
NEEDS = (('registrator::Interface', 'the matcher'),
         ('IsamOptimizer', 'the pose graph'),
         ('data::DataCollector', 'the data collector'),
         ('Trajectory', 'the first trajectory'))


def builder(ctx):
    rec = ctx.prog.record(B)
    types = {x['n']: rec['tu'].types[x['t']] for x in rec['fields']}
    threads = thread_members(rec)
    ctx.need(len(threads) == 2, 'the two workers of the builder')
    need = {}
    for t, what in NEEDS:
        r = [n for n, ty in types.items() if t in ty and 'ptr' in ty.lower() and
             'vector' not in ty]
        r = r or [n for n, ty in types.items() if ty.endswith(t + '::Ptr')]
        ctx.need(len(r) == 1, what + ' of the builder')
        need[r[0]] = what
    f = ctx.prog.one(B + '::InitialiseInside')
    ctx.analysed.add(f.id)
    ctor = [g for g in ctx.prog.fns.values() if g.cls == B and g.nodes and
            g.kind == 'ctor' and not (g.params and 'MapBuilder' in g.ty(
                g.params[0]['t']))]
    flags = [n for n, t in types.items() if t.startswith('std::atomic')]
    for g in ctor:
        for o in ctx.interp().run(g):
            if o.kind != 'ret':
                continue
            w = {member(e.loc) for e in o.events() if e.k in ('write', 'astore')
                 and e.loc}
            for n in flags:
                ctx.require(n in w, 'started', g.where(), 'the flag %s has a value '
                            'before any worker exists' % n, 'flag/' + n)
    I = ctx.interp(inline=lambda g: g.cls == B)
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        evs = list(o.events())
        st = [k for k, e in enumerate(evs) if e.k == 'write' and e.loc in [
            fld(t) for t in threads] and e.val != NULL]
        got = {evs[k].loc for k in st}
        ctx.require(len(got) in (0, 2), 'started', f.where(), 'the workers are '
                    'started together', 'both')
        if not st:
            continue
        n += 1
        k = min(st)
        made = [x for x, e, b in starts(ctx, evs, threads)]
        k = min([k] + made)
        for m in sorted(need):
            ok = any(e.k == 'write' and e.loc == fld(m) and e.val != NULL
                     for e in evs[:k])
            late = any(e.k == 'write' and e.loc == fld(m) for e in evs[k:])
            ctx.require(ok, 'started', evs[k].where, '%s exists before the workers '
                        'start' % need[m], 'need/' + m)
            ctx.require(not late, 'started', evs[k].where, '%s is not replaced '
                        'once the workers run' % need[m], 'late/' + m)
    ctx.need(n, 'a path that starts the workers')
    ends(ctx, threads, flags)


def ends(ctx, threads, flags):
    gone = [g for g in ctx.prog.fns.values() if g.cls == B and g.nodes and
            g.kind == 'dtor']
    if not ctx.require(bool(gone), 'ended', 'builder/map_builder.h', 'the builder '
                       'ends its workers', 'builder'):
        return
    for g in gone:
        ctx.analysed.add(g.id)
        I = ctx.interp(inline=lambda h: h.cls == B, volatile=lambda l: l in [
            fld(n) for n in flags])
        for o in I.run(g):
            if o.kind != 'ret':
                continue
            evs = list(o.events())
            none = {member(t[1]) for a, pol in o.st.pc.items() if pol and
                    a[0] == '==' for t in a[1:] if t[:1] == ('ld',)}
            idle = any(n in none for n in threads)
            for t in threads:
                rest = any('joinable' in T.show(a, -9) and t in T.show(a, -9) and
                           not pol for a, pol in o.st.pc.items())
                js = [k for k, e in enumerate(evs) if e.k == 'call' and
                      e.n == 'join' and e.obj and member(e.obj) == t]
                ctx.require(bool(js) or idle or rest, 'ended', g.where(), 'a '
                            'running worker is joined when the builder goes',
                            'builder/' + t)
                for k in js:
                    told = [e for e in evs[:k] if e.k in ('astore', 'write') and
                            member(e.loc) in flags and e.val == c(True)]
                    ctx.require(bool(told), 'ended', evs[k].where, 'workers are '
                                'told to stop before they are waited for',
                                'builder/told')
    # nowhere else is a worker let go without being joined
    for g in ctx.prog.fns.values():
        if g.cls != B or not g.nodes or g.kind in ('ctor', 'dtor') or \
                not any(n['k'] == 'mem' and n.get('n') in threads
                        for n in g.nodes):
            continue
        ctx.analysed.add(g.id)
        I = ctx.interp(inline=lambda h: h.cls == B)
        for o in I.run(g):
            evs = list(o.events())
            for k, e in enumerate(evs):
                if e.k == 'write' and e.loc in [fld(t) for t in threads] and \
                        e.val == NULL:
                    t = member(e.loc)
                    ctx.require(any(x.k == 'call' and x.n == 'join' and
                                    member(x.obj) == t for x in evs[:k]),
                                'ended', e.where, 'a worker is let go only after '
                                'it was joined', 'letgo/' + t)
                if e.k == 'call' and e.n == 'detach' and member(e.obj) in threads:
                    ctx.require(False, 'ended', e.where, 'no worker runs on its '
                                'own', 'detach')
