"""The thread pool."""
from .. import terms as T
from ..conc import Epochs
from ..paths import fld, ld, THIS, is_iv, iterations, structure, Loop, flat
from ..table import bool_table
from ..terms import c, ZERO, TRUE

SRCS = ['pre_processors/filter_ground_removal2.cc', 'builder/map_builder.cc']
EXPLAIN = '''
The pool's constructor, worker body, submission function (every instantiation)
and destructor are followed along all paths; every time the queue lock is taken,
given up or waited on the queue and the stop flag are replaced by fresh values,
which stands for any interleaving with the other threads.  A worker iteration
must take exactly one task from a queue it knows to be non-empty in the same
critical section and call exactly that task once without the lock; a worker may
end only in a critical section in which the flag is set and the queue empty.
A submission must add exactly one entry under the lock in a section where the
flag is clear, notify afterwards, and throw otherwise; the destructor must set
the flag under the lock, then wake all workers, then join every one.
'''
ASSUME = ['a task object runs its function once when it is called',
          'notification wakes a waiting thread', 'the tasks themselves end']
MIN_OBLIGATIONS = 12
Q = 'static_map::common::ThreadPool'
PUT = ('push', 'emplace', 'push_back', 'emplace_back')


def field(ctx, rec, pred, what):
    r = [f['n'] for f in rec['fields'] if pred(rec['tu'].types[f['t']])]
    ctx.need(len(r) == 1, 'the pool has exactly one %s' % what)
    return fld(r[0])


def check(ctx):
    p = ctx.prog
    rec = ctx.need(p.records.get(Q), 'the thread pool class')
    tasks = field(ctx, rec, lambda t: 'function<' in t, 'task queue')
    workers = field(ctx, rec, lambda t: 'thread' in t and 'vector' in t,
                    'worker list')
    mutex = field(ctx, rec, lambda t: 'mutex' in t, 'mutex')
    cond = field(ctx, rec, lambda t: 'condition_variable' in t, 'condition')
    stop = field(ctx, rec, lambda t: t in ('bool', 'std::atomic<bool>',
                                           'std::atomic_bool'), 'stop flag')
    guards = {mutex: [tasks, stop]}

    def stopped(pc, sec):
        return pc.get(sec[stop])

    def empty(pc, I, sec):
        return pc.get(T.cmp('==', ZERO, sec['size', tasks]))

    def locked(e):
        return (mutex, 'x') in e.locks

    # --- construction starts exactly the requested number of workers
    fn = p.one(Q + '::ThreadPool', lambda f: f.kind == 'ctor' and
               len(f.params) == 1)
    I = ctx.interp()
    outs = I.run(fn)
    body = None
    n_arg = ld(('arg', fn.params[0]['n'], 0))
    for alts in iterations(outs).values():
        for o, evs in alts:
            st = [e for e in evs if e.k == 'call' and e.obj == workers and
                  e.n in PUT]
            ctx.require(len(st) == 1, 'workers-started', fn.where(),
                        'each step starts one worker', 'start/one')
            for e in st:
                a = e.args[0]
                if a[0] == 'lam':
                    body = p.fns.get(a[1])
                elif a[0] == 'fn':
                    body = p.fns.get(a[1])
                i0 = [x for x in evs if x.k == 'cond' and x.pol and
                      x.val[0] == '<' and is_iv(x.val[1]) and
                      x.val[2] == n_arg]
                ctx.require(bool(i0), 'workers-started', e.where,
                            'as many workers as requested', 'start/count')
    for o in outs:
        if o.kind == 'ret':
            ctx.require(o.st.store.get(stop) == c(False), 'workers-started',
                        fn.where(), 'the pool starts running', 'start/flag')
            evs = o.events()
            k = [i for i, e in enumerate(evs) if e.k == 'write' and
                 e.loc == stop]
            f = [i for i, e in enumerate(evs) if e.k == 'loop']
            ctx.require(bool(k) and (not f or k[0] < f[0]), 'workers-started',
                        fn.where(), 'the flag is clear before a worker runs',
                        'start/order')
    ctx.need(body, 'the worker body')

    # --- worker
    I = ctx.interp()
    E = Epochs(I, guards)
    outs = I.run(body)
    if any(o.kind == 'ret' for o in outs) is False:
        ctx.bad('worker-ends', body.where(), 'a worker never ends', 'w/never')
    secs = E.sections()
    seen_wait = 0
    for o in outs:
        evs = o.events()
        pc = o.st.pc
        for e in evs:
            if e.k == 'call' and e.x == 'wait':
                seen_wait += 1
                ctx.require(locked(e), 'wait', e.where, 'waits with the queue '
                            'lock', 'wait/lock')
        lost = [e for e in evs if dropped(e, tasks)]
        ctx.require(not lost, 'one-task', lost[0].where if lost else
                    body.where(), 'the queue only loses the task that is taken',
                    'w/dropped')
        if o.kind == 'back':
            # one arbitrary iteration
            k = max(i for i, e in enumerate(evs) if e.k == 'loop')
            it = evs[k + 1:]
        elif o.kind == 'ret':
            ok = any(stopped(pc, s) is True and empty(pc, I, s) is True
                     for s in secs.values())
            ctx.require(ok, 'worker-ends', body.where(), 'a worker ends only when '
                        'the pool is stopping and, in the same critical section, '
                        'no task is left', 'w/end')
            pops = [e for e in evs if e.k == 'call' and e.obj == tasks and
                    e.n in ('pop', 'pop_front', 'clear', 'erase')]
            # anything taken in the ending iteration must not be lost
            tail = evs[max([i for i, e in enumerate(evs) if e.k == 'loop'] +
                           [0]):]
            lost = [e for e in pops if e in tail]
            runs = [e for e in tail if called(e)]
            ctx.require(len(lost) <= len(runs), 'worker-ends', body.where(),
                        'a task taken from the queue is run', 'w/lost')
            continue
        else:
            continue
        pops = [e for e in it if e.k == 'call' and e.obj == tasks and
                e.n in ('pop', 'pop_front')]
        runs = [e for e in it if called(e)]
        waits = [e for e in it if e.k == 'call' and e.x == 'wait']
        if not pops and not runs and waits:
            continue        # waited only
        w = (pops or runs or it or [None])[0]
        where = w.where if w is not None else body.where()
        if not ctx.require(len(pops) == 1 and len(runs) == 1, 'one-task', where,
                           'an iteration takes one task and runs it once '
                           '(takes %d, runs %d)' % (len(pops), len(runs)),
                           'w/one'):
            continue
        ctx.require(all(locked(e) for e in pops), 'one-task', pops[0].where,
                    'the task is taken under the lock', 'w/lock')
        ctx.require(not runs[0].locks, 'outside-lock', runs[0].where,
                    'the task runs outside the queue lock', 'w/unlocked')
        ks = [k for k, s in secs.items() if empty(pc, I, s) is False]
        ctx.require(bool(ks), 'one-task', pops[0].where, 'the queue is known to '
                    'hold a task when one is taken', 'w/nonempty')
        got = task_value(I, o, it, runs[0])
        fronts = [s['front', tasks] for k, s in secs.items() if k in ks]
        ctx.require(got in fronts, 'one-task', runs[0].where, 'the task that is '
                    'run is the one taken from the front', 'w/same')
    ctx.need(seen_wait, 'the worker waits for tasks')
    # --- the wait condition lets a worker go for a task and for stopping
    lams = {}
    for o in outs:
        for e in o.events():
            if e.k == 'call' and e.x == 'wait' and e.val is not None and \
                    e.val[0] == 'lam':
                lams[e.val[1]] = e
    for u, e in lams.items():
        f = p.fns[u]
        I2 = ctx.interp()
        paths = [(list(o.st.pc.items()), o.val, f.where()) for o in I2.run(f)
                 if o.kind == 'ret']
        S, N = ld(stop), ld(('f', tasks, '#size'))
        n, bad = bool_table(paths, [S, N], [(False, True), (0, 1, 2)],
                            lambda x: bool(x[S] or x[N] > 0))
        ctx.require(not bad, 'wait', e.where, 'the wait ends exactly when a task '
                    'is there or the pool stops', 'wait/pred')

    # --- submission
    n = 0
    for fn in p.find(Q + '::enqueue'):
        n += 1
        I = ctx.interp()
        E = Epochs(I, guards)
        outs = I.run(fn)
        secs = E.sections()
        kinds = {o.kind for o in outs}
        ctx.require('throw' in kinds, 'submit', fn.where(), 'submitting to a '
                    'stopping pool throws', 'sub/throws')
        for o in outs:
            evs = o.events()
            puts = [e for e in evs if e.k == 'call' and e.obj == tasks and
                    e.n in PUT]
            lost = [e for e in evs if dropped(e, tasks) or e.k == 'call' and
                    e.obj == tasks and e.n == 'pop']
            ctx.require(not lost, 'submit', lost[0].where if lost else
                        fn.where(), 'a submission keeps the queued tasks',
                        'sub/lost')
            st = [stopped(o.st.pc, s) for s in secs.values()]
            if o.kind == 'throw':
                ctx.require(True in st and not puts, 'submit', fn.where(),
                            'nothing is queued when the submission is refused, '
                            'and only a stopping pool refuses', 'sub/refuse')
            elif o.kind == 'ret':
                if not ctx.require(len(puts) == 1 and False in st and
                                   True not in st, 'submit', fn.where(),
                                   'an accepted task is queued once, in a '
                                   'critical section where the pool is running',
                                   'sub/once'):
                    continue
                e = puts[0]
                ctx.require(locked(e), 'submit', e.where, 'queued under the lock',
                            'sub/lock')
                k = evs.index(e)
                nt = [i for i, x in enumerate(evs) if x.k == 'call' and
                      x.obj == cond and x.n in ('notify_one', 'notify_all')]
                ctx.require(any(i > k for i in nt), 'submit', fn.where(),
                            'a worker is notified after the task was queued',
                            'sub/notify')
                a = e.args[0]
                fut = [x for x in evs if x.k == 'call' and x.n == 'get_future']
                if a[0] == 'lam':
                    # held by value: the entry outlives this call
                    ok = len(fut) == 1 and any(
                        l[0] == '&' and l[1][0] == 'tmp' and T.occurs(
                            fut[0].obj, I.load(o.st, l[1]))
                        for d, l in a[2])
                else:
                    ok = len(fut) == 1 and T.occurs(fut[0].obj, a)
                if a[0] == 'lam':
                    lf = p.fns[a[1]]
                    for o2 in ctx.interp().run(lf):
                        cs = [x for x in o2.events() if called(x)]
                        ctx.require(o2.kind == 'ret' and len(cs) == 1, 'submit',
                                    lf.where(), 'the queued entry calls the task '
                                    'once', 'sub/calls')
                ctx.require(ok, 'submit', e.where, 'the queued entry is the task '
                            'the returned result belongs to', 'sub/same')
                ctx.require(o.val == (fut[0].res if fut and fut[0].res is not
                                      None else o.val) and bool(fut), 'submit',
                            fn.where(), 'the result of the task is returned',
                            'sub/result')
    ctx.need(n, 'an instantiation of the submission function')
    ctx.count('submission_instances', n)

    # --- destruction
    fn = p.one(Q + '::~ThreadPool')
    I = ctx.interp()
    outs = I.run(fn)
    for o in outs:
        if o.kind not in ('ret', 'back'):
            continue
        evs = o.events()
        ws = [i for i, e in enumerate(evs) if e.k in ('write', 'astore') and
              e.loc == stop]
        ok = ws and all(evs[i].val == TRUE for i in ws)
        ctx.require(bool(ok) and all(locked(evs[i]) for i in ws), 'destroy',
                    fn.where(), 'the stop flag is set under the queue lock',
                    'd/flag')
        na = [i for i, e in enumerate(evs) if e.k == 'call' and e.obj == cond and
              e.n == 'notify_all']
        ctx.require(bool(na) and bool(ws) and na[-1] > ws[0], 'destroy',
                    fn.where(), 'all workers are woken after the flag is set',
                    'd/notify')
        jn = [i for i, e in enumerate(evs) if e.k == 'call' and e.n == 'join']
        lp = [i for i, e in enumerate(evs) if e.k == 'loop']
        first = min(jn + lp) if jn + lp else None
        ctx.require(first is not None and bool(na) and na[-1] < first,
                    'destroy', fn.where(), 'the workers are joined after they '
                    'were woken', 'd/order')
        for e in evs:
            if e.k == 'call' and e.n == 'join':
                ctx.require(not e.locks, 'destroy', e.where,
                            'the lock is not held while joining', 'd/lock')
        lost = [e for e in evs if dropped(e, tasks) or e.k == 'call' and
                e.obj == tasks and e.n in ('pop', 'pop_front')]
        ctx.require(not lost, 'destroy', lost[0].where if lost else fn.where(),
                    'no accepted task is thrown away', 'd/lost')
        if any(e.k == 'call' and e.n == 'detach' for e in evs):
            ctx.bad('destroy', fn.where(), 'a worker is detached', 'd/detach')
    ok = False
    for alts in iterations(outs).values():
        good = True
        for o, evs in alts:
            js = [e for e in evs if e.k == 'call' and e.n == 'join']
            nj = [x for x in evs if x.k == 'cond' and 'joinable' in repr(x.val)]
            if len(js) == 1 and js[0].obj[0] == '[]' and \
                    js[0].obj[1] == workers and is_iv(js[0].obj[2]):
                iv = js[0].obj[2]
                lim = ld(('f', workers, '#size'))
                if any(x.k == 'cond' and (x.val == ('<', iv, lim) and x.pol or
                       x.val[0] == '==' and set(x.val[1:]) == {iv, lim} and
                       not x.pol) for x in evs):
                    continue
            elif not js and nj:
                continue
            good = False
        ok = ok or good and bool(alts)
    for o in outs:
        if o.kind == 'ret':
            for l in structure(o.events()):
                if isinstance(l, Loop) and any(e.k == 'call' and e.n == 'join'
                                               for e in flat(l.items)):
                    ok = False
    ctx.require(ok, 'destroy', fn.where(), 'every worker is joined', 'd/join')


def dropped(e, tasks):
    """the queue loses or replaces entries other than by taking the front"""
    if e.k == 'write' and (e.loc == tasks or e.loc[0] == '[]' and
                           e.loc[1] == tasks):
        return True
    return e.k == 'call' and e.obj == tasks and e.n in (
        'swap', 'clear', 'operator=', 'erase', 'resize')


def called(e):
    return e.k == 'call' and e.n == 'operator()' and e.obj is not None


def task_value(I, o, it, run):
    """the value the called function object held"""
    v = None
    for e in it:
        if e is run:
            break
        if e.k == 'write' and e.loc == run.obj:
            v = e.val
    return v
