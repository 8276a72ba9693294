"""Intake of clouds."""
from .. import terms as T
from ..num import Num, NoValue
from ..paths import fld
from ..terms import c, NULL

SRCS = ['builder/map_builder.cc', 'builder/data/data_collector.cc',
        'builder/data/cloud_types.cc', 'common/simple_time.cc']
EXPLAIN = '''
The transfer function of cloud intake is composed with itself: for each number
of clouds per scan from 1 to 3 the abstract state (fields of the collector, with
symbolic points) is followed through consecutive clouds of different sizes, and
after each the queue of scans must hold exactly the finished groups, each made
of the points of its clouds in order with relative positions i/n and the time of
its first cloud; objects already queued must not be written again.  One
iteration of preprocessing and the hand-out of scans are followed on every path:
which element leaves which queue, what is filtered into what, where the result
goes.  Every function of the collector is searched for other uses of the queues.
'''
ASSUME = ['clouds with more points than the analysed sizes are treated alike: '
          'the loops over points have no other exit than the end of the cloud '
          '(decided for all sizes by P27)',
          'the conversion of a cloud succeeds (it always returns a cloud, see '
          'P27)']
MIN_OBLIGATIONS = 60
Q = 'static_map::data::DataCollector::'
RAW, DONE = fld('cloud_data_before_preprocessing_'), fld('cloud_data_')
SIZES = (2, 1, 3)


def check(ctx):
    p = ctx.prog
    fs = [f for f in p.find(Q + 'AddSensorData')
          if 'PointCloud' in f.ty(f.params[0]['t'])]
    ctx.need(fs, 'intake of clouds')
    for f in fs:
        for n in (1, 2, 3):
            intake(ctx, f, n)
    preprocessing(ctx, p.one(Q + 'CloudPreProcessing'))
    handout(ctx, p.one(Q + 'GetNewCloud'))
    others(ctx)


def intake(ctx, f, N):
    I = ctx.interp(unroll=16)
    st = I.init_state()
    I.store(st, fld('accumulate_cloud_num', fld('options_')), c(N), quiet=True)
    I.store(st, fld('accumulated_cloud_count_'), c(0), quiet=True)
    I.store(st, fld('accumulated_point_cloud_'), NULL, quiet=True)
    I.store(st, ('f', RAW, '#size'), c(0), quiet=True)
    states = [st]
    for j in range(2 * N + 1):
        cl, slot = ('cloud', j), ('slot', j)
        nxt = []
        for s in states:
            before = {v[1] for v in queued(I, s) if v and v[0] == '&'}
            I.store(s, ('f', fld('points', cl), '#size'), c(SIZES[j % 3]),
                    quiet=True)
            I.store(s, slot, ('&', cl), quiet=True)
            n0 = len(s.events()) if hasattr(s, 'events') else 0
            I.outs = []
            for o in I.run(f, args=[('&', slot)], state=s):
                if o.kind == 'back':
                    continue
                what = 'cloud %d of scans of %d' % (j + 1, N)
                if not ctx.require(o.kind == 'ret', 'intake', f.where(),
                                   '%s: %s stops the program' % (f.q, what),
                                   'intake/abort'):
                    continue
                es = o.events()[n0:]
                for e in es:
                    if e.k == 'write' and any(T.is_prefix(b, e.loc)
                                              for b in before):
                        ctx.bad('frozen', e.where, '%s: a queued scan is '
                                'modified by %s' % (f.q, what), 'intake/frozen')
                    if e.k == 'call' and e.obj in before and e.n not in (
                            'size', 'empty'):
                        ctx.bad('frozen', e.where, '%s: a queued scan is '
                                'modified by %s' % (f.q, what), 'intake/frozen')
                ctx.ok('frozen', f.where(), what)
                verify(ctx, f, I, o.st, N, j + 1, what)
                nxt.append(o.st)
        states = nxt
        if len(states) > 8:
            states = states[:8]
        if not states:
            return
    ctx.count('clouds followed', 2 * N + 1)


def queued(I, st):
    sz = I.load(st, ('f', RAW, '#size'))
    n = T.num(sz)
    if n is None:
        return []
    return [I.load(st, ('[]', RAW, c(k))) for k in range(int(n))]


def verify(ctx, f, I, st, N, calls, what):
    q = queued(I, st)
    sz = T.num(I.load(st, ('f', RAW, '#size')))
    if not ctx.require(sz == calls // N, 'queued', f.where(), '%s: after %s the '
                       'queue has %s scans instead of %d' % (
                           f.q, what, sz, calls // N), 'intake/count'):
        return
    if len(set(q)) != len(q):
        ctx.bad('queued', f.where(), '%s: the same scan is queued twice' % f.q,
                'intake/same')
    for k, v in enumerate(q):
        if not v or v[0] != '&':
            ctx.bad('queued', f.where(), '%s: %s is queued' % (f.q, T.show(v)),
                    'intake/object')
            continue
        want = []
        for j in range(k * N, (k + 1) * N):
            want += [('[]', fld('points', ('cloud', j)), c(i))
                     for i in range(SIZES[j % 3])]
        pts = fld('points', v[1])
        n = T.num(I.load(st, ('f', pts, '#size')))
        if not ctx.require(n == len(want), 'points', f.where(), '%s: after %s '
                           'scan %d has %s points instead of %d' % (
                               f.q, what, k + 1, n, len(want)),
                           'intake/points'):
            continue
        bad = None
        num = Num(seed=4)
        for i, w in enumerate(want):
            try:
                x = num.val(I.full(st, ('[]', pts, c(i))))
                for a in ('x', 'y', 'z', 'intensity'):
                    if num.scal(num.field(x, a)) != num.scal(num.leaf(
                            ('f', w, a))):
                        bad = '%s of point %d' % (a, i)
                if abs(num.scal(num.field(x, 'factor')) - i / len(want)) > 1e-6:
                    bad = 'relative position of point %d of %d' % (i, len(want))
            except NoValue as e:
                bad = 'point %d (%s)' % (i, e)
        ctx.require(not bad, 'points', f.where(), '%s: after %s scan %d has a '
                    'wrong %s' % (f.q, what, k + 1, bad), 'intake/content')
        us = 1234567890123456
        h = ('f', ('f', ('cloud', k * N), 'header'), 'stamp')
        num = Num(over={h: us}, seed=4)
        try:
            x = num.val(I.full(st, fld('stamp', v[1])))
            t = num.scal(num.field(x, 'secs')) * 10**9 + \
                num.scal(num.field(x, 'nsecs'))
        except NoValue as e:
            t = str(e)
        ctx.require(t == us * 1000, 'stamp', f.where(), '%s: after %s scan %d '
                    'does not carry the time of its first cloud' % (
                        f.q, what, k + 1), 'intake/stamp')


def preprocessing(ctx, f):
    # fields that another thread sets may change between two reads
    flag = fld('kill_cloud_preprocessing_thread_')
    I = ctx.interp(opaque=('SetInputCloud', 'Filter'),
                   volatile=lambda l: l == flag)
    outs = I.run(f)
    n = 0
    for o in outs:
        if o.kind not in ('back', 'ret'):
            continue
        es = []
        for e in o.events():
            if e.k == 'loop' and e.fn == f:
                es = []
            else:
                es.append(e)
        pops = [e for e in es if e.k == 'call' and e.obj == RAW and
                e.n in ('pop_front', 'erase', 'pop_back', 'clear')]
        push = [e for e in es if e.k == 'call' and e.obj == DONE and
                e.n in ('push_back', 'emplace_back', 'push_front', 'insert')]
        if not pops:
            ctx.require(not push, 'preprocess', f.where(), '%s: a scan is '
                        'handed on without leaving the raw queue' % f.q,
                        'pre/nopop')
            continue
        n += 1
        w = pops[0].where
        ctx.require(len(pops) == 1 and pops[0].n in ('pop_front', 'erase'),
                    'preprocess', w, '%s: not exactly the first scan leaves the '
                    'raw queue' % f.q, 'pre/pop')
        ins = [e for e in es if e.k == 'call' and e.n == 'SetInputCloud']
        flt = [e for e in es if e.k == 'call' and e.n == 'Filter']
        ctx.require(len(ins) == 1 and len(flt) == 1, 'preprocess', w,
                    '%s: a scan is filtered %d times' % (f.q, len(flt)),
                    'pre/once')
        if len(ins) != 1 or len(flt) != 1:
            continue
        raw = ins[0].args[0]
        ok = is_front(raw)
        ctx.require(ok, 'preprocess', ins[0].where, '%s: the scan filtered is '
                    'not the one taken from the front' % f.q, 'pre/front')
        out = flt[0].args[0]
        fresh = out[0] == '&' and out[1][0] == 'heap'
        ctx.require(fresh, 'preprocess', flt[0].where, '%s: the scan is '
                    'filtered into %s' % (f.q, T.show(out)[:40]), 'pre/fresh')
        ctx.require(es.index(ins[0]) < es.index(flt[0]), 'preprocess',
                    flt[0].where, '%s: filtering before the input is set' % f.q,
                    'pre/order')
        ctx.require(len(push) == 1 and push[0].n in (
            'push_back', 'emplace_back') and push[0].args[0] == out and
            es.index(push[0]) > es.index(flt[0]), 'preprocess', w,
            '%s: the filtered scan is not added once at the end' % f.q,
            'pre/push')
        for e in es:
            if e.k == 'write' and fresh and es.index(e) > es.index(flt[0]) and \
                    (T.is_prefix(out[1], e.loc) or T.is_prefix(
                        ('*', raw), e.loc)):
                ctx.require(e.val is not None and T.has(e.val, fld(
                    'stamp', ('*', raw))), 'stamp', e.where, '%s: the '
                    'filtered scan is changed' % f.q, 'pre/changed')
    ctx.need(n, 'a preprocessing iteration')


def is_front(v):
    """the raw queue's first element"""
    return v[0] in ('ld', 'fld') and (
        v[0] == 'ld' and v[1][0] == '[]' and v[1][2] == c(0) and
        raw_based(v[1][1]) or
        v[0] == 'fld' and v[2][0] == '[]' and v[2][1] == c(0) and
        raw_based(v[1]))


def raw_based(x):
    return x == RAW or x[0] == 'hv' and 'before_preprocessing_' in str(x[2])


def handout(ctx, f):
    I = ctx.interp()
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            ctx.bad('handout', f.where(), '%s does not return' % f.q, 'out/ret')
            continue
        pops = [e for e in o.events() if e.k == 'call' and e.obj == DONE and
                e.n in ('pop_front', 'erase', 'pop_back', 'clear', 'push_back',
                        'push_front', 'insert', 'swap')]
        if o.val == NULL:
            empty = o.st.pc.get(T.cmp('==', c(0), ('ld', ('f', DONE, '#size'))))
            ctx.require(empty is True and not pops, 'handout', f.where(),
                        '%s: nothing is handed out although a scan waits, or a '
                        'scan is lost' % f.q, 'out/null')
            continue
        n += 1
        ctx.require(o.val == ('ld', ('[]', DONE, c(0))), 'handout', f.where(),
                    '%s hands out %s' % (f.q, T.show(o.val)[:60]), 'out/first')
        ctx.require(len(pops) == 1 and (pops[0].n == 'pop_front' or
                    pops[0].n == 'erase' and first_only(pops[0])), 'handout',
                    f.where(), '%s: the scan handed out is not removed exactly '
                    'once' % f.q, 'out/once')
    ctx.need(n, 'a path that hands out a scan')


def first_only(e):
    from ..scen import pos
    b, i = pos(e.args[0])
    return len(e.args) == 1 and b == DONE and i == c(0)


CHANGE = {'push_back', 'push_front', 'pop_back', 'pop_front', 'insert', 'erase',
          'clear', 'resize', 'swap', 'assign', 'operator=', 'emplace',
          'emplace_back', 'emplace_front'}
MAY = {('cloud_data_before_preprocessing_', 'push_back'): 'AddSensorData',
       ('cloud_data_before_preprocessing_', 'emplace_back'): 'AddSensorData',
       ('cloud_data_before_preprocessing_', 'pop_front'): 'CloudPreProcessing',
       ('cloud_data_before_preprocessing_', 'erase'): 'CloudPreProcessing',
       ('cloud_data_', 'push_back'): 'CloudPreProcessing',
       ('cloud_data_', 'emplace_back'): 'CloudPreProcessing',
       ('cloud_data_', 'pop_front'): 'GetNewCloud',
       ('cloud_data_', 'erase'): 'GetNewCloud',
       ('cloud_data_', 'clear'): 'ClearAllCloud'}


def others(ctx):
    """who else changes the queues"""
    p = ctx.prog
    n = 0
    for f in p.fns.values():
        for i, nd in f.calls():
            o = nd.get('obj')
            fn = nd.get('fn')
            if o is None or not fn or fn['n'] not in CHANGE:
                continue
            x = f.nodes[o]
            while x['k'] == 'cast':
                x = f.nodes[x['e']]
            if x['k'] != 'mem' or x.get('n') not in (
                    'cloud_data_', 'cloud_data_before_preprocessing_'):
                continue
            n += 1
            who = MAY.get((x['n'], fn['n']))
            ok = f.n == who or who and called_only_by(p, f, who)
            ctx.require(ok, 'owners', f.where(i), '%s changes the scan queue by '
                        '%s' % (f.q, fn['n']), 'owners')
    ctx.need(n, 'uses of the queues')


def called_only_by(p, f, who):
    """a helper whose every caller is the function that may"""
    cs = {g.n for g in p.fns.values() for i, nd in g.calls()
          if (nd.get('fn') or {}).get('u') == f.id}
    return bool(cs) and cs <= {who}
