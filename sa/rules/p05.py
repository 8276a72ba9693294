"""Saved clouds: reader and writer agree, and failures are reported."""
from .. import terms as T
from ..paths import THIS, fld, ld, iterations, structure, sweeps, Loop, truth_of
from ..terms import c

SRCS = ['builder/data/cloud_types.cc', 'tools/bin_viewer.cc']
EXPLAIN = '''
Every path of the four stream functions is followed with callees inlined.  On
the paths that report success the transferred items (address and byte count) are
listed in order, loops over the points reduced to one arbitrary element after a
sweep of the loop bounds, and the lists of writer and reader are compared.  A
success path must have asked the stream for its state after the last transfer
(stream errors stay set) and got a good answer; a path with a null or closed
stream must not report success.  Every other caller is followed with the stream
functions as unknown results: the result must be decided before the cloud is
used, installed, or the file announced as written.
'''
ASSUME = ['stream error bits stay set until cleared (no caller clears them)',
          'reading exactly the stored bytes does not set an error bit']
MIN_OBLIGATIONS = 14
D = 'static_map::data::'
STATE = {'stream.good': True, 'stream.fail': False}


def positive(I, o):
    """does the path report success: value >= 0 possible"""
    v = o.val
    if v is None:
        return False
    t = T.cmp('<', v, c(0))
    if t[0] == 'c':
        return not t[1]
    r = truth_of(o.st.pc, t)
    return r is not True


def state_ok(o, e):
    """the stream answered this state query with: no error"""
    r = e.res
    if r is None or e.n not in ('good', 'fail', 'operator bool', 'operator!'):
        return False
    v = truth_of(o.st.pc, r)
    if v is None:
        return False
    return v == (e.n in ('good', 'operator bool'))


def items(outs, o, kind, cls):
    """transfers of a success path in order: ('item', loc, bytes) or
    ('loop', Loop)"""
    r = []
    for x in structure(o.events()):
        if isinstance(x, Loop):
            r.append(('loop', x.ev))
        elif x.k == 'call' and x.n == kind and x.obj is not None and \
                'stream' in (x.c or ''):
            r.append(('item', x))
    return r


def place(e):
    a = e.args[0]
    return a[1] if a[0] == '&' else None


def describe(I, ctx, outs, o, kind, base, fn, cls):
    """canonical item list [(name, bytes)] of a path, or None after a report"""
    res = []
    cnt = None      # term holding the number of points
    pts = fld('points', base)
    size = None
    for tag, e in items(outs, o, kind, cls):
        if tag == 'item':
            loc = place(e)
            n = T.num(e.args[1])
            if loc is None or n is None:
                # several points at once
                if loc is not None and loc[0] == '[]' and loc[1] == pts and \
                        loc[2] == c(0):
                    for k in (e.args[1][1] if e.args[1][0] == 'lin' else ()):
                        if k[0] in (cnt, size, ld(('f', pts, '#size'))):
                            res.append(('point', k[1]))
                            break
                    else:
                        return None, 'a block of unknown length'
                    continue
                return None, 'an item of unknown place or length at %s' % e.where
            if loc[0] == 'f' and loc[1] == base or loc == base or \
                    under(loc, base):
                res.append((rel(loc, base), n))
            else:
                # a local: the number of points
                v = I.load(o.st, loc)
                if kind == 'write':
                    if strip(v) != ld(('f', pts, '#size')):
                        return None, 'the count written at %s is %s' % (
                            e.where, T.show(v))
                cnt = v
                res.append(('count', n))
        else:
            its = iterations(outs).get(id(e), [])
            got = None
            for bo, es in its:
                seq = [x for x in es if x.k == 'call' and x.n == kind and
                       'stream' in (x.c or '')]
                if not seq:
                    continue
                d = []
                for x in seq:
                    loc = place(x)
                    n = T.num(x.args[1])
                    if loc is None or n is None:
                        return None, 'an item of unknown place at %s' % x.where
                    el = elem(loc, pts)
                    if el is None:
                        # a local point appended afterwards
                        pb = [y for y in es if y.k == 'call' and y.n in (
                            'push_back', 'emplace_back') and y.obj == pts]
                        if not pb:
                            return None, 'a transfer that is no element of ' \
                                'the points at %s' % x.where
                        ix = None
                        d.append(('point', n))
                    else:
                        ix, sub = el
                        d.append(('point' + sub, n))
                if got is not None and got[0] != d:
                    return None, 'iterations that transfer different items'
                got = (d, ix)
            if got is None:
                continue
            b = [ld(('f', pts, '#size'))] + ([cnt] if cnt is not None else [])
            ix = got[1]
            if ix is None:
                ivs = [y for _, es in its for z in es if z.k == 'cond'
                       for y in T.walk(z.val) if y[0] == 'iv' and y[1] == e.x]
                if not ivs:
                    return None, 'a loop without a counter'
                ix = ivs[0]
            why, early = sweeps(outs, e, ix, b)
            if why:
                return None, 'the loop over the points at %s: %s' % (e.where, why)
            for eo, es, _ in early:
                if eo.kind == 'ret' and positive(I, eo):
                    return None, 'success after leaving the loop at %s early' % (
                        e.where)
            if kind == 'read':
                why = sized(I, o, pts, cnt, its)
                if why:
                    return None, why
            res += got[0]
    return res, None


def sized(I, o, pts, cnt, its):
    pb = any(y.k == 'call' and y.n in ('push_back', 'emplace_back') and
             y.obj == pts for _, es in its for y in es)
    for x in o.events():
        if x.k == 'call' and x.obj == pts:
            if x.n in ('resize', 'assign') and not pb and x.args[0] == cnt:
                return None
            if x.n == 'clear' and pb:
                return None
    return 'the container is not given the stored number of points'


def under(loc, base):
    while isinstance(loc, tuple) and loc[0] in ('f', '[]'):
        loc = loc[1]
        if loc == base:
            return True
    return False


def rel(loc, base):
    s = []
    while loc != base:
        s.append(str(loc[2]) if loc[0] == 'f' else '[]')
        loc = loc[1]
    return '.'.join(reversed(s)) or 'self'


def elem(loc, pts):
    sub = ''
    while isinstance(loc, tuple) and loc[0] in ('f', '[]'):
        if loc[0] == '[]' and loc[1] == pts:
            return loc[2], sub
        sub = '.' + str(loc[2]) + sub
        loc = loc[1]
    return None


def strip(t):
    while t[0] == 'op' and t[1] in ('n32', 'trunc') or t[0] == 'fl':
        t = t[2] if t[0] == 'op' else t[1]
    return t


def verified(ctx, I, outs, o, kind, fn, key):
    """the stream state was asked after the last transfer of the path, and
    inside or after every loop that transfers"""
    evs = o.events()
    end_ok = lasttr = -1
    for k, e in enumerate(evs):
        if e.k == 'call' and e.n == kind and 'stream' in (e.c or ''):
            lasttr = k
        if e.k == 'call' and state_ok(o, e):
            end_ok = k
    if end_ok < lasttr:
        return 'reports success without asking the stream after the transfer ' \
            'at %s' % evs[lasttr].where
    for k, e in enumerate(evs):
        if e.k != 'loop':
            continue
        its = iterations(outs).get(id(e), [])
        if end_ok > k:
            continue
        for bo, es in its:
            q = t = -1
            for j, x in enumerate(es):
                if x.k == 'call' and x.n == kind and 'stream' in (x.c or ''):
                    t = j
                if x.k == 'call' and state_ok(bo, x):
                    q = j
            if t > q:
                return 'goes on after the transfer at %s without asking the ' \
                    'stream' % es[t].where
    return None


def check(ctx):
    p = ctx.prog
    lists = {}
    for cls in ('InnerPointType', 'InnerCloudType'):
        for name, kind in (('Serialize', 'write'), ('Deserialize', 'read')):
            fn = p.one(D + cls + '::' + name)
            key = cls + '::' + name
            I = ctx.interp()
            outs = I.run(fn)
            sarg = ld(('arg', fn.params[0]['n'], 0))
            good = [o for o in outs if o.kind == 'ret' and positive(I, o)]
            fail = [o for o in outs if o.kind == 'ret' and not positive(I, o)]
            ctx.count('paths', len(outs))
            if not good:
                ctx.bad('reports-success', fn.where(), '%s never reports '
                        'success' % key, key + '/never')
                continue
            bad = None
            for o in good:
                op = [e for e in o.events() if e.k == 'call' and
                      e.n == 'is_open' and truth_of(o.st.pc, e.res)]
                tr = [e for e in o.events() if e.k == 'call' and
                      e.n == kind and 'stream' in (e.c or '')]
                if truth_of(o.st.pc, T.cmp('==', sarg, T.NULL)) is not False:
                    bad = 'success is reported without a stream'
                elif not op:
                    bad = 'success is reported without an open stream'
                elif not tr and not any(e.k == 'loop' for e in o.events()):
                    bad = 'success is reported although nothing was transferred'
                for e in o.events():
                    if e.k == 'call' and e.n in ('clear', 'exceptions') and \
                            'ios' in (e.c or ''):
                        bad = 'stream errors are cleared at ' + e.where
            ctx.require(not bad, 'unusable-stream', fn.where(), '%s: %s' % (
                key, bad or '%d failing and %d succeeding paths' % (
                    len(fail), len(good))), key + '/stream')
            for o in good:
                why = verified(ctx, I, outs, o, kind, fn, key)
                ctx.require(not why, 'short-transfer', fn.where(), '%s %s' % (
                    key, why or 'asks the stream after every transfer'),
                    key + '/short')
            for o in good:
                d, why = describe(I, ctx, outs, o, kind, THIS, fn, cls)
                if d is None:
                    ctx.bad('items', fn.where(), '%s: %s' % (key, why),
                            key + '/items')
                    continue
                if key in lists and lists[key][0] != d:
                    ctx.bad('items', fn.where(), '%s transfers %s or %s' % (
                        key, lists[key][0], d), key + '/items')
                lists[key] = (d, fn)
    for cls in ('InnerPointType', 'InnerCloudType'):
        w, r = (lists.get(cls + '::' + n) for n in ('Serialize', 'Deserialize'))
        if not (w and r):
            continue
        ctx.require(w[0] == r[0], 'same-items', r[1].where(), '%s: written %s, '
                    'read %s' % (cls, w[0], r[0]), cls + '/same')
        names = {n.split('.')[0] for n, _ in w[0]}
        if cls == 'InnerCloudType':
            ctx.require(names >= {'stamp', 'count', 'point'}, 'all-items',
                        w[1].where(), 'a cloud is written as ' +
                        ', '.join('%s:%d' % x for x in w[0]), 'cloud/all')
            order = [n.split('.')[0] for n, _ in w[0]]
            ctx.require('point' not in order or 'count' in
                        order[:order.index('point')], 'all-items', w[1].where(),
                        'the number of points precedes them', 'cloud/order')
        else:
            rec = ctx.prog.records[D + cls]
            fs = [f['n'] for f in rec['fields']]
            whole = sum(n for _, n in w[0])
            ctx.require(whole >= 4 * len(fs) and
                        (names == {'self'} or names >= set(fs)), 'all-items',
                        w[1].where(), 'a point is written as %s' % w[0],
                        'point/all')
    # --- callers
    seen = 0
    for fn in sorted(p.fns.values(), key=lambda f: f.id):
        if fn.q.endswith('::Serialize') or fn.q.endswith('::Deserialize'):
            continue
        if not any(n.get('k') == 'call' and n.get('fn') and n['fn'].get('q') in
                   (D + 'InnerCloudType::Serialize',
                    D + 'InnerCloudType::Deserialize',
                    D + 'InnerPointType::Serialize',
                    D + 'InnerPointType::Deserialize') for n in fn.nodes):
            continue
        if not fn.file or '/test' in fn.file:
            continue
        I = ctx.interp(opaque=('Serialize', 'Deserialize', 'SetInnerCloudImpl',
                               'ToPclPointCloud'))
        outs = I.run(fn)
        for o in outs:
            if o.kind not in ('ret', 'back'):
                continue
            evs = o.events()
            for k, e in enumerate(evs):
                if not (e.k == 'call' and e.n in ('Serialize', 'Deserialize')
                        and e.q.startswith(D)):
                    continue
                seen += 1
                neg = truth_of(o.st.pc, T.cmp('<', e.res, c(0)))
                root = e.obj
                later = [x for x in evs[k + 1:] if x.k == 'call' and
                         x.n not in ('operator->', 'get', 'operator*') and
                         mentions(x, root)]
                if e.n == 'Deserialize':
                    later += [x for x in evs[k + 1:] if x.k == 'write' and
                              isinstance(x.val, tuple) and
                              T.occurs(root, x.val) and
                              x.loc[0] == 'f']
                    ok = neg is False or neg is True and not later
                    ctx.require(ok, 'result-used', e.where, '%s uses what was '
                                'read %s' % (fn.q, 'only after a successful read'
                                             if ok else 'after a failed read'),
                                fn.n + '/read')
                else:
                    okr = neg is False or o.val is not None and \
                        o.val in (c(0), c(False), c(-1)) and neg is True
                    ctx.require(okr, 'result-used', e.where, '%s announces the '
                                'file as written %s' % (
                                    fn.q, 'only after a successful write' if okr
                                    else 'whatever the writer reported'),
                                fn.n + '/write')
                    # buffered bytes reach the file at close
                    cl = [j for j, x in enumerate(evs) if x.k == 'call' and
                          x.n in ('close', 'flush') and
                          ('&', x.obj) == e.args[0] and j > k]
                    q = [j for j, x in enumerate(evs) if x.k == 'call' and
                         state_ok(o, x) and ('&', x.obj) == e.args[0]]
                    ok = neg is True or cl and q and q[-1] > cl[-1]
                    ctx.require(ok, 'flush-checked', e.where, '%s %s' % (
                        fn.q, 'asks for the stream state after closing the file'
                        if ok else 'does not notice when the bytes do not reach '
                        'the file'), fn.n + '/flush')
    ctx.need(seen >= 3, 'callers of the cloud reader and writer')


def mentions(x, root):
    for a in (x.obj,) + tuple(x.args or ()) + tuple(
            y for y in (x.argl or ()) if isinstance(y, tuple)):
        if isinstance(a, tuple) and T.occurs(root, a):
            return True
    return False
