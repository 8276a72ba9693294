"""Match results of neighbouring submaps."""
from .. import terms as T
from ..lib_submap import Objects, same, clean, canon
from ..num import Num, NoValue
from ..paths import THIS, fld
from ..terms import c, TRUE, FALSE, ZERO
from . import p02

SRCS = ['builder/map_builder.cc', 'builder/submap.cc', 'builder/frame.cc',
        'builder/frame_base.cc']
EXPLAIN = '''
The matching of one pair is followed on all paths with both submaps symbolic:
what is aligned with what, the guess handed in, the score stored and the single
announcement are read off each path, and the choice between result and guess is
evaluated for a score below, at and above the limit.  The announcement itself is
followed for 0 to 2 frames with disk saving on and off: the flag must be the
last thing to change and a second announcement must not return.  One arbitrary
pass of the connecting stage is followed for 2 to 4 pending submaps and every
combination of announced ones (the flag is a fresh value at each look): exactly
the submaps reached over announced ones are chained and added, in order, and the
position moves on by as many.  The grouping stage must request the pair (n, n-1)
once for every published submap n > 0, with its values captured by copy.
'''
ASSUME = ['grouping publishes as P02 says', 'the tasks of the pool run (P08)']
MIN_OBLIGATIONS = 25
S = 'static_map::Submap'
B = 'static_map::MapBuilder'
TR = ('trajectory',)


def check(ctx):
    pair(ctx)
    announce(ctx)
    connect(ctx)
    requests(ctx)


# ------------------------------------------------------------------ one pair
def pair(ctx):
    f = ctx.prog.one(B + '::SubmapPairMatch')
    ctx.analysed.add(f.id)
    _, tr = p02.members(ctx)
    M = Objects()
    I = ctx.interp(inline=inl, model=M)
    st = I.init_state()
    I.store(st, tr, ('&', TR), quiet=True)
    src, dst = (('ld', ('arg', q['n'], k)) for k, q in enumerate(f.params))
    outs = I.run(f, state=st)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        Sm, Tm = member(src), member(dst)
        evs = list(o.events())

        def want(cond, msg, key):
            return ctx.require(cond, 'pair matched', f.where(), msg, key)
        ann = [k for k, e in enumerate(evs) if e.k == 'call' and
               e.n == 'SetMatchedTransformedToNext']
        if not want(len(ann) == 1, 'one announcement for one pair', 'once'):
            continue
        k = ann[0]
        al = [j for j, e in enumerate(evs) if e.k == 'call' and e.n == 'Align']
        if not want(len(al) == 1 and al[0] < k, 'aligned before the '
                    'announcement', 'aligned'):
            continue
        A = evs[al[0]]
        for nm, who in (('SetInputSource', Sm), ('SetInputTarget', Tm)):
            x = [e for e in evs[:al[0]] if e.k == 'call' and e.n == nm and
                 e.obj == A.obj]
            want(x and base(x[-1].args[0]) == who and
                 'Cloud' in T.show(x[-1].args[0], -9),
                 'the %s of the alignment is the cloud of the %s submap' % (
                     nm[8:].lower(), 'later' if who == Sm else 'earlier'), nm)
        g = T.mm(T.inv(first(Tm)), first(Sm))
        want(same(A.args[0], g), 'the guess is the later first frame seen from '
             'the earlier one', 'guess')
        want(evs[k].obj == Tm, 'the earlier submap is announced', 'who')
        res = I.load(o.st, ('f', A.obj, '#score'))
        ws = [e for e in evs[:k] if e.k == 'write' and
              e.loc[0] == 'f' and e.loc[2] == 'match_score_to_previous_submap_']
        want(ws and canon(ws[-1].loc[1]) == Sm and ws[-1].val == res,
             'the score is stored with the later submap before the '
             'announcement', 'score')
        v = clean(evs[k].args[0])
        kind = 'guess' if same(v, g) else 'result' if aligned(v, res) else None
        want(kind is not None, 'the announced transform is the result of the '
             'alignment or the guess', 'value')
        lim = limit(o.st.pc, res)
        for rel in (-1, 0, 1):
            ok = feasible(o.st.pc, res, lim, rel)
            if ok:
                want(kind == ('result' if rel >= 0 else 'guess'),
                     'a score %s the limit announces the %s' % (
                         ('below', 'at', 'above')[rel + 1],
                         'result' if rel >= 0 else 'guess'), 'choice')
    ctx.need(n, 'a way through the matching of a pair')
    ctx.count('paths through one pair', n)


def inl(g):
    return g.cls == B or g.id.startswith('lam@')


def member(i):
    return ('*', ('ld', ('[]', TR, i)))


def first(sub):
    """global pose of the first frame"""
    return ('ld', ('f', ('*', ('ld', ('[]', ('f', sub, '#frames'), ZERO))),
                   '#GlobalPose'))


def base(v):
    """the submap a value was asked from"""
    while v and v[0] in ('ld', '&') and isinstance(v[1], tuple):
        v = v[1]
        if v[0] == 'f':
            return canon(v[1])
    return None


def aligned(v, res):
    while v and v[0] in ('normalised', 'ld', '*') and isinstance(v[1], tuple):
        v = v[1]
    return bool(v) and v[0] == 'aligned' and res[0] == 'scored' and \
        v[1] == res[1]


def limit(pc, res):
    for a in pc:
        if T.occurs(res, a):
            for x in T.walk(a):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == 'ld' and \
                        x[1][0] == 'f' and x[1][2] == 'accepted_min_score':
                    return x
    return None


def feasible(pc, res, lim, rel):
    n = p02.Exact({res: 0.5 + 0.1 * rel, lim: 0.5} if lim else {res: 0.5})
    for a, pol in pc.items():
        if not T.occurs(res, a) or lim is None:
            continue
        try:
            if bool(n.num(a)) != pol:
                return False
        except NoValue:
            continue
    return True


# -------------------------------------------------------------- announcement
def announce(ctx):
    p = ctx.prog
    f = p.one(S + '::SetMatchedTransformedToNext')
    ctx.analysed.add(f.id)
    g = p.one(S + '::GotMatchedToNext')
    I = ctx.interp()
    fl = {x.loc for o in I.run(g) for x in o.events() if x.k == 'aload'}
    if not fl:
        I.outs = []
        fl = {o.val[1] for o in I.run(g) if o.val and o.val[0] == 'ld'}
    ctx.need(len(fl) == 1, 'the announcement flag')
    flag = fl.pop()
    tf = p.one('static_map::FrameBase::TransformToNext')
    I = ctx.interp()
    loc = {o.val[1] for o in I.run(tf) if o.val and o.val[0] == 'ld'}
    ctx.need(len(loc) == 1, 'the transform to the next submap')
    tl = loc.pop()
    for k in (0, 1, 2):
        for disk in (False, True):
            I = ctx.interp(opaque=('SaveToFile', 'Clear'), unroll=3)
            st = I.init_state()
            fr = fld('frames_')
            I.store(st, ('f', fr, '#size'), c(k), quiet=True)
            for j in range(k):
                I.store(st, ('[]', fr, c(j)), ('&', ('frame', j)), quiet=True)
                I.store(st, ('f', ('frame', j), 'inner_cloud_'),
                        ('&', ('data', j)), quiet=True)
            I.store(st, fld('inner_cloud_'), ('&', ('data', 'own')), quiet=True)
            I.store(st, ('f', fld('options_'), 'enable_disk_saving'), c(disk),
                    quiet=True)
            outs = I.run(f, state=st)
            rets = [o for o in outs if o.kind == 'ret']
            if not ctx.require(bool(rets), 'announced', f.where(),
                               'a first announcement is accepted', 'accept'):
                continue
            for o in rets:
                evs = list(o.events())

                def want(cond, msg, key):
                    ctx.require(cond, 'announced', f.where(), '%d frames%s: %s'
                                % (k, ' saved to disk' if disk else '', msg),
                                key)
                at = [i for i, e in enumerate(evs) if e.k == 'astore' and
                      e.loc == flag]
                if not at or I.load(o.st, flag) != TRUE:
                    want(False, 'the flag is set', 'flag')
                    continue
                want(seen_clear(o, flag, evs, at[0]), 'announcing twice is '
                     'refused', 'twice')
                v = I.full(o.st, tl)
                want(v == ('ld', ('arg', f.params[0]['n'], 0)) or
                     v == ('arg', f.params[0]['n'], 0),
                     'the given transform is stored', 'transform')
                w = [i for i, e in enumerate(evs) if e.k == 'write' and
                     e.loc and (e.loc == tl or T.is_prefix(tl, e.loc))]
                want(w and max(w) < at[0], 'the transform is in place before '
                     'the flag', 'order')
                if disk:
                    saved = {e.obj for i, e in enumerate(evs) if
                             e.k == 'call' and e.n == 'SaveToFile' and
                             i < at[0]}
                    want(saved == {('data', 'own')} | {
                        ('data', j) for j in range(k)}, 'every cloud is saved '
                        'before the flag', 'saved')
            ctx.count('announcement paths', len(rets))
    # nobody else sets it
    for h in p.fns.values():
        if h.nocfg or h.id == f.id or h.kind == 'ctor':
            continue
        for i, n in h.calls():
            x = n.get('obj')
            if x is None:
                continue
            y = h.nodes[x]
            while y['k'] == 'cast':
                y = h.nodes[y['e']]
            if y['k'] == 'mem' and y.get('n') == flag[2] and \
                    (n.get('fn') or {}).get('n') not in (
                        'load', 'operator bool') and not (
                        n['fn'].get('n') or '').startswith('operator bool') and \
                    str(n['fn'].get('c', '')).startswith('std::atomic') and \
                    n.get('a'):
                ctx.bad('announced', h.where(i), 'the flag is set in one place '
                        'only', 'elsewhere')


def seen_clear(o, flag, evs, k):
    """the path to the store has seen the flag clear"""
    for a, pol in o.st.pc.items():
        if pol is False and (a == ('ld', flag) or a[0] == 'at' and
                             a[2] == flag):
            return True
    return False


# ---------------------------------------------------------------- connecting
def connect(ctx):
    f = ctx.prog.one(B + '::ConnectAllSubmap')
    ctx.analysed.add(f.id)
    total = 0
    for n in (2, 3, 4):
        total += connect_n(ctx, f, n)
    ctx.count('passes of the connecting stage', total)


def connect_n(ctx, f, n):
    _, tr = p02.members(ctx)
    Z = ('ld', ('Z',))
    M = Objects(more=('static_map::back_end::IsamOptimizer',))
    from .p01 import HEAVY
    I = ctx.interp(inline=inl, unroll=6, model=M, opaque=HEAVY)

    def given(a):
        if 'show_' in T.show(a, -9):
            return a[0] == '=='
        if T.occurs(Z, a):
            hv = [x for x in T.walk(a) if isinstance(x, tuple) and x and
                  x[0] == 'hv']
            try:
                return bool(p02.Exact(dict([(Z, 10 + n)] + [
                    (h, 10) for h in hv])).num(a))
            except NoValue:
                return None
        return None
    I.given = given
    st = I.init_state()
    I.store(st, tr, ('&', TR), quiet=True)
    I.store(st, ('f', TR, '#size'), Z, quiet=True)
    outs = I.run(f, state=st)
    num = 0
    for o in outs:
        evs = list(o.events())
        lp = [k for k, e in enumerate(evs) if e.k == 'loop']
        if not lp or o.kind != 'back':
            if o.kind == 'ret':
                ctx.require(False, 'connected', f.where(), 'the stage ends '
                            'with %d submaps to connect' % (n - 1), 'ends')
            continue
        num += 1
        lev = evs[lp[0]]
        q = p02.Pass(I, o, lev, evs[:lp[0]], evs[lp[0] + 1:])
        one_pass(ctx, f, I, q, n)
    ctx.need(num, 'a pass of the connecting stage')
    return num


def one_pass(ctx, f, I, q, n):
    def want(cond, msg, key):
        return ctx.require(cond, 'connected', f.where(),
                           '%d pending: %s' % (n - 1, msg), key)
    adds = [(k, e) for k, e in enumerate(q.evs) if e.k == 'call' and
            e.n == 'AddFrame']
    idx = []
    for k, e in adds:
        x = e.args[0]
        while x and x[0] in ('ld', '&') and isinstance(x[1], tuple):
            x = x[1]
        idx.append(x[2] if x and x[0] == '[]' and x[1] == TR else None)
    # the position: the carried number that moves with the additions
    heads = {}
    for l, v in q.carried.items():
        if v[0] in ('hv', 'iv') and l[0] == 'v':
            d = T.num(T.sub(q.after(v), v))
            if d is not None and q.first(v) == ZERO:
                heads[v] = d
    seen = {}
    for a, pol in q.o.st.pc.items():
        if a[0] == 'at' and a[2][0] == 'f' and a[2][2] == '#flag':
            seen[a] = (a[2][1], pol)
    front = [k for k, x in enumerate(idx) if x == ZERO]
    rest = [(adds[k], x) for k, x in enumerate(idx) if x != ZERO]
    if not want(None not in idx, 'stored submaps are added', 'which'):
        return
    first_one(q, I, front, want)
    F = None
    if rest:
        x0 = rest[0][1]
        for h in heads:
            if T.sub(x0, h) == c(1):
                F = h
    else:
        F = next((h for h in heads), None)
        if heads and all(d == 0 for d in heads.values()):
            # nothing connected: the first pending one was not announced
            cand = [h for h in heads if any(
                m == member(h) and pol is False for m, pol in seen.values())]
            want(bool(cand), 'nothing is connected only while the first pending '
                 'submap is not announced', 'stalled')
            return
    if not want(F is not None, 'connecting starts right after the last '
                'connected submap', 'start'):
        return
    for j, ((k, e), x) in enumerate(rest):
        want(T.sub(x, F) == c(j + 1), 'submaps are added one after the other, '
             'once', 'order')
        cur, prev = member(x), member(T.add(F, c(j)))
        want(any(m == prev and pol for m, pol in seen.values()),
             'a transform is used only after its announcement was seen', 'seen')
        before = q.evs[:k]
        sg = [y for y in before if y.k == 'call' and y.n == 'SetGlobalPose' and
              y.obj == cur]
        gp = ('ld', ('f', prev, '#GlobalPose'))
        if j:
            old = [y for y in before if y.k == 'call' and
                   y.n == 'SetGlobalPose' and y.obj == prev]
            gp = old[-1].args[0] if old else gp
        tn = ('ld', ('f', prev, '#TransformToNext'))
        want(sg and same(sg[-1].args[0], T.mm(gp, tn)), 'the pose of a submap '
             'follows from the one before and the announced transform, before '
             'it is added', 'pose')
        fl = [y for y in before if y.k == 'call' and
              y.n == 'SetTransformFromLast' and y.obj == cur]
        want(fl and same(fl[-1].args[0], tn), 'the transform from the last '
             'submap is the announced one', 'last')
        want(len(e.args) > 1 and 'match_score_to_previous_submap_' in
             T.show(e.args[1], -9) and T.occurs(cur, e.args[1]),
             'it is added with its own score', 'score')
    m = len(rest)
    want(heads[F] == m, 'the position moves on by the number of submaps added',
         'advance')
    if m < n - 1:
        nxt = member(T.add(F, c(m)))
        want(any(s == nxt and pol is False for s, pol in seen.values()),
             'connecting goes on as far as announced', 'stops')


def first_one(q, I, front, want):
    """the first submap is added once, ahead of all others"""
    want(len(front) <= 1 and (not front or front[0] == 0),
         'the first submap is added once, first', 'first')
    fi = [(l, v) for l, v in q.carried.items() if v[0] == 'hv' and
          q.start.get(l) in (FALSE, TRUE) and v in q.o.st.pc]
    new = [(l, v) for l, v in fi if q.o.st.pc[v] == (q.start[l] == TRUE)]
    if front:
        want(any(I.load(q.o.st, l) in (TRUE, FALSE) and
                 I.load(q.o.st, l) != q.start[l] for l, v in new),
             'the addition of the first submap is remembered', 'remembered')
    else:
        want(any((l, v) not in new and I.load(q.o.st, l) != q.start[l]
                 for l, v in fi), 'the first submap is added in the first pass',
             'front')


# ------------------------------------------------------------------ requests
def requests(ctx):
    f = ctx.prog.one(B + '::SubmapProcessing')
    ctx.analysed.add(f.id)
    fr, tr = p02.members(ctx)
    fs = ('f', fr, '#size')
    M = Objects(tasks=True, quiet=('ConnectAllSubmap', 'SubmapPairMatch'))
    I = ctx.interp(inline=inl, unroll=4, model=M, volatile=lambda l: l == fs)
    st = I.init_state()
    o = fld('options_')
    for n in ('back_end_options', 'submap_options', 'frame_count'):
        o = ('f', o, n)
    I.store(st, o, c(1), quiet=True)
    I.store(st, tr, ('&', TR), quiet=True)
    num = 0
    for x in I.run(f, state=st):
        if x.kind != 'back':
            continue
        evs = list(x.events())
        lp = [k for k, e in enumerate(evs) if e.k == 'loop']
        if not lp:
            continue
        q = p02.Pass(I, x, evs[lp[0]], evs[:lp[0]], evs[lp[0] + 1:])
        req = []
        for k, e in enumerate(q.evs):
            if e.k == 'call' and e.n == 'SubmapPairMatch':
                req.append((k, e.args))
            if e.k == 'call' and e.n == 'enqueue' and e.args and \
                    e.args[0][0] == 'bind' and \
                    'SubmapPairMatch' in T.show(e.args[0][1], -9):
                req.append((k, e.args[0][3:]))
        if not q.pub:
            ctx.require(not req, 'requested', f.where(), 'no pair is requested '
                        'without a new submap', 'stray')
            continue
        num += 1
        size = q.carried.get(('f', TR, '#size'))
        if size is None:
            continue
        for v in (0, 1, 2):
            if not fits(x.st.pc, size, v):
                continue
            if v == 0:
                ctx.require(not req, 'requested', f.where(), 'the first submap '
                            'is matched with none', 'first')
                continue
            ok = len(req) == 1 and req[0][0] > q.pub[0][0] and \
                len(req[0][1]) == 2
            if ctx.require(ok, 'requested', f.where(), 'every later submap is '
                           'matched once, after it is published', 'once'):
                a, b = (T.subst(y, {size: c(v)}) for y in req[0][1])
                ctx.require(num_of(a) == v and num_of(b) == v - 1, 'requested',
                            f.where(), 'the pair is the new submap and the one '
                            'before', 'pair')
        for e in q.evs:
            if e.k == 'call' and e.n == 'enqueue' and e.args[0][0] == 'lam':
                for d, loc in e.args[0][2]:
                    r = T.root(loc[1])
                    if d == 'this' or r[0] != 'v':
                        continue
                    steady = any(w.k == 'write' and T.root(w.loc) == r
                                 for w in q.before)
                    ctx.require(steady and not any(
                        T.root(l) == r for l in q.carried),
                                'requested', f.where(), 'a request keeps its own '
                                'copy of what changes from pass to pass',
                                'captured')
    ctx.need(num, 'a pass that publishes a submap')
    ctx.count('publishing passes', num)


def fits(pc, size, v):
    for a, pol in pc.items():
        if T.occurs(size, a):
            try:
                if bool(p02.Exact({size: v}).num(a)) != pol:
                    return False
            except NoValue:
                continue
    return True


def num_of(t):
    try:
        return p02.Exact({}).num(t)
    except NoValue:
        return None
