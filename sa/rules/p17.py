"""P17: a loop closure is reported only when every gate held."""
from .. import terms as T
from ..ir import base

SRCS = ['back_end/loop_detector.cc']
MIN_OBLIGATIONS = 30
TECH = ('path-sensitive dataflow over the loop detector: provenance of every '
        'candidate and conditions that hold where it is recorded')
EXPLAIN = (
    'All paths of the detector are followed. Each place that makes a '
    'candidate pair is traced back, through the containers and variables the '
    'index went through, to the scan over the history; the conditions that '
    'hold on the path up to the place where the scan records the index must '
    'imply the distance gates and the gap to the newest submap (or the '
    'requested window), those where a descriptor is used must include the '
    'comparison of the two descriptors. Matching may only be reached in the '
    'state of a continuing loop, which may only be entered through the '
    'preceding states with a detection each. An edge is recorded only after '
    'the matching of the same edge said yes, matching says yes only under '
    'the score gate of the alignment of the two submaps of the pair, and '
    'success is reported only from the agreement test, which says yes only '
    'with two edges or more, each of which was compared with the first. '
    'The list of submaps grows by the given one on every path.')
ASSUME = [
    'the candidate nearest to the new submap may be tried without its own '
    'descriptor comparison once some candidate passed it (as in the code)',
    'the concurrent tasks of an attempt only record their own edge',
]
NS = 'static_map::back_end::LoopDetector::'
THIS = ('this',)
SET = ('f', THIS, 'settings_')
FR = ('f', THIS, 'all_frames_')
CUR = ('ld', ('f', FR, '#size'))          # index of the added submap
STATUS = ('f', THIS, 'current_status_')
ADD = ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front',
       'assign', 'operator=', 'swap')


def setting(n):
    return ('ld', ('f', SET, n))


def lits(conds):
    """(d, strict): d > 0 resp. d >= 0 hold"""
    out = []
    for v, pol in conds:
        if isinstance(v, tuple) and v[0] in ('<', '<=') and len(v) == 3:
            s = v[0] == '<'
            a, b = v[1], v[2]
            if pol:
                out.append((a, b, s))
            else:
                out.append((b, a, not s))
    return out


def const(t):
    if isinstance(t, tuple) and t[0] == 'c' and \
            isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1]
    if isinstance(t, tuple) and t[0] == 'lin' and not t[1]:
        return t[2]
    return None


def implies_gt(ls, want):
    """the literals imply want > 0 over the integers"""
    for a, b, strict in ls:
        c = const(T.sub(want, T.sub(b, a)))
        if c is not None and c >= (0 if strict else 1):
            return True
    return False


def coeffs(t):
    if isinstance(t, tuple) and t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def distance(t, i, planar):
    """t is the distance between the positions of CUR and i"""
    if planar:
        if t[:2] == ('call', 'sqrt') and isinstance(t[2], tuple) and \
                t[2][:2] == ('call', 'sqn'):
            t = t[2][2]
        elif t[:2] in (('call', 'norm'),):
            t = t[2]
        else:
            return False
    else:
        if t[:2] in (('call', 'abs'), ('call', 'fabs')):
            t = t[2]
        else:
            return False
    cs, k = coeffs(t)
    if k or len(cs) != 2 or sorted(cs.values()) != [-1, 1]:
        return False
    a, b = cs
    for x in (a, b):
        if x[0] != 'fld' or x[2][0] != '[]':
            return False
        sel = x[2][1]
        if planar and (sel[0] != 'blk' or tuple(const(y) for y in sel[1:])
                       != (0, 0, 2, 1)):
            return False
        if not planar and const(sel) != 2:
            return False
    ha = {j for j in (i, CUR) if T.occurs(('[]', j), a)}
    hb = {j for j in (i, CUR) if T.occurs(('[]', j), b)}
    return ha | hb == {i, CUR} and len(ha) == 1 and len(hb) == 1


def element_of(t):
    """container name an element value was taken from, or None"""
    if t[0] == 'fld' and isinstance(t[1], tuple) and t[1][0] == 'hv':
        return t[1][2]
    return None


def ivs(t):
    return isinstance(t, tuple) and t[0] == 'iv'


def check(ctx):
    p = ctx.prog
    close_loop(ctx, p.one(NS + 'CloseLoop'))
    agree(ctx, p.one(NS + 'CheckResult'))
    attempt(ctx, p.one(NS + 'AddFrame'))


def mine(f):
    return f.file.startswith('back_end/loop_detector') and not f.nocfg


def names(f):
    return f.n not in ('CloseLoop', 'CheckResult') and mine(f)


# ---------------------------------------------------------------- matching

def strip(t):
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ('ld', '*', '&'):
        t = t[1]
    return t


def same_frame(t, idx):
    """t names the submap of the history at index idx"""
    return any(isinstance(x, tuple) and len(x) in (2, 3) and x[0] == 'fld' and
               x[-1] == ('[]', idx) for x in T.walk(t)) or \
        any(isinstance(x, tuple) and x[0] == '[]' and len(x) == 3 and
            x[2] == idx for x in T.walk(t))


def close_loop(ctx, f):
    I = ctx.interp(depth=4, inline=mine)
    outs = I.run(f)
    ctx.analysed.add(f.q)
    edge = ('*', ('ld', ('arg', f.params[0]['n'], 0)))
    tgt = ('ld', ('f', ('f', edge, 'close_pair_index'), 'first'))
    src = ('ld', ('f', ('f', edge, 'close_pair_index'), 'second'))
    n = 0
    for o in outs:
        if o.kind != 'ret' or o.val == ('c', False):
            continue
        n += 1
        evs = list(o.events())
        w = f.q
        al = [e for e in evs if e.k == 'call' and e.n == 'Align']
        if not al:
            ctx.bad('a match is reported without matching', w, 'no alignment '
                    'on a path that returns success', 'align')
            continue
        a = al[-1]
        at = evs.index(a)
        m = a.obj
        for role, idx in (('SetInputSource', src), ('SetInputTarget', tgt)):
            c = [e for e in evs[:at] if e.k == 'call' and e.n == role and
                 e.obj == m]
            ctx.require(bool(c) and cloud_of(evs, c[-1].args[0], idx),
                        'the alignment uses the two submaps of the pair in '
                        'their roles', a.where,
                        '%s is not given the cloud of the submap the pair '
                        'names' % role, role)
        tr = a.argl[1] if a.argl and len(a.argl) > 1 else None
        ctx.require(strip(tr) == ('f', edge, 'transform') and
                    not any(e.k == 'write' and
                            T.is_prefix(('f', edge, 'transform'), e.loc)
                            and e.n != 'Align' and not by(e, a)
                            for e in evs[at + 1:]),
                    'the edge carries the transform found by matching',
                    a.where, 'the result of the alignment does not end up in '
                    'the edge', 'transform')
        ctx.require(not any(e.k == 'write' and T.is_prefix(
            ('f', edge, 'close_pair_index'), e.loc) for e in evs),
            'the matched pair is kept', w, 'the pair is changed', 'pair')
        sc = [e for e in evs[at + 1:] if e.k == 'call' and
              e.n == 'GetFitnessScore' and e.obj == m]
        gate = False
        for e in sc:
            for x, y, s in lits((v, pl) for v, pl in o.st.pc.items()):
                if x == setting('accept_scan_match_score') and y == e.res \
                        and s:
                    gate = True
        ctx.require(gate or implied_ret(o, sc),
                    'a match counts only above the configured score', w,
                    'success is returned without the score of this alignment '
                    'exceeding the configured minimum', 'score')
        val = I.load(o.st, ('f', edge, 'score'))
        ctx.require(any(val == T.neg(('call', 'log', e.res)) or
                        neglog(val, e.res) for e in sc),
                    'the edge carries the score of its match', w,
                    'score of the edge is %s' % T.show(val), 'edge-score')
        g = strip(a.args[0]) if a.args else None
        ctx.require(I.load(o.st, ('f', edge, 'init_guess')) ==
                    a.args[0] or g is not None and strip(
                        I.load(o.st, ('f', edge, 'init_guess'))) == g,
                    'the edge carries the guess matching started from',
                    a.where, 'another guess is recorded', 'guess')
        inv = [x for x in T.walk(a.args[0]) if isinstance(x, tuple) and x and
               x[0] == 'inv']
        ctx.require(len(inv) == 1 and T.occurs(tgt, inv[0]) and
                    not T.occurs(src, inv[0]) and T.occurs(src, a.args[0]),
                    'matching starts from the pose of the source seen from '
                    'the target', a.where, 'the guess is another product',
                    'guess-roles')
    ctx.require(n > 0, 'some match can succeed', f.q,
                'no path returns success', 'success')
    ctx.count('matching_paths', len(outs))


def by(e, a):
    return e.where == a.where


def neglog(v, r):
    cs, k = coeffs(v)
    return not k and len(cs) == 1 and list(cs.items())[0] == \
        (('call', 'log', r), -1)


def implied_ret(o, sc):
    """return score > minimum"""
    v = o.val
    return isinstance(v, tuple) and v[0] == '<' and \
        v[1] == setting('accept_scan_match_score') and \
        any(v[2] == e.res for e in sc)


def cloud_of(evs, t, idx):
    """t is what the submap of that index gave as its cloud"""
    t = strip(t)
    for e in evs:
        if e.k == 'call' and e.n == 'Cloud' and strip(e.res) == t:
            return same_frame(e.obj, idx)
    return t[0] == 'call' and str(t[1]).endswith('::Cloud') and \
        same_frame(t, idx)


# --------------------------------------------------------------- agreement

def agree(ctx, f):
    I = ctx.interp(depth=4, inline=mine)
    outs = I.run(f)
    ctx.analysed.add(f.q)
    size = None
    yes = 0
    loops = 0
    for o in outs:
        pc = list(o.st.pc.items())
        ls = lits(pc)
        if o.kind == 'ret' and o.val != ('c', False):
            yes += 1
            sizes = {x for v, _ in pc for x in T.walk(v)
                     if isinstance(x, tuple) and x[0] == 'ld' and
                     x[1][0] == 'f' and x[1][2] == '#size'}
            ok = any(implies_gt(ls, T.sub(s, ('c', 1))) for s in sizes)
            ctx.require(ok, 'agreement needs two edges or more', f.q,
                        'agreement is reported without two edges', 'two')
            # every exit of the loop is the bound of the loop
            its = [e for e in o.events() if e.k == 'loop']
            ctx.require(bool(its), 'every edge is compared', f.q,
                        'agreement is reported without a comparison', 'loop')
        if o.kind == 'back':
            loops += 1
            iv = [x for v, _ in pc for x in T.walk(v) if ivs(x)]
            ctx.require(bool(iv) and const(iv[0][2]) in (0, 1) and
                        const(iv[0][3]) == 1, 'every edge is compared', f.q,
                        'the comparison does not visit each edge after the '
                        'first', 'visit')
            got = {'t': False, 'r': False}
            for a, b, s in ls:
                c = const(b)
                if c is None:
                    continue
                d = pose_diff(a, iv[0] if iv else None)
                if d == 't' and c <= 0.25:
                    got['t'] = True
                if d == 'r' and c <= 0.02:
                    got['r'] = True
            ctx.require(got['t'], 'edges agree in position', f.q,
                        'an edge is passed without its position being within '
                        '0.25 m of the first', 'pos')
            ctx.require(got['r'], 'edges agree in orientation', f.q,
                        'an edge is passed without its orientation being '
                        'within 0.02 rad of the first', 'rot')
    # leaving the loop with a positive answer only through its bound
    for o in outs:
        if o.kind == 'ret' and o.val != ('c', False):
            inside = False
            for v, p in o.st.pc.items():
                iv = [x for x in T.walk(v) if ivs(x)]
                size = any(isinstance(x, tuple) and x and x[0] == 'f' and
                           x[-1] == '#size' for x in T.walk(v))
                if not iv or not size:
                    continue
                if v[0] == '==' and not p or v[0] == '<' and p and \
                        T.occurs(iv[0], v[1]) or v[0] == '<' and not p and \
                        T.occurs(iv[0], v[2]):
                    inside = True
            ctx.require(not inside, 'every edge is compared', f.q,
                        'agreement is reported from inside the comparison',
                        'early')
    ctx.require(yes > 0 and loops > 0, 'agreement can be reported', f.q,
                'no path reports agreement', 'yes')
    ctx.count('agreement_paths', len(outs))


def pose_diff(t, iv):
    """'t'/'r': norm of translation/rotation of first^-1 * other"""
    inv = any(isinstance(x, tuple) and x[0] == 'inv' or
              isinstance(x, tuple) and x[:2] == ('call', 'inv')
              for x in T.walk(t))
    if iv is None or not T.occurs(iv, t) or not inv:
        return None
    edges = set()
    for x in T.walk(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == '[]':
            edges.add(x[2])
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == '[]':
            edges.add(x[1])
    if ('c', 0) not in edges:
        return None
    if not any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and
               x[2] == 'transform' or x == ('f', 'transform')
               for x in T.walk(t)):
        return None
    blk = [x for x in T.walk(t) if isinstance(x, tuple) and x and
           x[0] == 'blk']
    dims = {tuple(const(y) for y in x[1:]) for x in blk}
    if dims == {(0, 3, 3, 1)}:
        return 't'
    if dims == {(0, 0, 3, 3)}:
        return 'r'
    return None


# ---------------------------------------------------------------- attempt

def attempt(ctx, f):
    I = ctx.interp(depth=5, max_states=40000, inline=names, model=task)
    outs = I.run(f)
    ctx.analysed.add(f.q)
    ctx.count('attempt_paths', len(outs))
    frame = f.params[0]['n']
    adds = {}        # container -> {(value, where): [conditions]}
    writes = {}      # local -> {(value, where): [conditions]}
    pairs = {}       # (pair, container, where): [conditions]
    ordered = set()
    calls = 0
    for o in outs:
        conds = []
        nframes = 0
        status = None
        for e in o.events():
            if e.k == 'cond':
                conds.append((e.val, e.pol))
            elif e.k == 'write' and e.loc == STATUS:
                status = e.val
            elif e.k == 'write' and e.loc[0] == 'v':
                writes.setdefault(e.loc, {}).setdefault(
                    (e.val, e.where), []).append(tuple(conds))
            elif e.k != 'call':
                continue
            elif e.obj == FR and e.n in ADD + ('pop_back', 'clear', 'erase',
                                               'resize'):
                nframes += 1
                ctx.require(e.n in ('push_back', 'emplace_back') and
                            strip(e.args[0]) == ('arg', frame, 0),
                            'the given submap joins the history', e.where,
                            'something else happens to the history',
                            'history')
            elif e.n in ADD and e.obj and e.args:
                v = e.args[0]
                if v[0] == 'rec' and [x for x, _ in v[2]] == \
                        [('f', 'first'), ('f', 'second')]:
                    pairs.setdefault((v, e.obj, e.where), []).append(
                        tuple(conds))
                else:
                    adds.setdefault(e.obj, {}).setdefault(
                        (v, e.where), []).append(tuple(conds))
            elif e.args and 'sort' in e.n and e.args[0][0] == 'it':
                ordered.add(T.show(e.args[0][1]))
            elif e.n == 'CloseLoop':
                calls += 1
                reach(ctx, e, status, conds)
        if o.kind == 'ret':
            ctx.require(nframes == 1, 'the given submap joins the history',
                        f.q, 'the submap is added %d times' % nframes,
                        'joined')
    ctx.need(calls, 'an attempt to close a loop')
    ctx.need(pairs, 'candidate pairs')
    J = Judge(ctx, adds, writes, ordered)
    J.pairs = {T.show(c) for _, c, _ in pairs}
    for (v, _, where), cl in pairs.items():
        first = dict(v[2])[('f', 'first')]
        second = dict(v[2])[('f', 'second')]
        ctx.require(second == CUR, 'a candidate pairs an earlier submap with '
                    'the new one', where, 'second submap of the pair is %s' %
                    T.show(second), 'second')
        for conds in dict.fromkeys(cl):
            J.index(first, where, ((first, conds),), ())
    ctx.need(J.traced, 'a candidate traced to the scan of the history')
    ctx.count('candidate_origins', J.traced)
    ctx.count('untraced', J.untraced)
    for o in outs:
        if o.kind in ('ret', 'abort'):
            transition(ctx, I, o, f, J)
    results(ctx, outs, f, J)


def task(I, fn, fr, i, n, st):
    """a task of a group runs its function"""
    g = n.get('fn') or {}
    if n['k'] == 'call' and g.get('n') == 'run' and \
            'task_group' in (g.get('q') or ''):
        v = I.rvalue(fn, st, n['a'][0])
        if v[0] == 'lam':
            r = I.call_lambda(fn, fr, i, st, v, [])
            if r is not None:
                return I.finish(fn, i, n, r)
    return None


class Judge:
    """where a candidate index comes from"""

    def __init__(self, ctx, adds, writes, sorted_):
        self.ctx = ctx
        self.adds = {T.show(k): v for k, v in adds.items()}
        self.writes = {T.show(k): v for k, v in writes.items()}
        self.sorted = sorted_
        self.direct = set()
        self.all = set()
        self.traced = 0
        self.untraced = 0
        self.done = {}

    def containers(self, label):
        if ':el(' in label:
            return [label.split(':el(', 1)[1][:-1]]
        if label in ('sort', 'stable_sort', 'partial_sort', 'nth_element',
                     'unique', 'reverse'):
            return sorted(self.sorted)
        return []

    def index(self, v, where, chain, seen, top=True):
        """chain: ((value, conditions), ...) from the use to here"""
        label = element_of(v)
        if label is not None:
            for name in self.containers(label):
                if top:
                    self.direct.add(name)
                self.all.add(name)
                if name in seen or name not in self.adds:
                    continue
                for (w, wh), cl in self.adds[name].items():
                    for conds in dict.fromkeys(cl):
                        self.index(w, wh, chain + ((w, conds),),
                                   seen + (name,), False)
            return
        if v[0] == 'hv' and ':' in v[2]:
            name = v[2].split(':', 1)[1]
            if name in seen or name not in self.writes:
                self.untraced += 1
                return
            guard = implies_gt(lits(chain[-1][1]), T.add(v, ('c', 1)))
            for (w, wh), cl in self.writes[name].items():
                if const(w) is not None:
                    self.ctx.require(const(w) < 0 and guard,
                                     'a candidate comes from the scan of the '
                                     'history', where, 'index %s is used as '
                                     'a candidate' % const(w), 'sentinel')
                    continue
                for conds in dict.fromkeys(cl):
                    self.index(w, wh, chain + ((None, conds),),
                               seen + (name,), False)
            return
        if any(ivs(x) for x in T.walk(v)):
            return self.scan(v, where, chain)
        self.untraced += 1

    def scan(self, i, where, chain):
        merged = {}
        for v, conds in chain:
            for a, pol in conds:
                if stable(a) and merged.setdefault(a, pol) != pol:
                    return           # never on one path
        conds = chain[-1][1]
        use = merged.get(setting('use_descriptor'))
        via = all(v is not None for v, _ in chain)
        key = (i, where, conds, use, via)
        if key in self.done:
            return
        self.done[key] = 1
        self.traced += 1
        ctx = self.ctx
        ls = lits(conds)
        near = {True: False, False: False}
        for a, b, s in ls:
            for planar, n in ((True, 'max_close_loop_distance'),
                              (False, 'max_close_loop_z_distance')):
                if b == setting(n) and isinstance(a, tuple) and \
                        distance(a, i, planar):
                    near[planar] = True
        ctx.require(near[True], 'a candidate is near in the plane', where,
                    'an index is recorded without the horizontal distance '
                    'gate', 'xy')
        ctx.require(near[False], 'a candidate is near in height', where,
                    'an index is recorded without the height gate', 'z')
        window = all(merged.get(T.cmp('<', ('ld', ('f', THIS, n)), ('c', 0)))
                     is False for n in ('search_window_start_',
                                        'search_window_end_'))
        if window:
            ctx.require(any(a == i and T.occurs(
                ('ld', ('f', THIS, 'search_window_end_')), b)
                for a, b, s in ls) and T.occurs(
                    ('ld', ('f', THIS, 'search_window_start_')), i),
                'a candidate is inside the requested window', where,
                'an index outside the window can be recorded', 'window')
        else:
            gap = T.sub(T.sub(CUR, i), setting('loop_ignore_threshold'))
            ctx.require(implies_gt(ls, gap),
                        'a candidate is older than the ignored submaps',
                        where, 'an index is recorded that is not more than '
                        'the configured number of submaps back', 'gap')
        if via and use is not False:
            ok = False
            for v, cs in chain[1:]:
                for a, b, s in lits(cs):
                    if a == setting('m2dp_match_score') and s and \
                            descriptors(b, v):
                        ok = True
            ctx.require(ok, 'a candidate looks like the new submap', where,
                        'an index is recorded without its descriptor '
                        'matching', 'descriptor')


def descriptors(t, v):
    if t[0] != 'call' or not str(t[1]).endswith('matchTwoM2dpDescriptors') \
            or len(t) != 4:
        return False
    a, b = t[2], t[3]
    if not all(x[0] == 'call' and str(x[1]).endswith('GetDescriptor')
               for x in (a, b)):
        return False
    old = [T.occurs(('[]', v), x) for x in (a, b)]
    return sorted(old) == [False, True]


def stable(a):
    return not any(isinstance(x, tuple) and x and
                   x[0] in ('iv', 'hv', 'res', 'v') for x in T.walk(a))


def value(ctx, n):
    for q, e in ctx.prog.enums.items():
        if q.endswith('back_end::LoopStatus'):
            for name, v, _ in e['vals']:
                if name == n:
                    return ('c', int(v))
    ctx.need(False, 'state %s' % n)


def reach(ctx, e, status, conds):
    k = value(ctx, 'kContinousLoop')
    if status is None:
        ok = any(p and v[0] == '==' and k in v[1:] and ('ld', STATUS) in v[1:]
                 for v, p in conds)
    else:
        ok = status == k
    ctx.require(ok, 'matching is attempted in a continuing loop only',
                e.where, 'matching is reached in another state', 'reach')


def initial(o):
    for v, p in o.st.pc.items():
        if p and v[0] == '==' and ('ld', STATUS) in v[1:]:
            return v[1] if v[2] == ('ld', STATUS) else v[2]
    return None


def transition(ctx, I, o, f, J):
    go, enter = value(ctx, 'kContinousLoop'), value(ctx, 'kEnteringLoop')
    fin = I.load(o.st, STATUS)
    ini = initial(o)
    if fin == ('ld', STATUS):
        fin = ini
    flag = ('ld', ('arg', f.params[1]['n'], 1))
    off = o.st.pc.get(flag) is False
    if o.kind == 'abort' and fin != go:
        return
    if fin is None or off:
        ctx.require(I.load(o.st, STATUS) == ('ld', STATUS),
                    'a submap that is not searched changes no state', f.q,
                    'the state changes', 'off')
        return
    det = False
    known = J.direct
    if o.st.pc.get(setting('use_descriptor')) is False:
        known = J.all
    for v, p in o.st.pc.items():
        if not p and v[0] == '==' and ('c', 0) in v[1:]:
            x = v[2] if v[1] == ('c', 0) else v[1]
            s = T.show(x, -9)
            det = det or any(s.endswith(n + '.#size)') or
                             s.endswith(n + '.#size') for n in known)
        if p and v[0] == '<' and v[1] == ('c', 0):
            s = T.show(v[2], -9)
            det = det or any(n + '.#size' in s for n in known)
    if fin == go:
        ctx.require(ini in (go, enter) and det,
                    'a loop continues only from detection to detection', f.q,
                    'the state of a continuing loop is reached from state %s '
                    '%s a detection' % (ini, 'with' if det else 'without'),
                    'continue')
    elif fin == enter and ini != enter:
        n = setting('trying_detect_loop_count')
        ok = any(a == n and (const(b) is not None and const(b) <= 1 or
                             T.occurs(('f', THIS,
                                       'accumulate_loop_detected_count_'), b))
                 for a, b, s in lits(o.st.pc.items()))
        ctx.require(ok and det, 'a loop is entered after the configured '
                    'number of detections', f.q, 'the loop is entered '
                    'without the count', 'enter')
    else:
        ctx.ok('other states', f.q)


def results(ctx, outs, f, J):
    pushed = 0
    told = 0
    for o in outs:
        said = {}
        pair = {}
        made = waited = None
        checks = []
        yes = set()
        for e in o.events():
            if e.k == 'write' and e.loc[0] == 'f' and \
                    e.loc[2] == 'close_pair_index':
                pair[e.loc[1]] = e.val
            elif e.k == 'cond' and e.pol:
                yes.add(e.val)
            elif e.k == 'call' and e.n == 'task_group':
                made, waited = e, None
            elif e.k == 'call' and e.n == 'wait' and 'task_group' in e.q:
                waited = e
            elif e.k == 'call' and e.n == 'CloseLoop':
                l = strip(e.args[0])
                said[l] = e.res
                v = pair.get(l)
                ctx.require(v is not None and of_pairs(v, J),
                            'the edge that is matched is a candidate pair',
                            e.where, 'the pair of the edge is %s' %
                            (v and T.show(v)), 'edge-pair')
            elif e.k == 'call' and e.n in ('push_back', 'emplace_back') and \
                    e.obj and e.obj[0] == 'f' and e.obj[2] == 'edges':
                pushed += 1
                l = strip(e.argl[0]) if e.argl else None
                ctx.require(l in said and said[l] in yes,
                            'an edge is recorded only after its match', e.where,
                            'an edge is recorded although matching it did '
                            'not say yes', 'edge')
                ctx.require(not checks, 'agreement is tested on all edges',
                            e.where, 'an edge is added after the test',
                            'late')
            elif e.k == 'call' and e.n == 'CheckResult':
                checks.append(e)
                ctx.require(made is None or waited is not None,
                            'agreement is tested after all tasks ended',
                            e.where, 'the tasks are not waited for', 'wait')
            elif e.k == 'write' and e.loc[0] == 'f' and \
                    e.loc[2] == 'close_succeed':
                if e.val == ('c', False):
                    ctx.ok('success is reported from the agreement test',
                           e.where)
                    continue
                told += 1
                ctx.require(any(c.res == e.val and about(c, e.loc[1]) or
                                e.val == ('c', True) and c.res in yes
                                for c in checks),
                            'success is reported from the agreement test',
                            e.where, 'success is set to %s' % T.show(e.val),
                            'success-from')
        if o.kind == 'ret' and made is not None:
            ctx.require(waited is not None, 'tasks end before the result is '
                        'returned', f.q, 'the tasks are not waited for',
                        'wait-end')
    ctx.need(pushed, 'edges are recorded')
    ctx.need(told, 'success can be reported')


def about(c, obj):
    """the agreement test is about this result"""
    a = c.argl[0] if c.argl else None
    return a is None or T.root(strip(a)) == T.root(obj)


def of_pairs(v, J):
    if v[0] == 'rec':
        return True                 # judged where it is made
    label = element_of(v)
    return label == 'elems' or label is not None and any(n in J.pairs
                                     for n in J.containers(label))
