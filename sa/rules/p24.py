"""The map package covers the map and its index matches the written pieces."""
import itertools
from .. import mat
from .. import terms as T
from ..interp import Budget
from ..paths import iterations, sweeps
from ..strs import parts, injective
from ..table import ev, Unknown
from ..terms import c

SRCS = ['builder/map_package.cc', 'tools/join_pieces.cc']
EXPLAIN = '''
The writer is followed on all paths with one arbitrary round of each of its
loops.  The name under which a piece is saved and the name listed in the index
are compared as texts, which also pairs the loop counters of the two passes; with
these paired the listed offset must be the term subtracted from every stored
point.  The conditions under which a point is stored give the bounds of a piece.
Bounds, number of pieces and bounding box are terms in the smallest and largest
positions, the border and the width; the bounding box loop is decided over every
order of the compared values, and the covering is decided by evaluating the terms
at all pieces for a grid of extents including exact multiples.  The joining tool
is followed in the same way and must read the names that the writer wrote and
move each piece by the listed offset.
'''
ASSUME = ['the covering is judged at sampled extents, borders and widths; the '
          'terms are linear in these between the sampled breakpoints',
          'positive piece width, border not negative']
MIN_OBLIGATIONS = 20
W = 'static_map::SaveTrajectoriesAsMapPackage'


def check(ctx):
    got = writer(ctx)
    reader(ctx, got)


# ------------------------------------------------------------------- helpers
def inner(t):
    while t[0] == 'fld':
        t = t[1]
    return t


def chain(t):
    r = []
    while t[0] == 'fld':
        r.append(t[2])
        t = t[1]
    return t, tuple(reversed(r))


def loc_chain(l):
    r = []
    while l[0] in ('f', '[]'):
        r.append((l[0], l[2]))
        l = l[1]
    return l, tuple(reversed(r))


def coord(v, name):
    """the field of a point value; None if it was not touched"""
    if v[0] != 'rec':
        return None
    for s, x in v[2]:
        if s == ('f', name):
            return x
    for s, x in v[2]:
        if s[0] == 'f' and s[1] == '':
            r = coord(x, name)
            if r is not None:
                return r
    return coord(v[1], name)


def axis_of(t):
    """'x', 'y' or 'z' if the term is the coordinate of a listed point"""
    b, s = chain(t)
    if s and s[-1][0] == 'f' and s[-1][1] in ('x', 'y', 'z') and \
            any(x[0] == '[]' and any(y[0] == 'iv' for y in T.walk(x[1]))
                for x in s):
        return s[-1][1], [y for x in s if x[0] == '[]' for y in T.walk(x[1])
                          if y[0] == 'iv'][-1]
    if t[0] == 'ld':
        b, s = loc_chain(t[1])
        if s and s[-1][0] == 'f' and s[-1][1] in ('x', 'y', 'z'):
            i = [y for x in s if x[0] == '[]' for y in T.walk(x[1])
                 if y[0] == 'iv']
            if i:
                return s[-1][1], i[-1]
    return None


class Defs:
    """values of the elements of an array that a finished loop has filled"""

    def __init__(self, outs):
        self.base = {}
        self.val = {}
        seen = set()
        for o in outs:
            for e in o.events():
                if id(e) in seen:
                    continue
                seen.add(id(e))
                if e.k == 'loop':
                    for l, v in e.val:
                        if l[0] == 'el':
                            self.base[v] = l[1]
                if e.k in ('write', 'cell') and e.loc:
                    b, s = loc_chain(e.loc)
                    at = [k for k, x in enumerate(s) if x[0] == '[]' and
                          x[1][0] == 'iv']
                    if not at:
                        continue
                    n = at[-1] + 1
                    key = (b, len(at))
                    d = self.val.setdefault(key, {})
                    pat = tuple(x[1] for x in s[:n])
                    if e.k == 'write':
                        for k in [k for k in d if k[:len(s[n:])] == s[n:]]:
                            del d[k]
                    d[s[n:]] = (pat, e.val)

    def get(self, t):
        b, s = chain(t)
        a = self.base.get(b)
        if a is None:
            return None
        ra, sa = loc_chain(a)
        n = 0
        while n < len(s) and s[n][0] == '[]':
            n += 1
        for m in range(n, 0, -1):
            d = self.val.get((ra, m))
            if d is None:
                continue
            idx = [x[1] for x in s[:m]]
            rest = s[m:]
            if rest in d:
                pat, v = d[rest]
                return self.bind(pat, idx, v)
            if rest and rest[-1][0] == '[]' and rest[:-1] in d:
                pat, v = d[rest[:-1]]
                k = T.num(rest[-1][1])
                if k is not None:
                    x = mat.elem(self.bind(pat, idx, v), int(k), 0)
                    if x[0] != 'cell':
                        return x
        return None

    def bind(self, pat, idx, v):
        for p, i in zip(pat, idx):
            v = T.subst(v, {p: ('mark', i)}) if p != i else v
        return unmark(v)

    def full(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'fld':
            r = self.get(t)
            if r is not None:
                return self.full(r)
            return t
        n = tuple(self.full(x) if isinstance(x, tuple) else x for x in t)
        return T.renorm(n) if n != t else t


def unmark(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'mark':
        return t[1]
    n = tuple(unmark(x) if isinstance(x, tuple) else x for x in t)
    return T.renorm(n) if n != t else t


def active(evs, k):
    """loops running at event k"""
    on = []
    for e in evs[:k]:
        if e.k == 'loop':
            on.append(e)
        elif e.k in ('loopexit', 'iterend'):
            while on and on[-1].x != e.x:
                on.pop()
            if on:
                on.pop()
    return on


def ends_at(pc, iv):
    for a in pc:
        if a[0] == '<' and a[1] == iv and a[2] != iv[2]:
            return a[2]
        if a[0] == '==' and iv in a[1:]:
            return a[2] if a[1] == iv else a[1]
    return None


def agree(p, q):
    return all(q.get(a, v) == v for a, v in p.items())


# -------------------------------------------------------------------- writer
def clamp(I, fn, fr, i, n, st):
    if n['k'] == 'call' and n.get('fn', {}).get('n') == 'Clamp' and \
            len(n.get('a', ())) == 3:
        v, lo, hi = [I.rvalue(fn, st, a) for a in n['a']]
        I.set(st, i, ('ite', T.cmp('<', hi, v), hi,
                      ('ite', T.cmp('<', v, lo), lo, v)))
        return [st]
    return None


def clamp_itself(ctx):
    for f in ctx.prog.fns.values():
        if f.q.endswith('common::Clamp') and f.nodes and len(f.params) == 3:
            ctx.analysed.add(f.id)
            outs = ctx.interp().run(f)
            arg = [('ld', ('arg', p['n'], k)) for k, p in enumerate(f.params)]
            for v, lo, hi in itertools.product((0, 1, 2, 3, 4), (1,), (3,)):
                env = dict(zip(arg, (v, lo, hi)))
                r = set()
                for o in outs:
                    try:
                        if all(ev(a, env) == p for a, p in o.st.pc.items()):
                            r.add(ev(o.val, env))
                    except Unknown:
                        r.add(None)
                ctx.require(r == {max(lo, min(hi, v))}, 'bounds', f.where(),
                            'limiting a value to a range', 'clamp')
            return


def writer(ctx):
    f = ctx.need(ctx.prog.one(W), W)
    ctx.analysed.add(f.id)
    clamp_itself(ctx)
    I = ctx.interp(inline=lambda g: g.file == f.file, model=clamp)
    try:
        outs = I.run(f)
    except Budget as b:
        ctx.need(False, 'a bounded number of paths: %s' % b)
    D = Defs(outs)
    its = iterations(outs)
    ctx.count('paths', len(outs))
    saves, pushes, index, files = [], [], [], []
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if e.k != 'call':
                continue
            if (e.n or '').startswith('savePCD'):
                saves.append((o, evs, k, e))
            if e.n == 'save_file':
                files.append((o, evs, k, e))
            if e.n in ('push_back', 'emplace_back') and e.args and \
                    coord(e.args[0], 'x') is not None:
                pushes.append((o, evs, k, e))
        r = attrs(evs)
        if r:
            index.append((o, r))
    if not ctx.require(bool(saves), 'index', f.where(), 'pieces are saved', 'save'):
        return None
    if not ctx.require(bool(index), 'index', f.where(), 'pieces are listed',
                       'listed'):
        return None
    if not ctx.require(bool(pushes), 'bounds', f.where(), 'stored points are moved '
                       'by the offset of their piece', 'moved'):
        return None
    ctx.need(files, 'the index is saved')
    names = None
    # -- names
    for o, evs, k, e in saves:
        on = active(evs, k)
        lid = on[-1].x if on else None
        for o2 in outs:
            if o2.kind == 'back' and o2.x == lid and on and any(
                    x is on[-1] for x in o2.events()):
                ctx.require(any(x.k == 'call' and (x.n or '').startswith('savePCD')
                                for x in o2.events()), 'index', e.where,
                            'every piece is saved', 'every')
    for o, r in index:
        ctx.require(len(r) == 1 and r[0][1] is not None, 'index', f.where(),
                    'one entry per piece', 'entry')
        (root, kind, at, dup) = r[0]
        vals = {n: v for n, v, _ in at}
        names = (root, kind, sorted(vals))
        ip = [n for n, v in vals.items() if is_text(v)]
        ctx.need(len(ip) == 1 and len(vals) == 3, 'the file name and the two '
                 'offsets of an entry')
        jp = parts(vals[ip[0]])
        hit = 0
        for so, sevs, sk, se in saves:
            if not agree({a: v for a, v in so.st.pc.items() if not has_iv(a)},
                         o.st.pc):
                continue
            hit += 1
            sp = parts(se.args[0])
            m = pair(sp, jp)
            if not ctx.require(m is not None, 'index', at[0][2], 'the listed name '
                               'is the name of the saved file', 'name'):
                continue
            pre, ren = m
            for fo, fevs, fk, fe in files:
                fp = parts(fe.args[0])
                ctx.require(fp[:len(pre)] == pre, 'index', fe.where, 'the index '
                            'lies next to the pieces', 'place')
            why = injective(sp, [v for v in ren])
            ctx.require(why is None, 'index', se.where, 'two pieces get the same '
                        'file name: %s' % why, 'unique')
            run = {x.x for x in active(sevs, sk)}
            ivs = {x for a in so.st.pc for x in T.walk(a) if x[0] == 'iv' and
                   x[1] in run and ends_at(so.st.pc, x)}
            ctx.require(ivs <= set(ren), 'index', se.where, 'every counter of the '
                        'pieces is part of the name', 'counters')
            for a, b in ren.items():
                na, nb = ends_at(so.st.pc, a), ends_at(o.st.pc, b)
                ctx.require(na is not None and na == nb and a[2:] == b[2:],
                            'index', at[0][2], 'the index lists the pieces that '
                            'were saved', 'same/%s' % T.show(nb or c(0))[:1])
            # the offset
            for po, pevs, pk, pe in pushes:
                if not agree({a: v for a, v in po.st.pc.items()
                              if not has_iv(a)}, o.st.pc):
                    continue
                ctx.require(same_cloud(pe, se), 'bounds', pe.where, 'the moved '
                            'points are the saved ones', 'cloud')
                off = {}
                for ax in ('x', 'y', 'z'):
                    v = coord(pe.args[0], ax)
                    if v is None:
                        off[ax] = c(0)
                        continue
                    ls = [x for x in T.walk(v) if axis_of(x)]
                    ls = [x for x in ls if axis_of(x)[0] == ax]
                    off[ax] = T.sub(ls[0], v) if ls else None
                n = {ax: k for k, ax in vals_axes(vals, ip[0])}
                for ax in ('x', 'y'):
                    want = D.full(vals[n[ax]]) if ax in n else None
                    have = off[ax] and D.full(off[ax])
                    if have is not None:
                        for a, b in ren.items():
                            have = T.subst(have, {a: ('mark', b)})
                        have = unmark(have)
                    ctx.require(have is not None and want == have, 'offset',
                                pe.where, 'the listed %s offset is what was taken '
                                'off the points' % ax, 'offset/' + ax)
                ctx.require(off['z'] == c(0), 'offset', pe.where, 'heights stay',
                            'offset/z')
        ctx.need(hit, 'the saved pieces of a listed one')
    bounds(ctx, f, outs, D, pushes, its, I)
    empty(ctx, f, outs)
    return names


def vals_axes(vals, file):
    for n in vals:
        if n != file:
            yield n, 'x' if n.lower().endswith('x') else 'y'


def is_text(v):
    return any(p[0] in ('lit', 'text') for p in parts(v)) and len(parts(v)) > 1


def has_iv(a):
    return any(x[0] == 'iv' for x in T.walk(a))


def attrs(evs):
    """[(root name, kind, [(attribute, value, where)])] of the listed pieces"""
    r, root = [], None
    for k, e in enumerate(evs):
        if e.k != 'call':
            continue
        if e.n == 'append_child':
            if root is None:
                root = e.args[0][1] if e.args and e.args[0][0] == 'c' else None
            else:
                r.append((root, e.args[0][1] if e.args and e.args[0][0] == 'c'
                          else None, [], e))
        if e.n == 'append_attribute' and r and e.args[0][0] == 'c':
            for x in evs[k + 1:k + 6]:
                if x.k == 'write' and x.loc and x.loc[0] == 'tmp':
                    r[-1][2].append((e.args[0][1], x.val, x.where))
                    break
                if x.k == 'call' and x.n in ('set_value', 'operator=') and x.args:
                    r[-1][2].append((e.args[0][1], x.args[-1], x.where))
                    break
    return r


def pair(sp, jp):
    """(leading parts, {saved counter: listed counter}) if the second text is the
    rest of the first"""
    # a leading text may hold the directory
    if len(sp) <= len(jp):
        return None
    n = len(sp) - len(jp)
    ren = {}
    for a, b in zip(sp[n:], jp):
        if a[0] != b[0]:
            return None
        if a[0] == 'var':
            if ren.setdefault(a[1], b[1]) != b[1]:
                return None
        elif a != b:
            return None
    if len(set(ren.values())) != len(ren) or any(a[0] != 'iv' or b[0] != 'iv'
                                                 for a, b in ren.items()):
        return None
    return sp[:n], ren


def same_cloud(pe, se):
    l = se.argl[1] if se.argl and len(se.argl) > 1 else None
    if l is None:
        return True
    strip = unnum(l[1] if l[0] == '&' else l)
    return T.is_prefix(strip, unnum(pe.obj))


def unnum(t):
    """without the numbers of fresh symbols"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'hv':
        return ('hv', 0, t[2])
    return tuple(unnum(x) if isinstance(x, tuple) else x for x in t)


# -------------------------------------------------------------------- bounds
def bounds(ctx, f, outs, D, pushes, its, I):
    done = set()
    for po, pevs, pk, pe in pushes:
        lim = {}
        picks = set()
        lid = active(pevs, pk)[-1]
        for a, p in po.st.pc.items():
            if a[0] != '<':
                continue
            l, r = axis_of(a[1]), axis_of(a[2])
            for s, t, side in ((l, a[2], 'hi' if p else 'lo'),
                               (r, a[1], 'lo' if p else 'hi')):
                if s and s[1][1] == lid.x:
                    lim.setdefault((s[0], side), []).append(D.full(t))
                    picks.add((unnum(a), p))
        for ax in ('x', 'y'):
            for side in ('lo', 'hi'):
                ctx.require((ax, side) in lim, 'bounds', pe.where, 'a stored point '
                            'lies inside its piece (%s %s)' % (ax, side),
                            'inside/%s/%s' % (ax, side))
        if len([k for k in lim if k[0] in 'xy']) < 4:
            return
        ctx.require(not any(k[0] == 'z' for k in lim), 'bounds', pe.where, 'points '
                    'are kept at every height', 'height')
        # a point that is left out misses one of these limits
        for o, es in its.get(id(lid), ()):
            if any(x is pe for x in es):
                continue
            if any(x.k == 'call' and x.n in ('push_back', 'emplace_back') and
                   x.args and coord(x.args[0], 'x') is not None for x in es):
                continue
            ctx.require(any((unnum(x.val), not x.pol) in picks for x in es
                            if x.k == 'cond'), 'bounds', pe.where, 'only points '
                        'outside are left out', 'all')
        cover(ctx, f, po, pe, lim, D, outs, done)


def cover(ctx, f, po, pe, lim, D, outs, done):
    pc = {a: p for a, p in po.st.pc.items() if not has_iv(a)}
    # the extreme positions
    hv = {x for t in [y for v in lim.values() for y in v] + list(pc)
          for x in T.walk(t) if x[0] == 'hv'}
    role = {}
    for h in hv:
        r = extreme(ctx, f, outs, h)
        if r is not None:
            role[h] = r
    ctx.require(len(role) == 4 and len(set(role.values())) == 4, 'covered',
                f.where(), 'the bounding box is the smallest and largest position '
                'of all submaps', 'box')
    if len(set(role.values())) != 4:
        return
    opts = {x for t in [y for v in lim.values() for y in v] + list(pc)
            for x in T.walk(t) if x[0] == 'ld' and x[1][0] == 'f' and
            x[1][1][0] == 'arg'}
    wid = [x for x in opts if x[1][2] == 'piece_width']
    bor = [x for x in opts if x[1][2] == 'border_offset']
    if not ctx.require(bool(wid) and bool(bor), 'covered', pe.where, 'width and '
                       'border count', 'options'):
        return
    ivs = {}
    for (ax, side), ts in lim.items():
        for t in ts:
            for x in T.walk(t):
                if x[0] == 'iv':
                    ivs.setdefault(ax, set()).add(x)
    if not ctx.require(all(len(ivs.get(ax, ())) == 1 for ax in 'xy') and
                       ivs['x'] != ivs['y'], 'covered', pe.where, 'the bounds '
                       'follow the counter of their direction', 'counter'):
        return
    cases = 0
    for w, b, ex, ey in itertools.product(
            (1.0, 7.5, 50.0), (0.0, 0.25, 4.0, 60.0),
            (0.0, 0.3, 3.75, 25.0, 100.0, 333.3), (0.0, 12.5, 75.1)):
        for lo in (-20.0, 0.0, 13.7):
            env = {wid[0]: w, bor[0]: b}
            for h, (m, ax) in role.items():
                s = lo if ax == 0 else -lo / 2
                env[h] = s if m == 'min' else s + (ex if ax == 0 else ey)
            try:
                if not all(bool(ev(a, env)) == p for a, p in pc.items()
                           if not outside(a, env)):
                    continue
                for ax, k in (('x', 0), ('y', 1)):
                    iv = next(iter(ivs[ax]))
                    n = ev(ends_at(po.st.pc, iv), env)
                    need = (env[key(role, 'min', k)] - b,
                            env[key(role, 'max', k)] + b)
                    seg = []
                    i = ev(iv[2], env)
                    while i < n and len(seg) < 2000:
                        e2 = dict(env)
                        e2[iv] = i
                        seg.append((max(ev(t, e2) for t in lim[(ax, 'lo')]),
                                    min(ev(t, e2) for t in lim[(ax, 'hi')])))
                        i += ev(iv[3], env)
                    eps = 1e-7
                    seg.sort()
                    at = need[0] + eps
                    for l, h in seg:
                        if l <= at + eps and h > at:
                            at = h
                    ok = at >= need[1] - eps
                    cases += 1
                    ctx.require(ok, 'covered', pe.where, 'the pieces cover %.2f..%.2f '
                                'in %s (width %.2f, border %.2f): reached %.2f' % (
                                    need[0], need[1], ax, w, b, at), 'cover/' + ax)
                    ctx.require(all(h - l <= w + eps for l, h in seg), 'covered',
                                pe.where, 'a piece is not wider than asked',
                                'wide/' + ax)
            except (Unknown, ZeroDivisionError, OverflowError) as x:
                ctx.need(False, 'the bounds as terms of the box: %s' % (
                    T.show(x.args[0]) if x.args and isinstance(
                        x.args[0], tuple) else x))
    ctx.count('extents evaluated', cases)


def outside(a, env):
    try:
        ev(a, env)
        return False
    except Unknown:
        return True


def key(role, m, k):
    return [h for h, r in role.items() if r == (m, k)][0]


def extreme(ctx, f, outs, h):
    """('min'|'max', axis) of the positions of all submaps"""
    loop = None
    for o in outs:
        for e in o.events():
            if e.k == 'loop' and any(v == h for _, v in e.val):
                loop = e
                loc = [l for l, v in e.val if v == h][0]
                break
        if loop:
            break
    if loop is None:
        return None
    # the innermost loop that changes it
    deep = loop
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if e.k == 'loop' and e is not loop and any(
                    x is loop for x in active(evs, k)) and any(
                    l == loc for l, _ in e.val):
                deep = e
    its = [(o, es) for o, es in iterations(outs).get(id(deep), [])]
    old = [v for l, v in deep.val if l == loc][0]
    pos = {}
    for o, es in its:
        for e in es:
            for t in ([e.val] if e.k in ('cond', 'write') else []):
                for x in T.walk(t) if isinstance(t, tuple) else ():
                    p = position(x)
                    if p is not None:
                        pos[x] = p
    pos = {x: p for x, p in pos.items() if p in (0, 1)}
    syms = sorted({v for _, v in deep.val if v[0] == 'hv'}, key=repr)
    conds = {x for o, es in its for e in es if e.k == 'cond'
             for x in T.walk(e.val)}
    rel = [s for s in syms if s == old or s in conds]
    fits = {('min', 0), ('max', 0), ('min', 1), ('max', 1)}
    ctx.need(len(rel) <= 6, 'the running extremes')
    for vals in itertools.product((0, 1, 2), repeat=len(rel) + 2):
        env = dict(zip(rel, vals))
        pv = vals[len(rel):]
        for x, p in pos.items():
            env[x] = pv[p]
        for o, es in its:
            try:
                ok = True
                for e in es:
                    if e.k != 'cond':
                        continue
                    try:
                        if bool(ev(e.val, env)) != e.pol:
                            ok = False
                            break
                    except Unknown:
                        continue
                if not ok:
                    continue
                v = o.st.store.get(loc)
                r = ev(v, env)
            except Unknown:
                return None
            for m, a in list(fits):
                w = min(env[old], pv[a]) if m == 'min' else max(env[old], pv[a])
                if r != w:
                    fits.discard((m, a))
    if len(fits) != 1:
        return None
    m, a = fits.pop()
    # it starts beyond every position
    start = None
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if e is loop:
                for x in evs[:k]:
                    if x.k == 'write' and x.loc == loc:
                        start = x.val
                break
        if start is not None:
            break
    try:
        s = ev(start, {}) if start is not None else None
    except Unknown:
        s = None
    big = s is not None and (s >= 1e30 if m == 'min' else s <= -1e30)
    ctx.require(big, 'covered', f.where(), 'the %s starts beyond every position' %
                m, 'start/%s/%d' % (m, a))
    # and sees every submap
    for e in {id(loop): loop, id(deep): deep}.values():
        ivs = {v for l, v in e.val for v in [v] if v[0] == 'iv'} | {
            v[2] for l, v in e.val if v[0] == 'it' and v[2][0] == 'iv'}
        sizes = {x for o, es in iterations(outs).get(id(e), []) for y in es
                 if y.k == 'cond' for x in T.walk(y.val)
                 if x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == '#size'}
        own = [v for v in ivs if any(v in y.val[1:] for o, es in iterations(
            outs).get(id(e), []) for y in es if y.k == 'cond' and y.val[0] in (
                '==', '<'))]
        if not ctx.require(bool(own) and bool(sizes), 'covered', f.where(), 'every '
                           'submap is looked at', 'every/%s' % T.show(loc)):
            continue
        why, early = sweeps(outs, e, own[0], sorted(sizes, key=repr))
        ctx.require(why is None and not early, 'covered', f.where(),
                    'every submap is looked at: %s' % why, 'sweep')
    return (m, a)


def position(x):
    """axis if the term is a coordinate of the position of a submap"""
    if x[0] in ('fld', 'cell'):
        b = x[1]
        k = T.num(x[2][1]) if x[0] == 'fld' and x[2][0] == '[]' else (
            x[2] if x[0] == 'cell' else None)
        if k is not None and b[0] == 'call' and 'GlobalTranslation' in str(b[1]):
            return int(k)
        if x[0] == 'fld' and x[2][0] == '[]' and x[2][1][0] == 'pair' and \
                'GlobalPose' in str(b[1]):
            return int(T.num(x[2][1][1]))
    return None


def empty(ctx, f, outs):
    """without a submap the box stays at its start and nothing is written"""
    init = {}
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if e.k != 'loop':
                continue
            for l, v in e.val:
                if v[0] == 'hv' and v not in init:
                    for x in evs[:k]:
                        if x.k == 'write' and x.loc == l:
                            init[v] = x.val
    for o in outs:
        evs = o.events()
        if not any(e.k == 'call' and (e.n == 'save_file' or (
                e.n or '').startswith('savePCD')) for e in evs):
            continue
        for w, b in ((0.5, 0.0), (10.0, 1.0), (1000.0, 500.0)):
            env = {}
            for a in o.st.pc:
                for x in T.walk(a):
                    if x[0] == 'ld' and x[1][0] == 'f' and x[1][2] in (
                            'piece_width', 'border_offset'):
                        env[x] = w if x[1][2] == 'piece_width' else b
                    elif x[0] == 'hv' and x in init:
                        try:
                            env[x] = ev(init[x], {})
                        except Unknown:
                            pass
            can = True
            for a, p in o.st.pc.items():
                try:
                    if bool(ev(a, env)) != p:
                        can = False
                        break
                except (Unknown, ZeroDivisionError, OverflowError):
                    continue
            ctx.require(not can, 'empty', f.where(), 'a map without submaps writes '
                        'no package', 'empty')


# -------------------------------------------------------------------- reader
def reader(ctx, names):
    f = ctx.need(ctx.prog.one('main', lambda g: g.file.endswith('join_pieces.cc')),
                 'the joining tool')
    ctx.analysed.add(f.id)
    outs = ctx.interp(inline=lambda g: g.file == f.file).run(f)
    ctx.count('paths', len(outs))
    joined = 0
    kids, sibs, first = set(), set(), set()
    for o in outs:
        evs = o.events()
        for e in evs:
            if e.k == 'call' and e.args and e.args[0][:1] == ('c',):
                if e.n == 'child':
                    (first if 'load_file' in T.show(e.res or c(0), -9) and
                     T.show(e.res, -9).count('child') == 1 else kids).add(
                        e.args[0][1])
                elif e.n == 'next_sibling':
                    sibs.add(e.args[0][1])
        if o.kind != 'back':
            continue
        load = [e for e in evs if e.k == 'call' and (e.n or '').startswith(
            'loadPCD')]
        if not load:
            continue
        bad = any(a[0] in ('==', '<') and 'loadPCD' in T.show(a, -9) and p ==
                  (a[0] == '==') for a, p in o.st.pc.items())
        add = [e for e in evs if e.k == 'call' and e.n == 'operator+=' and e.args]
        if bad:
            continue
        joined += 1
        tr = [e for e in evs if e.k == 'call' and e.n == 'transformPointCloud']
        if not ctx.require(len(add) == 1 and len(tr) == 1, 'joined', f.where(),
                           'every loaded piece is moved and joined once', 'join'):
            continue
        m = tr[0].args[2]
        for r, k in itertools.product(range(4), range(4)):
            v = mat.elem(m, r, k)
            if k == 3 and r < 2 and names:
                want = [n for n, ax in vals_axes({n: 0 for n in names[2]},
                                                 filename(names[2]))
                        if ax == 'xy'[r]]
                ok = want and "'%s'" % want[0] in T.show(v, -9) and \
                    v[0] == 'call' and 'as_double' in str(v[1]) + T.show(v, -9)
                ctx.require(bool(ok), 'joined', tr[0].where, 'a piece is moved in %s '
                            'by the listed offset' % 'xy'[r], 'move/' + 'xy'[r])
            else:
                ctx.require(v == c(1 if r == k else 0), 'joined', tr[0].where,
                            'a piece is only shifted in the plane', 'move/else')
        ctx.require('transformPointCloud' in T.show(add[0].args[0], -9), 'joined',
                    add[0].where, 'the moved piece is joined', 'joined')
        ctx.require('loadPCD' in T.show(tr[0].args[0], -9), 'joined', tr[0].where,
                    'the loaded piece is moved', 'moved')
        if names:
            ctx.require("'%s'" % filename(names[2]) in T.show(
                load[0].args[0], -9), 'joined', load[0].where, 'the listed file is '
                'loaded', 'file')
    ctx.require(joined > 0, 'joined', f.where(), 'pieces are joined', 'some')
    if names:
        ctx.require(first == {names[0]}, 'joined', f.where(), 'the tool reads the '
                    'element %s' % names[0], 'root')
        ctx.require(kids <= {names[1]} and sibs <= {names[1]} and
                    bool(kids or sibs), 'joined', f.where(), 'the tool reads the '
                    'elements %s' % names[1], 'kind')


def filename(ns):
    r = [n for n in ns if n.lower().endswith(('file', 'name', 'path'))]
    return r[0] if r else ns[0]
