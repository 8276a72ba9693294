"""Deciding that a container ends up holding f(x) for each x of another one, in
order."""
from . import terms as T
from .paths import sweeps, iterations, exits, truth_of, ld
from .terms import c, ZERO

GROW = ('push_back', 'emplace_back')


def size_of(l):
    return ('ld', ('f', l, '#size'))


def base_of(l):
    """the location an element access path starts from, generalised bases
    (any(…) of a loop) included"""
    return l


def accesses(v, of):
    """element access paths ('[]', B, idx) in v where B is `of` or its value at
    the head of a loop"""
    r = set()
    for x in T.walk(v):
        if x[0] == '[]' and isinstance(x[1], tuple) and (
                x[1] == of or x[1][0] not in ('f', '*', 'arg', '[]', 'this')
                and T.has(x[1], of)):
            if x[2][0] not in ('blk', 'pair', 'blk?'):
                r.add(x)
        elif x[0] == 'fld' and x[1][0] == 'hv' and x[2][0] == '[]' and \
                'el(%s)' % T.show(of) in str(x[1][2]):
            r.add(('[]', x[1], x[2][1]))
    return r


def touches(e, dst):
    """how event e changes the container dst: None, 'grow', 'elem', 'whole'"""
    if e.k == 'call' and e.obj == dst:
        if e.n in GROW:
            return 'grow'
        if e.n in ('resize', 'clear', 'insert', 'erase', 'assign', 'swap',
                   'pop_back'):
            return e.n
        return None
    if e.k == 'write' and isinstance(e.loc, tuple):
        if e.loc == dst:
            return 'whole'
        l = e.loc
        while l[0] in ('[]', 'f', '*') and isinstance(l[1], tuple):
            if l[0] == '[]' and l[1] == dst:
                return 'elem'
            l = l[1]
    return None


def elem_loc(l, dst):
    while l[0] in ('[]', 'f', '*'):
        if l[0] == '[]' and l[1] == dst:
            return l
        l = l[1]
    return None


class Result:
    """outcome on one returning path"""

    def __init__(self):
        self.why = None
        self.where = None
        self.elems = []     # (value, source element path, out, where)
        self.start = None   # 'empty', 'kept', ('size', n), 'new'


def loops_on(o):
    r = []
    for e in o.events():
        if e.k == 'loop':
            r.append(e)
    return r


def image(I, outs, o, src, dst, upto=3, final=None):
    """what `dst` holds on the returning path o in terms of `src`"""
    R = Result()
    evs = o.events()
    its = iterations(outs)
    depth = 0
    fill = []
    pre = []
    for e in evs:
        if e.k == 'loop':
            ch = []
            for oo, es in its.get(id(e), []):
                ch.append([x for x in es if touches(x, dst)])
            if any(ch):
                fill.append((e, ch))
    R.start = 'kept'
    R.bound = size_of(src)
    state = 'before'
    for e in evs:
        if fill and e is fill[0][0]:
            state = 'in'
            continue
        if state == 'in':
            if e.k == 'loopexit' and e.x == fill[0][0].x:
                state = 'after'
            continue
        t = touches(e, dst)
        if not t:
            continue
        R.where = e.where
        if t == 'insert' and len(e.args) == 3 and \
                e.args[1] == ('it', src, ZERO) and \
                e.args[2] == ('it', src, R.bound) and \
                e.args[0][0] == 'it' and e.args[0][1] == dst and \
                e.args[0][2] in (size_of(dst), ZERO) and not fill:
            if e.args[0][2] == ZERO and R.start == 'kept':
                R.why = 'inserts at the front'
                return R
            R.elems.append((None, None, o, e.where))
            continue
        if t == 'assign' and len(e.args) == 2 and \
                e.args[0] == ('it', src, ZERO) and \
                e.args[1] == ('it', src, R.bound) and not fill:
            R.start = 'empty'
            R.elems = [(None, None, o, e.where)]
            continue
        if t == 'whole':
            if e.val[0] == 'cont' and len(e.val) > 2:
                R.start = 'empty' if e.val[2] == ZERO else ('size', e.val[2])
                continue
            if e.val == ('ld', src) and not fill:
                R.start = 'empty'
                R.elems = [(None, None, o, e.where)]
                continue
            R.why = 'is overwritten'
            return R
        if t == 'clear':
            if state == 'after':
                R.why = 'is cleared after being filled'
                return R
            R.start = 'empty'
            continue
        if t == 'resize' and state == 'before':
            R.start = ('size', e.args[0]) if R.start != 'empty' else \
                ('fresh', e.args[0])
            continue
        R.why = 'is changed by %s' % (e.n or 'a write')
        return R
    if not fill:
        return R
    if len(fill) > 1:
        R.why = 'is filled by several loops'
        return R
    lev, ch = fill[0]
    R.where = lev.where
    idx = None
    for (oo, es), c_ in zip(its[id(lev)], ch):
        if len(c_) == 0:
            R.why = 'misses an element on some path'
            R.where = es[-1].where
            return R
        kinds = {touches(x, dst) for x in c_}
        if kinds == {'grow'} and len(c_) == 1:
            v = c_[0].args[0] if c_[0].args else None
            k = None
        elif kinds == {'elem'}:
            ls = {elem_loc(x.loc, dst) for x in c_}
            if len(ls) != 1:
                R.why = 'has several elements written in one iteration'
                R.where = c_[0].where
                return R
            l = ls.pop()
            k = l[2]
            v = I.full(oo.st, l)
        else:
            R.why = 'gets %d changes for one element' % len(c_)
            R.where = c_[0].where
            return R
        R.kind = 'grow' if k is None else 'elem'
        acc = {a for a in accesses(v, src)}
        idxs = {a[2] for a in acc}
        if len(idxs) != 1:
            R.why = 'takes an element from %d source elements' % len(idxs)
            R.where = c_[0].where
            return R
        j = idxs.pop()
        if k is not None and k != j:
            # equal up to the start of the destination
            R.why = 'puts source element %s at %s' % (T.show(j), T.show(k))
            R.where = c_[0].where
            return R
        if idx is not None and idx != j:
            R.why = 'walks the source in two ways'
            return R
        idx = j
        R.elems.append((v, sorted(acc, key=repr)[0], oo, c_[0].where))
    why, early = sweeps(outs, lev, idx, [R.bound], upto, ordered=R.kind == 'grow')
    if why:
        R.why = 'is not filled once per source element: ' + why
        return R
    if any(id(x[0]) == id(o) for x in early):
        R.why = 'can be left before the last element'
        return R
    # sizes for element-wise filling
    if R.kind == 'elem' and src != dst:
        st = R.start
        if not (isinstance(st, tuple) and st[1] == R.bound):
            R.why = 'has %s elements where the source has its own number' % (
                T.show(st[1]) if isinstance(st, tuple) else 'its old')
            return R
        R.start = 'empty'
    elif isinstance(R.start, tuple):
        R.why = 'already has %s elements' % T.show(R.start[1])
    return R


def filled(o, src):
    """can the path run with a non-empty source?"""
    return truth_of(o.st.pc, T.cmp('==', size_of(src), ZERO)) is not True
