"""Helpers that read the traces the engine produces."""
from . import terms as T
from .terms import c, ZERO, ONE, TRUE, FALSE, NULL

THIS = ('this',)


def fld(name, base=THIS):
    return ('f', base, name)


def ld(loc):
    return ('ld', loc)


def pointee(loc):
    """what the pointer stored (initially) at loc refers to"""
    return ('*', ('ld', loc))


class Loop:
    """a loop on a path: its event, what happened between entering the last
    (arbitrary) iteration and leaving it, and where it was left"""

    def __init__(self, ev):
        self.ev = ev
        self.items = []


def structure(events):
    """list of events with finished loops folded into Loop items"""
    stack = [[]]
    loops = []
    for e in events:
        if e.k == 'loop':
            l = Loop(e)
            stack[-1].append(l)
            loops.append(l)
            stack.append(l.items)
        elif e.k == 'loopexit':
            # a break out of several loops leaves them all
            while loops and loops[-1].ev.x != e.x:
                loops.pop()
                stack.pop()
            if loops:
                loops.pop()
                stack.pop()
        elif e.k == 'iterend':
            stack[-1].append(e)
        else:
            stack[-1].append(e)
    return stack[0]


def iterations(outs):
    """id(loop event) -> list of event lists, one per way an iteration can run
    from the loop head back to it"""
    r = {}
    for o in outs:
        if o.kind != 'back':
            continue
        evs = o.events()
        for k in range(len(evs) - 1, -1, -1):
            if evs[k].k == 'loop' and evs[k].x == o.x:
                r.setdefault(id(evs[k]), []).append((o, evs[k + 1:]))
                break
    return r


def flat(items):
    for x in items:
        if isinstance(x, Loop):
            yield from flat(x.items)
        else:
            yield x


def conds(events, summary=True):
    return [(e.val, e.pol) for e in events if e.k == 'cond']


def calls(events, name=None, obj=None):
    return [e for e in events if e.k == 'call' and (name is None or e.n == name
            or e.n in name and not isinstance(name, str)) and
            (obj is None or e.obj == obj)]


def last(seq, pred):
    for x in reversed(seq):
        if pred(x):
            return x
    return None


def truth_of(pc, t):
    """value of literal t in a path condition dict, or None"""
    a, p = T.lit(t)
    if a[0] == 'c':
        return bool(a[1]) == p
    v = pc.get(a)
    return None if v is None else v == p


def is_iv(t, init=ZERO, step=1):
    return t[0] == 'iv' and (init is None or t[2] == init) and \
        T.num(t[3]) == step


def strip_num(t):
    """without the conversions between integer and floating types"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'fl':
        return strip_num(t[1])
    n = tuple(strip_num(x) if isinstance(x, tuple) else x for x in t)
    return T.renorm(n) if n != t else t


# ------------------------------------------------------- deciding over orders
def leaves(t):
    """numeric leaves of comparisons"""
    return [x for x in T.walk(t)]


def exits(outs, lev):
    """[(out, events from the loop head to its exit, events after)] for every
    path that leaves the loop"""
    r = []
    for o in outs:
        evs = o.events()
        for k in range(len(evs)):
            if evs[k] is lev:
                for j in range(k + 1, len(evs)):
                    if evs[j].k == 'loopexit' and evs[j].x == lev.x:
                        r.append((o, evs[k + 1:j], evs[j + 1:]))
                        break
                break
    return r


def sweeps(outs, lev, index, bounds, upto=3, ordered=False):
    """(why, early): why is None if the loop visits index = 0..bound-1, each
    once, for every bound up to `upto`, else what is wrong; early lists the
    exits that can be taken before the last element"""
    from .table import ev, Unknown
    its = iterations(outs).get(id(lev), [])
    if not its:
        return 'the loop body never completes an iteration', []
    ex = exits(outs, lev)
    ivs = set()
    for t in [index] + [e.val for _, es in its for e in es if e.k == 'cond'] + \
            [e.val for _, es, _ in ex for e in es if e.k == 'cond']:
        for x in T.walk(t):
            if x[0] == 'iv' and x[1] == lev.x:
                ivs.add(x)

    def feasible(es, env):
        for e in es:
            if e.k != 'cond':
                continue
            try:
                if bool(ev(e.val, env)) != e.pol:
                    return False
            except Unknown:
                continue
        return True

    early = {}
    for n in range(upto + 1):
        base = {b: n for b in bounds}
        seen = []
        for k in range(n + 2):
            env = dict(base)
            try:
                for v in ivs:
                    env[v] = ev(v[2], base) + k * ev(v[3], base)
            except Unknown as u:
                return 'it starts from %s' % T.show(u.args[0]), []
            if not any(feasible(es, env) for _, es in its):
                break
            try:
                seen.append(ev(index, env))
            except Unknown as u:
                return 'the index depends on %s' % T.show(u.args[0]), []
            for o, es, after in ex:
                if feasible(es, env):
                    early[id(o)] = (o, es, after)
        if (seen if ordered else sorted(seen)) != list(range(n)):
            return 'with %d elements it visits %s' % (n, seen or 'none'), []
    return None, list(early.values())
