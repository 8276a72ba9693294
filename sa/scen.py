"""Evaluates extracted path conditions on chosen input valuations."""
from . import terms as T
from .num import Num, NoValue
from .terms import c


class Undecided(Exception):
    pass


def taken(outs, num, kinds=('ret', 'abort', 'throw')):
    """the outcomes whose path condition holds under the valuation"""
    r = []
    for o in outs:
        if o.kind not in kinds:
            continue
        ok = True
        for a, pol in o.st.pc.items():
            try:
                v = bool(num.num(a))
            except NoValue as e:
                raise Undecided('%s: %s' % (T.show(a)[:80], e))
            if v != bool(pol):
                ok = False
                break
        if ok:
            r.append(o)
    return r


def run_sized(I, f, sizes, this=None):
    """paths of f with containers of the given constant sizes
    ({location: n})"""
    st = I.init_state()
    for l, n in sizes.items():
        I.store(st, ('f', l, '#size'), c(n), quiet=True)
    return I.run(f, state=st)


def pos(v):
    """(container, index term) of an iterator value"""
    while v and v[0] in ('ld', '*') and isinstance(v[1], tuple):
        v = v[1]
    if v and v[0] == 'it':
        return v[1], v[2]
    return None, None
