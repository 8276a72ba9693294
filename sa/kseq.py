"""Sequences of constant length: elements keep their identity when others are
removed from either end."""
from . import terms as T
from .interp import Ev
from .num import Closed
from .terms import c


def size(I, st, L):
    n = T.num(I.load(st, ('f', L, '#size')))
    return None if n is None else int(n)


def copy(I, st, src, dst):
    """moves what is known about one element to another place"""
    v = I.full(st, src)
    for l in [l for l in st.store if l == dst or T.is_prefix(dst, l)]:
        del st.store[l]
    I.store(st, dst, v, quiet=True)


def drop(I, st, L, first, n):
    """removes n elements from position first"""
    sz = size(I, st, L)
    for k in range(first, sz - n):
        copy(I, st, ('[]', L, c(k + n)), ('[]', L, c(k)))
    for k in range(sz - n, sz):
        E = ('[]', L, c(k))
        for l in [l for l in st.store if l == E or T.is_prefix(E, l)]:
            del st.store[l]
    st.store[('f', L, '#size')] = c(sz - n)
    for w in I.wlogs:
        w.add(('f', L, '#size'))


def fields_of(I, cls, n):
    """the fields a constructor with n arguments fills in order"""
    try:
        r = I.p.record(cls)
    except LookupError:
        return None
    if r is None or len(r['fields']) != n:
        return None
    return [x['n'] for x in r['fields']]


def element(q):
    """element class in the qualified name of a container's method"""
    if '<' not in q:
        return None
    x = q[q.index('<') + 1:]
    return x.split('<')[0].split(',')[0].split('>')[0].strip()


SEARCH = ('lower_bound', 'upper_bound', 'find_if', 'find_if_not',
          'partition_point')


def search(I, fn, frame, i, n, st, name):
    """first element a predicate tells apart, taken one element at a time"""
    vs = [I.rvalue(fn, st, a) for a in n['a']]
    if len(vs) < 3 or vs[0][0] != 'it' or vs[1][0] != 'it' or \
            vs[0][1] != vs[1][1] or vs[-1][0] != 'lam':
        return None
    L = vs[0][1]
    a, b = T.num(vs[0][2]), T.num(vs[1][2])
    if a is None or b is None:
        return None
    truth = Closed().truth
    for k in range(int(a), int(b)):
        E = ('&', ('[]', L, c(k)))
        args = [E]
        if name in ('lower_bound', 'upper_bound'):
            v = I.val(fn, st, n['a'][2])
            args = [E, v] if name == 'lower_bound' else [v, E]
        r = I.call_lambda(fn, frame, i, st.copy(), vs[-1], args)
        if r is None or len(r) != 1:
            return None
        t = truth(r[0][1])
        if t is None:
            return None
        if t == (name in ('upper_bound', 'find_if')):
            break
    else:
        k = int(b)
    I.ev(st, Ev('call', fn, i, q='std::' + name, n=name, c=None, obj=None,
                args=tuple(vs), frame=frame))
    return I.set(st, i, ('it', L, c(k)))


def model(I, fn, frame, i, n, st):
    f = n.get('fn')
    if n['k'] == 'call' and f and f.get('q') in ['std::' + x for x in SEARCH]:
        return search(I, fn, frame, i, n, st, f['n'])
    if n['k'] != 'call' or not f or n.get('obj') is None:
        return None
    name, q = f.get('n', ''), f.get('q', '')
    if name not in ('pop_front', 'pop_back', 'erase', 'emplace_back') or \
            not q.startswith(('std::deque', 'std::vector', 'std::list')):
        return None
    L = I.deref(I.ptr(fn, st, n['obj'])) if n.get('arrow') else \
        I.lloc(fn, st, n['obj'])
    sz = size(I, st, L)
    if sz is None:
        return None
    args = n.get('a') or []

    def ev(**kw):
        I.ev(st, Ev('call', fn, i, q=q, n=name, c=f.get('c'), obj=L,
                    frame=frame, **kw))
    if name in ('pop_front', 'pop_back'):
        if sz == 0:
            return None
        k = 0 if name == 'pop_front' else sz - 1
        ev(args=(), val=I.full(st, ('[]', L, c(k))))
        drop(I, st, L, k, 1)
        return I.set(st, i, ('void',))
    if name == 'erase':
        vs = [I.rvalue(fn, st, a) for a in args]
        ks = [T.num(v[2]) if v and v[0] == 'it' and v[1] == L else None
              for v in vs]
        if None in ks:
            return None
        a = int(ks[0])
        b = int(ks[1]) if len(ks) > 1 else a + 1
        if not 0 <= a <= b <= sz:
            return None
        ev(args=tuple(vs))
        drop(I, st, L, a, b - a)
        return I.set(st, i, ('it', L, c(a)))
    if len(args) > 1:
        cls = element(n.get('objt') or q)
        fs = cls and fields_of(I, cls, len(args))
        if not fs:
            return None
        vs = tuple(I.rvalue(fn, st, a) for a in args)
        E = ('[]', L, c(sz))
        I.store(st, E, ('rec', ('obj', cls, I.fresh()[1]), tuple(sorted(
            ((('f', x), v) for x, v in zip(fs, vs)), key=repr))), quiet=True)
        st.store[('f', L, '#size')] = c(sz + 1)
        for w in I.wlogs:
            w.add(('f', L, '#size'))
        ev(args=vs)
        return I.set(st, i, ('void',))
    return None
