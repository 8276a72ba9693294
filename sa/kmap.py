"""Ordered maps whose keys are constants: the keys present are kept in the
state, so look-ups, insertions and iteration follow std::map exactly."""
from . import terms as T
from .interp import Ev
from .terms import c, ZERO

END = ('key', ('end',))


def kt(k):
    return END if k == 'end' else ('key', c(k))


def kv(t):
    return 'end' if t == END else t[1][1]


def keys_loc(L):
    return ('f', L, '#keys')


def empty(I, st, L):
    st.store[keys_loc(L)] = ('keys',)
    st.store[('f', L, '#size')] = ZERO


def keys(st, L):
    v = st.store.get(keys_loc(L))
    return v[1:] if v and v[0] == 'keys' else None


def put(I, st, L, ks):
    ks = tuple(sorted(ks))
    st.store[keys_loc(L)] = ('keys',) + ks
    st.store[('f', L, '#size')] = c(len(ks))


def elem(L, k):
    return ('[]', L, kt(k))


def add(I, st, L, k):
    """inserts key k when missing; true when it was"""
    ks = keys(st, L)
    if k in ks:
        return False
    put(I, st, L, ks + (k,))
    E = elem(L, k)
    for l in [l for l in st.store if under(l, E)]:
        del st.store[l]
    st.store[('f', E, 'first')] = c(k)
    st.store[('f', E, 'second')] = ('zero',)
    return True


def under(l, p):
    while isinstance(l, tuple) and len(l) > 1:
        if l == p:
            return True
        l = l[1]
    return False


def model(I, fn, frame, i, n, st):
    f = n.get('fn')
    if n['k'] != 'call' or not f:
        return None
    name = f.get('n', '')
    args = n.get('a', [])
    if name in ('operator++', 'operator--', 'operator==', 'operator!=',
                'operator->', 'operator*'):
        ops = ([n['obj']] if n.get('obj') is not None else []) + list(args)
        vs = [I.rvalue(fn, st, a) for a in ops]
        its = [v for v in vs if v and v[0] == 'it' and v[2][0] == 'key']
        if not its or vs[0][0] != 'it':
            return None
        L = vs[0][1]
        ks = keys(st, L)
        if ks is None:
            return None
        if name in ('operator==', 'operator!='):
            return I.set(st, i, c((vs[0] == vs[1]) == (name == 'operator==')))
        if name in ('operator++', 'operator--'):
            seq = list(ks) + ['end']
            k = kv(vs[0][2])
            p = (seq.index(k) if k in seq else len(seq) - 1) + (
                1 if name == 'operator++' else -1)
            nv = ('it', L, kt(seq[max(0, min(p, len(seq) - 1))]))
            I.store(st, I.lloc(fn, st, ops[0]), nv, quiet=True)
            return I.set(st, i, vs[0] if len(vs) > 1 else
                         ('&', I.lloc(fn, st, ops[0])))
        return None
    if n.get('obj') is None or not (f.get('c') or '').startswith('std::'):
        return None
    L = I.deref(I.ptr(fn, st, n['obj'])) if n.get('arrow') else \
        I.lloc(fn, st, n['obj'])
    ks = keys(st, L)
    if ks is None:
        return None

    def key(a):
        v = I.rvalue(fn, st, a)
        return v[1] if v and v[0] == 'c' else None

    def ev(*a):
        I.ev(st, Ev('call', fn, i, q=f['q'], n=name, c=f.get('c'), obj=L, args=a,
                    frame=frame))
    if name in ('begin', 'cbegin'):
        return I.set(st, i, ('it', L, kt(ks[0]) if ks else END))
    if name in ('end', 'cend'):
        return I.set(st, i, ('it', L, END))
    if name == 'size':
        return I.set(st, i, c(len(ks)))
    if name == 'empty':
        return I.set(st, i, c(not ks))
    if name == 'clear':
        ev()
        put(I, st, L, ())
        return I.set(st, i, ('void',))
    if name in ('operator[]', 'at', 'find', 'count', 'erase', 'lower_bound',
                'upper_bound') and args:
        v = I.rvalue(fn, st, args[0])
        if name == 'erase' and v[0] == 'it':
            ev(v)
            k = kv(v[2])
            seq = list(ks) + ['end']
            nx = seq[min(seq.index(k) + 1, len(seq) - 1)] if k in seq else 'end'
            put(I, st, L, [x for x in ks if x != k])
            return I.set(st, i, ('it', L, kt(nx)))
        k = key(args[0])
        if k is None:
            return None
        if name == 'operator[]':
            add(I, st, L, k)
            return I.set(st, i, ('&', ('f', elem(L, k), 'second')))
        if name == 'at':
            if k not in ks:
                return []
            return I.set(st, i, ('&', ('f', elem(L, k), 'second')))
        if name == 'find':
            return I.set(st, i, ('it', L, kt(k) if k in ks else END))
        if name == 'count':
            return I.set(st, i, c(1 if k in ks else 0))
        if name == 'erase':
            ev(c(k))
            put(I, st, L, [x for x in ks if x != k])
            return I.set(st, i, c(1 if k in ks else 0))
        m = [x for x in ks if (x >= k if name == 'lower_bound' else x > k)]
        return I.set(st, i, ('it', L, kt(m[0]) if m else END))
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        k, val = None, None
        if len(args) == 1:
            v = I.rvalue(fn, st, args[0])
            kx = None
            if v[0] == 'pair':
                kx, val = v[1], v[2]
            elif v[0] == 'rec':
                d = dict(v[2])
                kx, val = d.get(('f', 'first')), d.get(('f', 'second'))
            k = kx[1] if kx and kx[0] == 'c' else None
        elif len(args) == 2:
            k, val = key(args[0]), I.rvalue(fn, st, args[1])
        if k is None or val is None:
            return None
        new = add(I, st, L, k)
        if new or name == 'insert_or_assign':
            I.store(st, ('f', elem(L, k), 'second'), val, fn, i)
        return I.set(st, i, ('rec', ('init', 'pair'), (
            (('f', 'first'), ('it', L, kt(k))),
            (('f', 'second'), c(new)))))
    return None
