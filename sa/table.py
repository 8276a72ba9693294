"""Decision tables: the guards of all paths against an oracle, over every
relative order of the compared quantities."""
import itertools
import math
import operator
from . import terms as T


TUPLES = ('std::forward_as_tuple', 'std::make_tuple', 'std::tie',
          'std::make_pair')
REL = {'std::operator' + k: f for k, f in (
    ('<', operator.lt), ('==', operator.eq), ('!=', operator.ne),
    ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge))}


class Unknown(Exception):
    pass


def ev(t, env):
    """numeric or boolean meaning of a term under env (leaf term -> number);
    raises Unknown for a leaf that is not in env"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        if t[1] is None:
            raise Unknown(t)
        return t[1]
    if k == 'lin':
        return sum(a * ev(x, env) for x, a in t[1]) + t[2]
    if k == 'fl':
        return ev(t[1], env)
    if k == '<':
        return ev(t[1], env) < ev(t[2], env)
    if k == '==':
        return ev(t[1], env) == ev(t[2], env)
    if k == '!':
        return not ev(t[1], env)
    if k == 'ite':
        return ev(t[2], env) if ev(t[1], env) else ev(t[3], env)
    if k == 'op':
        if t[1] == '*':
            r = 1
            for x in t[2:]:
                r = r * ev(x, env)
            return r
        if t[1] == '/':
            return ev(t[2], env) / ev(t[3], env)
        if t[1] == '%':
            a, b = ev(t[2], env), ev(t[3], env)
            return abs(a) % abs(b) * (1 if a >= 0 else -1)
        if t[1] == 'idiv':
            a, b = ev(t[2], env), ev(t[3], env)
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if t[1] == 'trunc':
            return int(ev(t[2], env))
        if t[1] == 'b2i':
            return int(ev(t[2], env))
        if t[1] == 'n32':
            return int(ev(t[2], env)) & 0xffffffff
        if t[1] == '+':
            return ev(t[2], env) + ev(t[3], env)
        if t[1] == '-':
            return ev(t[2], env) - ev(t[3], env)
        if t[1] == '|':
            return int(ev(t[2], env)) | int(ev(t[3], env))
        if t[1] == '&':
            return int(ev(t[2], env)) & int(ev(t[3], env))
        if t[1] == '<<':
            return int(ev(t[2], env)) << int(ev(t[3], env))
    if k == 'call':
        if t[1] in TUPLES:
            return tuple(ev(x, env) for x in t[2:])
        if t[1] in REL and len(t) == 4:
            return REL[t[1]](ev(t[2], env), ev(t[3], env))
        if t[1] == 'abs':
            return abs(ev(t[2], env))
        if t[1] == 'max':
            return max(ev(x, env) for x in t[2:])
        if t[1] == 'min':
            return min(ev(x, env) for x in t[2:])
    raise Unknown(t)


def table(cases, syms, values, oracle, canon=None, where=None):
    """cases: [(guards [(atom, polarity)], outcome, tag)].
    syms: [leaf term]; values: list of value lists per symbol.
    Returns [] or a list of messages: the outcome reachable for an assignment
    differs from the oracle's, or depends on something outside syms."""
    if canon:
        cases = [([(canon(a), p) for a, p in g], o, tag) for g, o, tag in cases]
    bad = []
    n = 0
    for vs in itertools.product(*values):
        env = dict(zip(syms, vs))
        want = oracle(env)
        if want is None:
            continue
        n += 1
        got = {}
        for g, o, tag in cases:
            ok = True
            for a, p in g:
                try:
                    if bool(ev(a, env)) != p:
                        ok = False
                        break
                except Unknown:
                    continue
            if ok:
                got.setdefault(o, tag)
        if set(got) != {want}:
            bad.append((env, want, got))
            if len(bad) > 3:
                break
    return n, bad


def show_env(env):
    return ', '.join('%s=%s' % (T.show(k), v) for k, v in env.items())


def bool_table(paths, syms, values, oracle):
    """paths: [(guards, returned term, where)]; compares the returned truth
    value (or number) with the oracle for every assignment"""
    bad, n = [], 0
    for vs in itertools.product(*values):
        env = dict(zip(syms, vs))
        want = oracle(env)
        if want is None:
            continue
        n += 1
        got = {}
        for g, r, w in paths:
            ok = True
            for a, p in g:
                try:
                    if bool(ev(a, env)) != p:
                        ok = False
                        break
                except Unknown:
                    continue
            if not ok:
                continue
            try:
                v = ev(r, env) if isinstance(r, tuple) and r and isinstance(
                    r[0], str) else tuple(ev(x, env) for x in r)
            except Unknown as u:
                v = ('?', T.show(u.args[0]))
            except ZeroDivisionError:
                v = ('?', 'division by zero')
            got.setdefault(v, w)
        if len(got) != 1 or list(got)[0] != want:
            bad.append((env, want, got))
            if len(bad) > 3:
                break
    return n, bad


def ret_paths(outs):
    """(guards, value, where) of the returning paths"""
    r = []
    for o in outs:
        if o.kind == 'ret':
            r.append((list(o.st.pc.items()), o.val, o.fn.where()))
    return r
