"""Terms, locations and their normal forms.

A term is a nested tuple.  Locations (access paths) are terms too:
  ('v', frame, decl, name)  local variable or parameter
  ('g', qualified name)     global or static
  ('tmp', frame, node)      temporary
  ('*', pointer)            what a pointer refers to
  ('f', loc, field)         field
  ('[]', loc, index)        element
('&', loc) is the address of a location; smart pointers are modelled as the
pointer they hold.
"""
from fractions import Fraction

TRUE = ('c', True)
FALSE = ('c', False)
NULL = ('c', None)
ZERO = ('c', 0)
ONE = ('c', 1)


def c(v):
    return ('c', v)


def is_c(t):
    return t[0] == 'c'


def num(t):
    """numeric value of a constant term, or None"""
    if t[0] == 'c' and isinstance(t[1], (int, float, Fraction)) \
            and not isinstance(t[1], bool):
        return t[1]
    if t[0] == 'c' and isinstance(t[1], bool):
        return int(t[1])
    return None


def _key(t):
    return repr(t)


def lin(t):
    """linear form: ({term: coef}, const)"""
    n = num(t)
    if n is not None and n == n and n not in (float('inf'), float('-inf')):
        return {}, n
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def from_lin(d, k):
    d = {t: a for t, a in d.items() if a != 0}
    if not d:
        return ('c', k)
    if k == 0 and len(d) == 1:
        (t, a), = d.items()
        if a == 1:
            return t
    return ('lin', tuple(sorted(d.items(), key=lambda x: _key(x[0]))), k)


def _weird(t):
    n = num(t)
    return n is not None and (n != n or n in (float('inf'), float('-inf')))


def add(a, b):
    if _weird(a) or _weird(b):
        return ('op', '+') + tuple(sorted((a, b), key=_key))
    da, ka = lin(a)
    db, kb = lin(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + x
    return from_lin(da, ka + kb)


def scale(a, k):
    if _weird(a):
        return ('op', '*', ('c', k), a)
    d, kk = lin(a)
    return from_lin({t: x * k for t, x in d.items()}, kk * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b)) if not _weird(b) else ('op', '-', a, b)


def mul(a, b):
    na, nb = num(a), num(b)
    if _weird(a) or _weird(b):
        return ('op', '*') + tuple(sorted((a, b), key=_key))
    if na is not None:
        return scale(b, na)
    if nb is not None:
        return scale(a, nb)
    # pull out scalar coefficients of single-term linear forms
    k = 1
    fs = []
    for t in (a, b):
        if t[0] == 'lin' and t[2] == 0 and len(t[1]) == 1:
            k *= t[1][0][1]
            t = t[1][0][0]
        if t[0] == 'op' and t[1] == '*':
            fs.extend(t[2:])
        else:
            fs.append(t)
    r = ('op', '*') + tuple(sorted(fs, key=_key))
    return scale(r, k) if k != 1 else r


def div(a, b, integer=False):
    na, nb = num(a), num(b)
    if nb is not None and nb != 0 and nb == nb:
        if integer:
            if na is not None:
                q = abs(int(na)) // abs(int(nb))
                return ('c', q if (na >= 0) == (nb >= 0) else -q)
            if nb == 1:
                return a
            return ('op', 'idiv', a, b)
        if na is not None:
            return ('c', na / nb)
        if not _weird(b):
            return scale(a, 1 / nb) if not float(1 / nb).is_integer() else \
                scale(a, int(1 / nb))
    if integer:
        return ('op', 'idiv', a, b)
    return ('op', '/', a, b)


# ---------------------------------------------------------------- booleans
def not_(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == '!':
        return t[1]
    return ('!', t)


def cmp(op, a, b):
    """normal form over '<' and '=='; a<=b is !(b<a) (no NaN assumed)"""
    if op == '>':
        return cmp('<', b, a)
    if op == '<=':
        return not_(cmp('<', b, a))
    if op == '>=':
        return not_(cmp('<', a, b))
    if op == '!=':
        return not_(cmp('==', a, b))
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return ('c', na < nb) if op == '<' else ('c', na == nb)
    if op == '==':
        if a == b:
            return TRUE
        if a[0] == 'c' and b[0] == 'c':
            return ('c', a[1] == b[1])
        if NULL in (a, b):
            o = a if b == NULL else b
            if o[0] == '&' or o[0] == 'new':
                return FALSE
            return ('==', NULL, o)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and isinstance(x[1], bool):
                return y if x[1] else not_(y)
            if y[:2] == ('op', 'b2i') and num(x) in (0, 1):
                return y[2] if num(x) else not_(y[2])
        # bring linear differences to one side
        if 'lin' in (a[0], b[0]) and a[0] != 'c' and b[0] != 'c':
            d, k = lin(sub(a, b))
            if not d:
                return ('c', k == 0)
            pos = from_lin({t: x for t, x in d.items() if x > 0}, max(k, 0))
            ng = from_lin({t: -x for t, x in d.items() if x < 0}, max(-k, 0))
            a, b = pos, ng
        elif a[0] == 'lin' and b[0] == 'c' and num(b) is not None:
            d, k = a[1], a[2]
            if len(d) == 1 and d[0][1] in (1, -1):
                return cmp('==', d[0][0], ('c', (num(b) - k) * d[0][1]))
        elif b[0] == 'lin' and a[0] == 'c' and num(a) is not None:
            return cmp('==', b, a)
        return ('==',) + tuple(sorted((a, b), key=_key))
    # '<'
    if a == b:
        return FALSE
    if a[0] == 'lin' or b[0] == 'lin':
        if not _weird(a) and not _weird(b):
            d, k = lin(sub(a, b))
            if not d:
                return ('c', k < 0)
            if len(d) == 1:
                (t, x), = d.items()
                try:
                    q = -k / x if not isinstance(k, int) or not isinstance(x, int) \
                        or (-k) % x else (-k) // x
                    return ('<', t, ('c', q)) if x > 0 else ('<', ('c', q), t)
                except TypeError:
                    pass
            pos = from_lin({t: y for t, y in d.items() if y > 0}, max(k, 0))
            ng = from_lin({t: -y for t, y in d.items() if y < 0}, max(-k, 0))
            return ('<', pos, ng)
    return ('<', a, b)


def lit(t):
    """(atom, polarity) of a boolean term"""
    p = True
    while t[0] == '!':
        t = t[1]
        p = not p
    return t, p


# ------------------------------------------------------------- matrix chains
def mm(a, b):
    fa = a[1:] if a[0] == 'mm' else (a,)
    fb = b[1:] if b[0] == 'mm' else (b,)
    out = list(fa)
    for x in fb:
        if x == ('I',):
            continue
        if out and out[-1] == inv(x):
            out.pop()
        else:
            out.append(x)
    out = [x for x in out if x != ('I',)]
    if not out:
        return ('I',)
    return out[0] if len(out) == 1 else ('mm',) + tuple(out)


def inv(a):
    if a == ('I',):
        return a
    if a[0] == 'inv':
        return a[1]
    if a[0] == 'mm':
        return ('mm',) + tuple(inv(x) for x in reversed(a[1:]))
    return ('inv', a)


# ------------------------------------------------------------ substitution
def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    if t[0] == 'c':
        return t
    n = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if n == t:
        return t
    return renorm(n)


def renorm(n):
    if n[0] == 'lin':
        r = ('c', n[2])
        for t, k in n[1]:
            r = add(r, scale(t, k))
        return r
    if n[0] == '<':
        return cmp('<', n[1], n[2])
    if n[0] == '==':
        return cmp('==', n[1], n[2])
    if n[0] == '!':
        return not_(n[1])
    if n[0] == 'op' and n[1] == '*':
        r = n[2]
        for x in n[3:]:
            r = mul(r, x)
        return r
    if n[0] == '*' and len(n) == 2 and n[1][0] == '&':
        return n[1][1]
    return n


def occurs(x, t):
    if t == x:
        return True
    return isinstance(t, tuple) and any(
        occurs(x, y) for y in t if isinstance(y, tuple))


def has(t, s):
    """the string s occurs in the term (as a field or function name)"""
    return any(y == s for x in walk(t) if isinstance(x, tuple) for y in x)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple):
                yield from walk(y)


def root(loc):
    while loc[0] in ('f', '[]', 'el'):
        loc = loc[1]
    return loc


def is_prefix(p, loc):
    while True:
        if loc == p:
            return True
        if loc[0] in ('f', '[]', 'el'):
            loc = loc[1]
        else:
            return False


def show(t, depth=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else ''
    if depth > 7:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'c':
        return repr(t[1]) if not isinstance(t[1], Fraction) else str(float(t[1]))
    if k == 'v':
        return t[3]
    if k == 'g':
        return t[1].split('::')[-1]
    if k == 'this':
        return 'this'
    if k == '*':
        return '*' + s(t[1]) if t[1] != ('&this',) else 'this'
    if k == '&':
        return '&' + s(t[1])
    if k == 'f' and len(t) == 3:
        if t[1] == ('this',):
            return t[2]
        if t[1][0] == '*':
            return s(t[1][1]) + '->' + str(t[2])
        return s(t[1]) + '.' + str(t[2])
    if k == '[]' and len(t) == 3:
        return s(t[1]) + '[' + s(t[2]) + ']'
    if k == 'ld':
        return s(t[1])
    if k == 'lin':
        r = []
        for x, a in t[1]:
            r.append(s(x) if a == 1 else '%s*%s' % (a, s(x)))
        if t[2] != 0:
            r.append(str(t[2]))
        return '(' + ' + '.join(r) + ')'
    if k in ('<', '=='):
        return '%s %s %s' % (s(t[1]), k, s(t[2]))
    if k == '!':
        return '!(' + s(t[1]) + ')'
    if k == 'op':
        if t[1] in ('*', '/', 'idiv'):
            return '(' + (' %s ' % t[1]).join(s(x) for x in t[2:]) + ')'
        return t[1] + '(' + ', '.join(s(x) for x in t[2:]) + ')'
    if k == 'call':
        return t[1].split('::')[-1] + '(' + ', '.join(
            s(x) for x in t[2:] if isinstance(x, tuple)) + ')'
    if k == 'iv':
        return 'i%s' % (t[1],)
    if k == 'hv':
        return 'any(%s)' % (t[2] if len(t) > 2 and not isinstance(t[2], tuple)
                            else s(t[2]) if len(t) > 2 else '')
    if k == 'fld':
        return s(t[1]) + ('.%s' % (t[2][1],) if t[2][0] == 'f' else
                          '[%s]' % s(t[2][1]))
    if not isinstance(k, str):
        return '(' + ', '.join(s(x) for x in t) + ')'
    return k + '(' + ', '.join(s(x) for x in t[1:]) + ')'
