"""Ranges of numeric terms: leaves get a range from the caller, comparisons of
the path condition narrow the terms they compare."""
import math
from . import terms as T

INF = math.inf
TOP = (-INF, INF)


class Empty(Exception):
    """the path condition cannot hold for the given leaves"""


def is_int(t, leaf=None):
    k = t[0]
    if leaf is not None and leaf(t):
        return True
    if k == 'c':
        return isinstance(t[1], (int, bool))
    if k == 'iv':
        return True
    if k == 'lin':
        return all(float(a).is_integer() and is_int(x, leaf) for x, a in t[1]) \
            and float(t[2]).is_integer()
    if k == 'op':
        if t[1] in ('trunc', 'b2i', 'idiv', '%', 'n32', '&', '|', '<<'):
            return True
        if t[1] == '*':
            return all(is_int(x, leaf) for x in t[2:])
    if k == 'call':
        if t[1] in ('floor', 'ceil', 'round'):
            return True
        if t[1] in ('min', 'max', 'abs'):
            return all(is_int(x, leaf) for x in t[2:])
    if k == 'ite':
        return is_int(t[2], leaf) and is_int(t[3], leaf)
    return k == 'fl' and is_int(t[1], leaf)


def _m(a, b):
    return 0. if a == 0 or b == 0 else a * b


def mul(a, b):
    v = [_m(x, y) for x in a for y in b]
    return min(v), max(v)


def div(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == 0 < b[1] and a[0] >= 0:
            return (a[0] / b[1] if b[1] < INF else 0.), INF
        return TOP
    v = []
    for x in a:
        for y in b:
            if abs(y) == INF:
                v.append(0.)
            else:
                v.append(x / y)
    return min(v), max(v)


class Ranges:
    def __init__(self, leaf, pc=(), integer=None):
        """leaf(t) -> (lo, hi) or None; pc: (atom, polarity) pairs"""
        self.leaf, self.integer = leaf, integer
        self.narrow = {}
        self.memo = {}
        for _ in range(3):
            before = dict(self.narrow)
            for a, p in pc:
                self.assume(a, p)
            if before == self.narrow:
                break

    # -------------------------------------------------------------- narrowing
    def assume(self, a, p):
        if a[0] == '!':
            return self.assume(a[1], not p)
        if a[0] == 'call' and a[1] in ('&&', 'and') and p:
            for x in a[2:]:
                self.assume(x, True)
            return
        if a[0] not in ('<', '=='):
            return
        l, r = a[1], a[2]
        x, y = self.of(l), self.of(r)
        gap = 1 if is_int(l, self.integer) and is_int(r, self.integer) else 0
        if a[0] == '<' and p:
            if x[0] + gap > y[1] or not gap and x[0] >= y[1]:
                raise Empty()
            self.cut(l, (-INF, y[1] - gap))
            self.cut(r, (x[0] + gap, INF))
        elif a[0] == '<':
            if x[1] < y[0]:
                raise Empty()
            self.cut(l, (y[0], INF))
            self.cut(r, (-INF, x[1]))
        elif p:
            if x[1] < y[0] or y[1] < x[0]:
                raise Empty()
            self.cut(l, y)
            self.cut(r, x)
        elif x[0] == x[1] == y[0] == y[1]:
            raise Empty()

    def cut(self, t, b):
        if t[0] == 'c':
            return
        if t[0] == 'fl':
            return self.cut(t[1], b)
        if t[0] == 'lin':
            for x, a in t[1]:
                rest = (t[2], t[2])
                for y, k in t[1]:
                    if y != x:
                        v = mul(self.of(y), (k, k))
                        rest = (rest[0] + v[0], rest[1] + v[1])
                lo, hi = b[0] - rest[1], b[1] - rest[0]
                if math.isnan(lo) or math.isnan(hi):
                    continue
                self.cut(x, div((lo, hi), (a, a)))
            return
        o = self.narrow.get(t) or TOP
        n = (max(o[0], b[0]), min(o[1], b[1]))
        if n != o:
            self.narrow[t] = n
            self.memo = {}

    # ---------------------------------------------------------------- meaning
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self.leaf(t)
        if v is None:
            v = self.term(t)
        o = self.narrow.get(t)
        if o:
            v = (max(v[0], o[0]), min(v[1], o[1]))
            if v[0] > v[1]:
                raise Empty()
        self.memo[t] = v
        return v

    def term(self, t):
        k = t[0]
        if k == 'c':
            return (t[1], t[1]) if isinstance(t[1], (int, float)) else TOP
        if k == 'fl':
            return self.of(t[1])
        if k == 'lin':
            lo = hi = t[2]
            for x, a in t[1]:
                v = mul(self.of(x), (a, a))
                lo, hi = lo + v[0], hi + v[1]
            return (-INF if math.isnan(lo) else lo,
                    INF if math.isnan(hi) else hi)
        if k == 'ite':
            a, b = self.of(t[2]), self.of(t[3])
            return min(a[0], b[0]), max(a[1], b[1])
        if k == 'iv':
            s = T.num(t[3])
            v = self.of(t[2])
            if s is not None and s > 0:
                return v[0], INF
            return (-INF, v[1]) if s is not None and s < 0 else TOP
        if k == 'op':
            o = t[1]
            a = [self.of(x) for x in t[2:]]
            if o == '*':
                v = a[0]
                for x in a[1:]:
                    v = mul(v, x)
                if len(t) == 4 and t[2] == t[3]:
                    v = (max(v[0], 0.), v[1])
                return v
            if o == '/':
                return div(a[0], a[1])
            if o == 'trunc':
                return tuple(x if abs(x) == INF else math.trunc(x)
                             for x in a[0])
            if o == 'idiv':
                v = div(a[0], a[1])
                return tuple(x if abs(x) == INF else math.trunc(x) for x in v)
            if o == '+':
                return a[0][0] + a[1][0], a[0][1] + a[1][1]
            if o == '-':
                return a[0][0] - a[1][1], a[0][1] - a[1][0]
            if o == '%' and a[1][0] > 0:
                return (0 if a[0][0] >= 0 else -(a[1][1] - 1)), a[1][1] - 1
            if o == 'b2i':
                return 0, 1
            return TOP
        if k == 'sqn':
            return 0., INF
        if k == 'call' and isinstance(t[1], str):
            f = t[1].split('::')[-1]
            if f in ('norm', 'squaredNorm', 'stableNorm'):
                return 0., INF
            if f in ('sqrt', 'floor', 'ceil', 'abs', 'sin', 'cos', 'round',
                     'fabs', 'trunc') and len(t) == 3:
                a = self.of(t[2])
                if f == 'sqrt':
                    return (math.sqrt(max(a[0], 0.)),
                            INF if a[1] == INF else math.sqrt(max(a[1], 0.)))
                if f in ('sin', 'cos'):
                    return -1., 1.
                if f in ('abs', 'fabs'):
                    if a[0] <= 0 <= a[1]:
                        return 0, max(-a[0], a[1])
                    return min(map(abs, a)), max(map(abs, a))
                g = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                     'round': lambda x: math.floor(x + .5)}[f]
                return tuple(x if abs(x) == INF else g(x) for x in a)
            if f == 'atan2' and len(t) == 4:
                y, x = self.of(t[2]), self.of(t[3])
                if y[0] >= 0:
                    return 0., math.pi / 2 if x[0] >= 0 else math.pi
                return -math.pi, math.pi
            if f in ('min', 'max') and len(t) == 4:
                a, b = self.of(t[2]), self.of(t[3])
                g = min if f == 'min' else max
                return g(a[0], b[0]), g(a[1], b[1])
        return TOP
