"""Values of closed terms at sample points.

Used to decide whether a term the analysis extracted equals the specified
formula: every unknown input becomes a pseudo-random number derived from its
canonical access path, and both sides are evaluated.  Matrices are functions of
(row, column), so that blocks, rows and stacked columns need no sizes."""
import hashlib
import math
from . import terms as T


class NoValue(Exception):
    pass


class Mat:
    def __init__(self, r, k, f):
        self.r, self.k, self.f = r, k, f

    def __call__(self, i, j=0):
        if self.r is not None and i >= self.r or \
                self.k is not None and j >= self.k:
            raise NoValue('cell (%d,%d) of a %sx%s matrix' % (i, j, self.r,
                                                              self.k))
        return self.f(i, j)

    def list(self, r=None, k=None):
        r = self.r if r is None else r
        k = self.k if k is None else k
        return [[self.f(i, j) for j in range(k)] for i in range(r)]


class Quat:
    def __init__(self, w, x, y, z):
        self.q = (w, x, y, z)

    def norm(self):
        return math.sqrt(sum(a * a for a in self.q))

    def unit(self):
        n = self.norm()
        return Quat(*(a / n for a in self.q))

    def inv(self):
        w, x, y, z = self.q
        n = sum(a * a for a in self.q)
        return Quat(w / n, -x / n, -y / n, -z / n)

    def mul(self, o):
        a, b, c_, d = self.q
        e, f, g, h = o.q
        return Quat(a * e - b * f - c_ * g - d * h,
                    a * f + b * e + c_ * h - d * g,
                    a * g - b * h + c_ * e + d * f,
                    a * h + b * g - c_ * f + d * e)

    def mat(self):
        w, x, y, z = self.q
        m = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
        return Mat(3, 3, lambda i, j: m[i][j])

    @staticmethod
    def of(m):
        t = m(0, 0) + m(1, 1) + m(2, 2)
        if t > 0:
            s = math.sqrt(t + 1)
            w = s / 2
            s = 0.5 / s
            return Quat(w, (m(2, 1) - m(1, 2)) * s, (m(0, 2) - m(2, 0)) * s,
                        (m(1, 0) - m(0, 1)) * s)
        i = 0
        if m(1, 1) > m(0, 0):
            i = 1
        if m(2, 2) > m(i, i):
            i = 2
        j, k = (i + 1) % 3, (i + 2) % 3
        s = math.sqrt(m(i, i) - m(j, j) - m(k, k) + 1)
        q = [0, 0, 0]
        q[i] = s / 2
        s = 0.5 / s
        w = (m(k, j) - m(j, k)) * s
        q[j] = (m(j, i) + m(i, j)) * s
        q[k] = (m(k, i) + m(i, k)) * s
        return Quat(w, *q)

    def slerp(self, t, o):
        d = sum(a * b for a, b in zip(self.q, o.q))
        ad = abs(d)
        if ad >= 1 - 1e-15:
            s0, s1 = 1 - t, t
        else:
            th = math.acos(ad)
            s0 = math.sin((1 - t) * th) / math.sin(th)
            s1 = math.sin(t * th) / math.sin(th)
        if d < 0:
            s1 = -s1
        return Quat(*(s0 * a + s1 * b for a, b in zip(self.q, o.q)))


class Leaf:
    """an input whose kind shows only in its use"""

    def __init__(self, n, loc):
        self.n, self.loc = n, loc


def rigid(seed):
    """a rigid transform as a 4x4 Mat"""
    q = Quat(*(rnd((seed, k)) - 1.5 for k in 'wxyz')).unit().mat()
    t = [3 * rnd((seed, k)) for k in (0, 1, 2)]

    def f(i, j):
        if i == 3:
            return 1.0 if j == 3 else 0.0
        return t[i] if j == 3 else q(i, j)
    return Mat(4, 4, f)


def rnd(x):
    """in (1, 2)"""
    h = hashlib.md5(repr(x).encode()).digest()
    return 1 + int.from_bytes(h[:6], 'big') / float(1 << 48)


class Num:
    def __init__(self, over=None, seed=0, shapes=None, rigid=False):
        self.rigid = rigid          # unknown matrices are rigid transforms
        self.over = over or {}      # location or term -> value
        self.seed = seed
        self.shapes = shapes or {}
        self.memo = {}

    # ------------------------------------------------------------- leaves
    def leaf(self, loc):
        if loc in self.over:
            return self.over[loc]
        return Leaf(self, loc)

    def scal(self, v):
        if isinstance(v, Leaf):
            return rnd((self.seed, self.canon(v.loc)))
        if isinstance(v, Mat):
            return v(0, 0)
        if isinstance(v, (int, float, bool)) or v is None:
            return v
        try:
            return float(v)
        except Exception:
            raise NoValue('not a number: %r' % (v,))

    def canon(self, loc):
        return loc

    def mat(self, v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, Leaf):
            r, k = self.shapes.get(v.loc, (None, None))
            s = self
            if self.rigid and r is None:
                return rigid((self.seed, v.loc))

            def f(i, j, loc=v.loc):
                sel = ('pair', T.c(i), T.c(j))
                x = ('[]', loc, sel)
                y = ('[]', loc, T.c(i))
                if x in s.over:
                    return s.scal(s.over[x])
                if j == 0 and y in s.over:
                    return s.scal(s.over[y])
                return rnd((s.seed, 'cell', loc, i, j))
            return Mat(r, k, f)
        if isinstance(v, Quat):
            raise NoValue('quaternion used as matrix')
        if isinstance(v, (int, float)) and v == 0:
            return Mat(None, None, lambda i, j: 0.0)
        raise NoValue('not a matrix: %r' % (v,))

    def quat(self, v):
        if isinstance(v, Quat):
            return v
        if isinstance(v, Leaf):
            return Quat(*(rnd((self.seed, 'q', v.loc, k)) - 1.4
                          for k in 'wxyz')).unit()
        if isinstance(v, Mat):
            return Quat.of(v)
        raise NoValue('not a quaternion')

    # ---------------------------------------------------------- locations
    def at(self, loc):
        if loc in self.over:
            return self.over[loc]
        k = loc[0]
        if k == 'f' and loc[2] == '':
            return self.at(loc[1])
        if k in ('[]', 'f'):
            if k == 'f' and loc[1][0] in ('arg', 'this', 'g', 'v', 'tmp',
                                          'heap'):
                b = self.over.get(loc[1])
                if b is None:
                    return self.leaf(loc)
            else:
                b = self.at(loc[1])
            return self.sel(b, loc)
        if k == '*':
            if loc[1][0] in ('ld', '&'):
                if loc[1][0] == '&':
                    return self.at(loc[1][1])
                if loc[1][1] in self.over:
                    return self.over[loc[1][1]]     # a copied temporary
                return self.leaf(loc)
            return self.val(loc[1])
        return self.leaf(loc)

    def sel(self, b, loc):
        s = loc[2]
        if loc[0] == 'f' and s == '':
            return b        # anonymous struct or union
        if loc[0] == 'f':
            if isinstance(b, dict):
                if s in b:
                    return b[s]
                if '#base' in b:
                    return self.leaf(('f', b['#base'].loc, s))
                raise NoValue('field %s is not set' % s)
            if isinstance(b, Leaf):
                return self.leaf(('f', b.loc, s))
            raise NoValue('field %s of %r' % (s, b))
        if s[0] == 'blk':
            r0, c0 = (int(self.scal(self.val(x))) for x in s[1:3])
            m = self.mat(b)

            def dim(x, whole):
                if x in (('rows',), ('cols',)):
                    return whole
                try:
                    return int(self.scal(self.val(x)))
                except NoValue:
                    return None
            nr, nc = dim(s[3], m.r), dim(s[4], m.k)
            return Mat(nr, nc, lambda i, j: m(i + r0, j + c0))
        if s[0] == 'blk?':
            m = self.mat(b)
            if s[1] == 'bottomRows' and m.r is not None:
                n = int(self.scal(self.val(s[2])))
                return Mat(n, m.k, lambda i, j: m(i + m.r - n, j))
            if s[1] == 'tail' and m.r is not None:
                n = int(self.scal(self.val(s[2])))
                return Mat(n, 1, lambda i, j: m(i + m.r - n, 0))
            if s[1] == 'segment':
                a, n = (int(self.scal(self.val(x))) for x in s[2:4])
                return Mat(n, 1, lambda i, j: m(i + a, 0))
            raise NoValue('view %s' % s[1])
        if isinstance(b, Quat):
            return b.q['wxyz'.index(s[1])]
        if s[0] == 'pair':
            i, j = (self.val(x) for x in s[1:3])
            return self.mat(b)(int(self.scal(i)), int(self.scal(j)))
        if isinstance(b, (list, tuple)):
            return b[int(self.scal(self.val(s)))]
        if isinstance(b, Leaf):
            # a container element or a vector entry
            x = ('[]', b.loc, s)
            if x in self.over:
                return self.over[x]
            k = T.num(s)
            if k is not None and (b.loc, 'vector') in self.shapes:
                return self.mat(b)(int(k), 0)
            return self.leaf(x)
        i = int(self.scal(self.val(s)))
        m = self.mat(b)
        if m.r == 1:
            return m(0, i)
        return m(i, 0)

    # -------------------------------------------------------------- terms
    def val(self, t):
        try:
            if t in self.memo:
                return self.memo[t]
        except TypeError:
            raise NoValue('not a term: %r' % (t,))
        v = self._val(t)
        self.memo[t] = v
        return v

    def field(self, v, name):
        return self.sel(v, ('f', None, name))

    def num(self, t):
        return self.scal(self.val(t))

    def _val(self, t):
        if t in self.over:
            return self.over[t]
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'ld':
            return self.at(t[1])
        if k == 'fl':
            return self.val(t[1])
        if k == 'lin':
            r = None
            for x, a in t[1]:
                r = self.plus(r, self.times(a, self.val(x)))
            if t[2]:
                r = self.plus(r, t[2])
            return r
        if k == 'mm':
            r = self.val(t[1])
            for x in t[2:]:
                r = self.prod(r, self.val(x))
            return r
        if k == 'inv':
            return self.inverse(self.val(t[1]))
        if k == 'I':
            return Mat(self.shapes.get('I'), self.shapes.get('I'),
                       lambda i, j: 1.0 if i == j else 0.0)
        if k == 'ones':
            return Mat(None, None, lambda i, j: 1.0)
        if k == 'vec':
            vs = [self.val(x) for x in t[1:]]
            return Mat(len(vs), 1, lambda i, j: self.scal(vs[i]))
        if k == 'rec':
            return self.rec(t)
        if k == 'fld':
            b = self.val(t[1])
            sel = t[2]
            return self.sel(b, (sel[0], t[1], sel[1]))
        if k == '<':
            return self.num(t[1]) < self.num(t[2])
        if k == '==':
            return self.num(t[1]) == self.num(t[2])
        if k == '!':
            return not self.num(t[1])
        if k == 'ite':
            return self.val(t[2] if self.num(t[1]) else t[3])
        if k == '*':
            return self.val(t[1])
        if k == 'op':
            return self.op(t)
        if k == 'call':
            return self.call(t)
        if k == 'obj' and 'Eigen::Matrix' in str(t[1]) and len(t) == 4:
            return self.val(t[3])
        if k == 'uninit':
            raise NoValue('uninitialised value')
        return self.leaf(t)

    def rec(self, t):
        b = None
        if t[1][0] not in ('uninit', 'init', 'zero', 'obj', 'cont', 'hv'):
            b = self.val(t[1])
        subs = t[2]
        if any(len(s) < 2 for s, _ in subs):
            raise NoValue('written at unknown places')
        if all(s[0] == 'f' for s, _ in subs):
            d = dict(b) if isinstance(b, dict) else {}
            if isinstance(b, Leaf):
                d['#base'] = b
            for s, x in subs:
                try:
                    v = self.val(x)
                except NoValue:
                    continue
                if s[1] == '' and isinstance(v, dict):
                    d.update(v)
                else:
                    d[s[1]] = v
            return d
        if isinstance(b, Leaf) and not any(
                s[1][0] in ('pair', 'blk') or T.num(s[1]) is not None
                for s, _ in subs):
            raise NoValue('partly written container')
        bm = self.mat(b) if b is not None else None
        if isinstance(b, Quat):
            q = dict(zip('wxyz', b.q))
            for s, x in subs:
                q[s[1][1]] = self.num(x)
            return Quat(*(q[k] for k in 'wxyz'))
        ps = []
        for s, x in subs:
            sel = s[1]
            if sel[0] == 'pair':
                i, j = (int(self.num(y)) for y in sel[1:])
                ps.append((i, j, 1, 1, x))
            elif sel[0] == 'blk':
                i, j = (int(self.num(y)) for y in sel[1:3])
                d = []
                for y in sel[3:]:
                    if y in (('rows',), ('cols',)):
                        d.append(10 ** 9)
                    else:
                        try:
                            d.append(int(self.num(y)))
                        except NoValue:
                            d.append(10 ** 9)
                ps.append((i, j, d[0], d[1], x))
            elif sel[0] == 'blk?' and sel[1] == 'bottomRows' and bm is not None \
                    and bm.r is not None:
                n = int(self.num(sel[2]))
                ps.append((bm.r - n, 0, n, 10 ** 9, x))
            elif sel[0] == 'blk?':
                raise NoValue('view %s' % (sel[1],))
            else:
                ps.append((int(self.num(sel)), 0, 1, 1, x))
        ps.sort(key=lambda y: y[2] * y[3])
        r = bm.r if bm is not None else None
        k = bm.k if bm is not None else None
        if bm is None:
            r = max(i + h for i, j, h, w, x in ps)
            k = max(j + w for i, j, h, w, x in ps)

        def f(i, j):
            for a, b_, h, w, x in ps:
                if a <= i < a + h and b_ <= j < b_ + w:
                    v = self.val(x)
                    if h == w == 1 and not isinstance(v, Mat):
                        return self.scal(v)
                    return self.mat(v)(i - a, j - b_)
            if bm is None:
                raise NoValue('cell (%d,%d) is not set' % (i, j))
            return bm(i, j)
        return Mat(r, k, f)

    def plus(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Mat) or isinstance(b, Mat):
            x, y = self.mat(a), self.mat(b)
            # a column added to every column
            if x.k == 1 and y.k is not None and y.k > 1:
                return Mat(y.r, y.k, lambda i, j: x(i, 0) + y(i, j))
            if y.k == 1 and x.k is not None and x.k > 1:
                return Mat(x.r, x.k, lambda i, j: x(i, j) + y(i, 0))
            return Mat(x.r if x.r is not None else y.r,
                       x.k if x.k is not None else y.k,
                       lambda i, j: x(i, j) + y(i, j))
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            return Both(self, lambda x, y: x + y, a, b)
        if isinstance(a, (Leaf, Both)) and not isinstance(b, (int, float)) or \
                isinstance(b, (Leaf, Both)) and not isinstance(a, (int, float)):
            return Both(self, lambda x, y: x + y, a, b)
        return self.scal(a) + self.scal(b)

    def times(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            raise NoValue('product of matrices by *')
        if isinstance(b, Mat):
            a, b = b, a
        if isinstance(a, Mat):
            s = self.scal(b)
            return Mat(a.r, a.k, lambda i, j: a(i, j) * s)
        if isinstance(a, (int, float)) and isinstance(b, (Leaf, Both)):
            if a == 1:
                return b
            return Both(self, lambda x, y: x * y, a, b)
        if isinstance(b, (int, float)) and isinstance(a, (Leaf, Both)):
            return Both(self, lambda x, y: x * y, a, b)
        return self.scal(a) * self.scal(b)

    def prod(self, a, b):
        a, b = (aa(x) if isinstance(x, tuple) and x and x[0] == 'aa' else x
                for x in (a, b))
        if isinstance(a, Quat) or isinstance(b, Quat):
            if isinstance(a, Quat) and isinstance(b, Quat):
                return a.mul(b)
            if isinstance(a, Quat):
                if isinstance(b, Leaf) and (b.loc, 'vector') not in self.shapes:
                    return a.mul(self.quat(b))
                return self.prod(a.mat(), b)
            if isinstance(a, Leaf):
                return self.quat(a).mul(b)
        if isinstance(a, (int, float)) or isinstance(b, (int, float)):
            return self.times(a, b)
        x, y = self.mat(a), self.mat(b)
        n = x.k if x.k is not None else y.r
        if n is None:
            n = self.shapes.get('inner')
        if n is None:
            raise NoValue('inner size of a product unknown')
        return Mat(x.r, y.k, lambda i, j: sum(x(i, m) * y(m, j)
                                              for m in range(n)))

    def inverse(self, v):
        if isinstance(v, Quat):
            return v.inv()
        m = self.mat(v)
        n = m.r if m.r is not None else m.k
        if n is None:
            n = self.shapes.get('inner')
        if n is None:
            raise NoValue('size of an inverse unknown')
        a = [[float(m(i, j)) for j in range(n)] +
             [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        for i in range(n):
            p = max(range(i, n), key=lambda r: abs(a[r][i]))
            a[i], a[p] = a[p], a[i]
            d = a[i][i]
            if d == 0:
                raise NoValue('singular')
            a[i] = [x / d for x in a[i]]
            for r in range(n):
                if r != i:
                    f = a[r][i]
                    a[r] = [x - f * y for x, y in zip(a[r], a[i])]
        return Mat(n, n, lambda i, j: a[i][n + j])

    def op(self, t):
        o = t[1]
        if o == '*':
            r = 1
            for x in t[2:]:
                r = self.times(r, self.val(x))
            return r
        if o == '/':
            a = self.val(t[2])
            b = self.num(t[3])
            if b == 0:
                raise NoValue('division by zero')
            return self.times(a, 1.0 / b)
        if o == '+':
            return self.plus(self.val(t[2]), self.val(t[3]))
        if o == '-':
            return self.plus(self.val(t[2]), self.times(-1, self.val(t[3])))
        if o == 'b2i':
            return int(self.num(t[2]))
        if o == 'trunc':
            return math.trunc(self.num(t[2]))
        if o == 'idiv':
            return math.trunc(self.num(t[2]) / self.num(t[3]))
        if o == '%':
            return math.fmod(self.num(t[2]), self.num(t[3]))
        if o == 'n32':
            return self.val(t[2])
        if o.startswith('narrow:'):
            return wrap(o[7:], int(self.num(t[2])))
        if o == 'cabs':
            m = self.mat(self.val(t[2]))
            return Mat(m.r, m.k, lambda i, j: abs(m(i, j)))
        if o == 'inv':
            return self.inverse(self.val(t[2]))
        return self.leaf(t)

    def call(self, t):
        n = str(t[1]).split('::')[-1].split('<')[0]
        a = t[2:]
        F = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos,
             'abs': abs, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil,
             'atan2': math.atan2, 'atan': math.atan, 'acos': math.acos,
             'asin': math.asin, 'tan': math.tan, 'exp': math.exp,
             'log': math.log, 'log10': math.log10, 'max': max, 'min': min,
             'pow': math.pow, 'round': round, 'lround': round, 'fmod': math.fmod}
        if n in F and a:
            xs = [self.num(x) for x in a]
            if n == 'log' and xs[0] == 0:
                return -math.inf
            try:
                return F[n](*xs)
            except (ValueError, OverflowError) as e:
                raise NoValue('%s of %s: %s' % (n, xs, e))
        if n in ('sqn', 'norm'):
            v = self.val(a[0])
            if isinstance(v, Quat):
                return v.norm() ** (2 if n == 'sqn' else 1)
            m = self.mat(v)
            r = m.r if m.r is not None else self.shapes.get('norm', 3)
            k = m.k if m.k is not None else 1
            s = sum(m(i, j) ** 2 for i in range(r) for j in range(k))
            return s if n == 'sqn' else math.sqrt(s)
        if n == 'constant':
            x = self.num(a[0])
            return Mat(None, None, lambda i, j: x)
        if n == 'toRotationMatrix':
            v = self.val(a[0])
            if isinstance(v, tuple) and v[0] == 'aa':
                return aa(v).mat()
            return self.quat(v).mat()
        if n == 'slerp':
            return self.quat(self.val(a[0])).slerp(
                self.num(a[1]), self.quat(self.val(a[2])))
        if n in ('normalized', 'stableNormalized'):
            v = self.val(a[0])
            if isinstance(v, Quat):
                return v.unit()
            m = self.mat(v)
            if m.r is None:
                m = Mat(self.shapes.get('norm', 3), 1, m.f)
            s = math.sqrt(sum(m(i, 0) ** 2 for i in range(m.r)))
            return Mat(m.r, 1, lambda i, j: m(i, j) / s)
        if n in ('inverse', 'conjugate'):
            return self.inverse(self.val(a[0]))
        if n == 'transpose':
            m = self.mat(self.val(a[0]))
            return Mat(m.k, m.r, lambda i, j: m(j, i))
        if n == 'dot':
            x, y = (self.mat(self.val(z)) for z in a[:2])
            r = x.r or y.r or self.shapes.get('norm', 3)
            return sum(x(i, 0) * y(i, 0) for i in range(r))
        if n == 'cross':
            x, y = (self.mat(self.val(z)) for z in a[:2])
            return Mat(3, 1, lambda i, j: x((i + 1) % 3, 0) * y((i + 2) % 3, 0) -
                       x((i + 2) % 3, 0) * y((i + 1) % 3, 0))
        if n.startswith('Quaternion'):
            if len(a) == 1:
                v = self.val(a[0])
                if isinstance(v, tuple) and v[0] == 'aa':
                    return aa(v)
                return self.quat(v)
            if len(a) == 4:
                return Quat(*(self.num(x) for x in a))
        if n.startswith('AngleAxis'):
            if len(a) == 2:
                return ('aa', self.num(a[0]), self.mat(self.val(a[1])))
            if len(a) == 1:
                return self.quat(self.val(a[0]))
        if n in ('matrix', 'eval', 'cast', 'colwise', 'rowwise'):
            return self.val(a[0])
        if n == 'sum' and len(a) == 1:
            m = self.mat(self.val(a[0]))
            r = m.r if m.r is not None else self.shapes.get('norm', 3)
            return sum(m(i, j) for i in range(r) for j in range(m.k or 1))
        if n == 'lpNorm' and len(a) == 1:
            m = self.mat(self.val(a[0]))
            r = m.r if m.r is not None else self.shapes.get('norm', 3)
            return sum(abs(m(i, j)) for i in range(r) for j in range(m.k or 1))
        return self.leaf(t)


def wrap(ty, x):
    n = 16 if 'short' in ty or '16' in ty else 8
    x &= (1 << n) - 1
    if ty.startswith(('unsigned', 'u')) or x < 1 << (n - 1):
        return x
    return x - (1 << n)


class Closed(Num):
    """values made of constants and the given ones only"""

    def scal(self, v):
        if isinstance(v, Leaf):
            raise NoValue(T.show(v.loc))
        return Num.scal(self, v)

    def mat(self, v):
        if isinstance(v, Leaf):
            raise NoValue(T.show(v.loc))
        return Num.mat(self, v)

    def quat(self, v):
        if isinstance(v, Leaf):
            raise NoValue(T.show(v.loc))
        return Num.quat(self, v)

    def truth(self, atom):
        try:
            return bool(self.num(atom))
        except NoValue:
            return None


class Both:
    """sum or product whose kind shows in its use"""

    def __init__(self, n, f, a, b):
        self.n, self.f, self.a, self.b = n, f, a, b

    def __float__(self):
        return float(self.f(self.n.scal(self.a), self.n.scal(self.b)))


def aa(v):
    h = v[1] / 2
    m = v[2]
    s = math.sin(h)
    return Quat(math.cos(h), s * m(0, 0), s * m(1, 0), s * m(2, 0))


def _mat_both(self, v):
    if isinstance(v, Both):
        a = v.a if isinstance(v.a, (int, float)) else self.mat(v.a)
        b = v.b if isinstance(v.b, (int, float)) else self.mat(v.b)

        def g(x, i, j):
            return x if isinstance(x, (int, float)) else x(i, j)
        r = next((x.r for x in (a, b) if isinstance(x, Mat) and
                  x.r is not None), None)
        k = next((x.k for x in (a, b) if isinstance(x, Mat) and
                  x.k is not None), None)
        return Mat(r, k, lambda i, j: v.f(g(a, i, j), g(b, i, j)))
    return Num._mat0(self, v)


Num._mat0 = Num.mat
Num.mat = _mat_both


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def same(x, y, r, k, tol=1e-9):
    """do two matrices agree in the first r x k cells"""
    return all(close(x(i, j), y(i, j), tol) for i in range(r) for j in range(k))
