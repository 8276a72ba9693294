"""P43: rotation conversions share one convention and invert each other."""
import os
from .. import terms as T

SRCS = [os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__)))), 'probes', 'math.cc')]
MIN_OBLIGATIONS = 12
TECH = ('dataflow to closed terms, then exact polynomial identities in the '
        'sines and cosines of the three angles')
EXPLAIN = (
    'The conversion templates are instantiated and reduced to closed terms, '
    'path by path. The rotation made from three angles is multiplied out as '
    'polynomials in the sines and cosines of the angles; the terms that '
    'recover the angles are evaluated on that matrix, and each pair handed '
    'to the arc tangent must be a positive multiple of sine and cosine of '
    'the angle asked for (pitch strictly between -90 and 90 degrees), while '
    'the branch for the singular case must rebuild the same matrix at a '
    'pitch of plus and of minus 90 degrees. All conversions must use the '
    'same order and axes. Six-vectors must hold the translation and the '
    'angles in the places the reverse conversion reads. Interpolation is '
    'evaluated at both ends of its range, and must stop outside of it.')
ASSUME = ['arithmetic over the reals: rounding is not bounded',
          'axis-angle, quaternion and slerp operations of the matrix library '
          'do what they document']
NS = 'static_map::common::'
KNOWN = ('RotationMatrixToEulerAngles', 'EulerAnglesToQuaternion',
         'EulerAnglesToRotationMatrix', 'QuaternionToEulers',
         'TransformToVector6', 'Vector6ToTransform', 'Rotation',
         'Translation', 'InterpolateTransform')


# ----------------------------------------------- polynomials in c0 s0 c1 s1 ..
# a polynomial is {(e_c0, e_s0, e_c1, e_s1, e_c2, e_s2): coefficient}

def con(x):
    return {(0,) * 6: x} if x else {}


def var(k):
    e = [0] * 6
    e[k] = 1
    return {tuple(e): 1}


def cos(k):
    return var(2 * k)


def sin(k):
    return var(2 * k + 1)


def plus(a, b, f=1):
    r = dict(a)
    for m, x in b.items():
        r[m] = r.get(m, 0) + f * x
        if abs(r[m]) < 1e-12:
            del r[m]
    return r


def times(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(i + j for i, j in zip(m, n))
            r[k] = r.get(k, 0) + x * y
    return norm({m: x for m, x in r.items() if abs(x) > 1e-12})


def norm(p):
    """s^2 = 1 - c^2"""
    while True:
        for m in p:
            k = next((i for i in (1, 3, 5) if m[i] > 1), None)
            if k is not None:
                break
        else:
            return p
        x = p.pop(m)
        a = list(m)
        a[k] -= 2
        b = list(a)
        b[k - 1] += 2
        for n, y in ((tuple(a), x), (tuple(b), -x)):
            p[n] = p.get(n, 0) + y
            if abs(p[n]) < 1e-12:
                del p[n]


def put(p, k, c, s):
    """angle k with constant cosine and sine"""
    r = {}
    for m, x in p.items():
        y = x * c ** m[2 * k] * s ** m[2 * k + 1]
        if y:
            n = list(m)
            n[2 * k] = n[2 * k + 1] = 0
            r[tuple(n)] = r.get(tuple(n), 0) + y
    return norm({m: x for m, x in r.items() if abs(x) > 1e-12})


def mul(A, B):
    return [[sum3(times(A[i][k], B[k][j]) for k in range(3))
             for j in range(3)] for i in range(3)]


def sum3(xs):
    r = {}
    for x in xs:
        r = plus(r, x)
    return norm(r)


def axis(ax, c, s):
    i, j = (ax + 1) % 3, (ax + 2) % 3
    M = [[con(1 if a == b else 0) for b in range(3)] for a in range(3)]
    M[i][i], M[i][j], M[j][i], M[j][j] = c, plus({}, s, -1), s, c
    return M


IDENT = [[con(1 if a == b else 0) for b in range(3)] for a in range(3)]


# ------------------------------------------------------------------ reading

def strip(t):
    while isinstance(t, tuple) and len(t) == 2 and t[0] == 'ld' and \
            isinstance(t[1], tuple) and t[1][0] == '*':
        t = t[1][1]
    return t


class Unread(Exception):
    pass


class Other(Exception):
    """readable, but no multiple of the cosine of the pitch"""


def rotation(t, angle):
    """matrix of a rotation term; angle(term) -> (c, s)"""
    t = strip(t)
    if t[0] == 'call' and t[1] in ('toRotationMatrix', 'Quaternion',
                                   'normalized', 'matrix', 'Matrix') and \
            len(t) == 3:
        return rotation(t[2], angle)
    if t[0] == 'mm':
        R = IDENT
        for x in t[1:]:
            R = mul(R, rotation(x, angle))
        return R
    if t[0] == 'inv' or t[:2] in (('call', 'transpose'),
                                  ('call', 'inverse')):
        R = rotation(t[-1], angle)
        return [[R[j][i] for j in range(3)] for i in range(3)]
    if t[:2] == ('call', 'AngleAxis') and len(t) == 4 and t[3][0] == 'vec':
        u = [x[1] if x[0] == 'c' else None for x in t[3][1:]]
        if sorted(map(abs, (x for x in u if x is not None))) != [0, 0, 1]:
            raise Unread(T.show(t[3]))
        k = [abs(x) for x in u].index(1)
        c, s = angle(t[2])
        return axis(k, c, plus({}, s, u[k]))
    if t[0] == 'I':
        return IDENT
    raise Unread(T.show(t))


def angles(arg, first):
    def f(t):
        if t[0] == 'lin' and len(t[1]) == 1 and not t[2] and \
                abs(t[1][0][1]) == 1:
            c, s = f(t[1][0][0])
            return c, plus({}, s, t[1][0][1])
        if t[0] == 'ld' and t[1][0] == '[]' and t[1][1] == arg and \
                t[1][2][0] == 'c':
            k = t[1][2][1] - first
            if k in (0, 1, 2):
                return cos(k), sin(k)
        raise Unread(T.show(t))
    return f


def value(t, R, entry):
    """polynomial of a scalar term over the entries of R"""
    e = entry(t)
    if e is not None:
        return R[e[0]][e[1]]
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return con(t[1])
    if t[0] == 'lin':
        r = con(t[2])
        for x, k in t[1]:
            r = plus(r, value(x, R, entry), k)
        return norm(dict(r))
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        return times(value(t[2], R, entry), value(t[3], R, entry))
    if t[:2] == ('call', 'sqrt'):
        q = value(t[2], R, entry)
        if q == norm(times(cos(1), cos(1))):
            return cos(1)          # the pitch is between -90 and 90 degrees
        if not plus(q, con(1), -1):
            return con(1)
        if not q:
            return {}
        raise Other(T.show(t))
    if t[:2] == ('call', 'hypot') and len(t) == 4:
        return value(('call', 'sqrt', ('lin', tuple(
            (('op', '*', x, x), 1) for x in t[2:]), 0)), R, entry)
    raise Unread(T.show(t))


def entries(arg):
    def f(t):
        if t[0] == 'ld' and t[1][0] == '[]' and t[1][1] == arg and \
                t[1][2][0] == 'pair':
            i, j = t[1][2][1:]
            return i[1], j[1]
        return None
    return f


def run(ctx, name):
    f = ctx.prog.one(NS + name)
    ctx.analysed.add(f.q)
    I = ctx.interp(depth=6, unroll=8, inline=lambda g: g.file.startswith('common/math')
                   and g.n not in KNOWN and not g.nocfg)
    return f, I.run(f)


def where(f):
    return '%s:%d' % (f.file, f.line)


# ------------------------------------------------------------------- checks

def check(ctx):
    e2q, P = from_angles(ctx)
    to_angles(ctx, P)
    forward(ctx)
    six(ctx, P)
    interpolate(ctx)


def from_angles(ctx):
    """rotation made of three angles"""
    f, outs = run(ctx, 'EulerAnglesToQuaternion')
    R = None
    for o in outs:
        if o.kind != 'ret':
            continue
        try:
            Q = rotation(o.val, angles(('arg', f.params[0]['n'], 0), 0))
        except Unread as u:
            ctx.need(False, 'rotation as a product of axis rotations (%s)' % u)
        if R is None:
            R = Q
            ctx.ok('angles make a rotation', where(f))
        ctx.require(Q == R, 'all paths make the same rotation', where(f),
                    'two paths make different rotations', 'same')
    ctx.need(R, 'a rotation made of angles')
    return f, R


def pair(t, R, entry):
    """(cosine, sine) up to a positive factor of the angle a term gives"""
    if t[:2] == ('call', 'atan2') and len(t) == 4:
        return value(t[3], R, entry), value(t[2], R, entry)
    if t[0] == 'c' and t[1] == 0:
        return con(1), {}
    if t[:2] == ('call', 'asin'):
        x = value(t[2], R, entry)
        return root(x), x
    raise Unread(T.show(t))


def root(x):
    """sqrt(1 - x^2)"""
    q = norm(plus(con(1), times(x, x), -1))
    if q == norm(times(cos(1), cos(1))):
        return cos(1)
    if not q:
        return {}
    raise Other('asin')


def to_angles(ctx, P):
    f, outs = run(ctx, 'RotationMatrixToEulerAngles')
    arg = ('arg', f.params[0]['n'], 0)
    entry = entries(arg)
    regular = singular = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        v = strip(o.val)
        ctx.need(v[0] == 'vec' and len(v) == 4, 'three angles')
        sing = None
        for c, pol in o.st.pc.items():
            if c[0] != '<':
                continue
            try:
                a, b = value(c[1], P, entry), value(c[2], P, entry)
            except Unread as u:
                ctx.need(False, 'a branch on the matrix (%s)' % u)
            except Other as u:
                ctx.bad('the angles of a rotation are the ones it was made '
                        'of', where(f), 'the singular case is told by %s, '
                        'which is not the cosine of the pitch' % u, 'branch')
                return
            if a == cos(1) and small(b):
                sing = pol
            elif b == cos(1) and small(a):
                sing = not pol
        names = ('roll', 'pitch', 'yaw')
        if not sing:
            regular += 1
            for k in range(3):
                try:
                    c, s = pair(v[1 + k], P, entry)
                except Unread as u:
                    ctx.need(False, 'an arc tangent of entries (%s)' % u)
                except Other:
                    c, s = {}, {}
                cross = plus(times(s, cos(k)), times(c, sin(k)), -1)
                m = norm(plus(times(s, sin(k)), times(c, cos(k))))
                ctx.require(not norm(dict(cross)) and
                            (m == cos(1) or m == con(1)),
                            'the angles of a rotation are the ones it was '
                            'made of', where(f), 'the %s recovered is not '
                            'the %s given' % (names[k], names[k]),
                            'angle-%d' % k)
        if sing:
            singular += 1
            for sg in (1, -1):
                M = [[put(x, 1, 0, sg) for x in r] for r in P]
                try:
                    cs = [pair(x, M, entry) for x in v[1:]]
                except Unread as u:
                    ctx.need(False, 'an arc tangent of entries (%s)' % u)
                except Other:
                    cs = [({}, {})] * 3
                B = rebuild(P, cs)
                ctx.require(B is not None and all(
                    not norm(plus(B[i][j], M[i][j], -1))
                    for i in range(3) for j in range(3)),
                    'the singular case rebuilds the rotation', where(f),
                    'at a pitch of %d degrees another rotation results' %
                    (90 * sg), 'singular%+d' % sg)
    ctx.require(regular > 0, 'the regular case is handled', where(f),
                'no path recovers regular angles', 'regular')
    ctx.count('regular_paths', regular)
    ctx.count('singular_paths', singular)


def small(p):
    return len(p) == 1 and list(p)[0] == (0,) * 6 and \
        0 < list(p.values())[0] <= 1e-3


def rebuild(P, cs):
    """P with its angles given by (cos, sin) pairs"""
    for c, s in cs:
        n = norm(plus(times(c, c), times(s, s)))
        if n != con(1):
            return None
    out = []
    for r in P:
        row = []
        for p in r:
            t = {}
            for m, x in p.items():
                y = con(x)
                for k in range(3):
                    for _ in range(m[2 * k]):
                        y = times(y, cs[k][0])
                    for _ in range(m[2 * k + 1]):
                        y = times(y, cs[k][1])
                t = plus(t, y)
            row.append(norm(t))
        out.append(row)
    return out


def forward(ctx):
    for name, inner, outer in (
            ('EulerAnglesToRotationMatrix', 'EulerAnglesToQuaternion', None),
            ('QuaternionToEulers', None, 'RotationMatrixToEulerAngles')):
        f, outs = run(ctx, name)
        arg = ('ld', ('arg', f.params[0]['n'], 0))
        for o in outs:
            if o.kind != 'ret':
                continue
            v = strip(o.val)
            if outer:
                want = ('call', NS + outer, ('call', 'toRotationMatrix', arg))
                ok = flat(v) == want
            else:
                ok = flat(v) == ('call', 'toRotationMatrix',
                                 ('call', NS + inner, arg))
            ctx.require(ok, 'conversions share one convention', where(f),
                        'the result is %s' % T.show(v), name)


def flat(t):
    t = strip(t)
    if isinstance(t, tuple) and t and t[0] == 'call':
        return t[:2] + tuple(flat(x) for x in t[2:])
    return t


def blk(a, b, c, d):
    return ('blk', ('c', a), ('c', b), ('c', c), ('c', d))


def cells(v, rows, cols):
    """{(i, j): (block value, i', j')} of a matrix value"""
    out = {}
    if v[0] != 'rec':
        return out
    for k, x in v[2]:
        if k[0] != '[]':
            continue
        s = k[1]
        if s[0] == 'blk' and all(y[0] == 'c' for y in s[1:]):
            i0, j0, r, c = (y[1] for y in s[1:])
            for i in range(r):
                for j in range(c):
                    out[i0 + i, j0 + j] = (x, i, j)
        elif s[0] == 'pair':
            out[s[1][1], s[2][1]] = (x, None, None)
        elif s[0] == 'c':
            out[s[1], 0] = (x, None, None)
    return out


def taken(x, i, j, arg):
    """the entry of arg a cell value is"""
    if i is None:
        if x[0] == 'ld' and x[1][0] == '[]' and x[1][1] == arg:
            s = x[1][2]
            if s[0] == 'pair':
                return s[1][1], s[2][1]
            if s[0] == 'c':
                return s[1], 0
        return None
    if x[0] == 'ld' and x[1][0] == '[]' and x[1][1] == arg and \
            x[1][2][0] == 'blk' and all(y[0] == 'c' for y in x[1][2][1:]):
        return x[1][2][1][1] + i, x[1][2][2][1] + j
    return None


def six(ctx, P):
    f, outs = run(ctx, 'TransformToVector6')
    arg = ('arg', f.params[0]['n'], 0)
    for o in outs:
        if o.kind != 'ret':
            continue
        d = cells(strip(o.val), 6, 1)
        for i in range(3):
            x = d.get((i, 0))
            ctx.require(x is not None and taken(*x, arg) == (i, 3),
                        'a six-vector starts with the translation', where(f),
                        'entry %d is %s' % (i, x and T.show(x[0])), 'to6t')
            y = d.get((i + 3, 0))
            ok = y is not None and y[1] == i and flat(y[0]) == (
                'call', NS + 'RotationMatrixToEulerAngles',
                ('ld', ('[]', arg, blk(0, 0, 3, 3))))
            if not ok and y is not None:
                z = flat(y[0])
                ok = y[1] == i and z[:2] == (
                    'call', NS + 'RotationMatrixToEulerAngles') and \
                    flat(z[2]) == ('call', NS + 'Rotation', ('ld', arg))
            ctx.require(ok, 'a six-vector ends with the angles', where(f),
                        'entry %d is %s' % (i + 3, y and T.show(y[0])),
                        'to6r')
    f, outs = run(ctx, 'Vector6ToTransform')
    arg = ('arg', f.params[0]['n'], 0)
    for o in outs:
        if o.kind != 'ret':
            continue
        v = strip(o.val)
        d = cells(v, 4, 4)
        ctx.require(v[0] == 'rec' and v[1] == ('I',) and
                    not any(i == 3 for i, _ in d),
                    'the rest of a transform is the identity', where(f),
                    'the last row is not (0 0 0 1)', 'from6i')
        for i in range(3):
            x = d.get((i, 3))
            ctx.require(x is not None and taken(*x, arg) == (i, 0),
                        'the translation is the start of the six-vector',
                        where(f), 'translation %d is %s' %
                        (i, x and T.show(x[0])), 'from6t')
        x = d.get((0, 0))
        ok = x is not None and all(d.get((i, j)) == (x[0], i, j)
                                   for i in range(3) for j in range(3))
        if ok:
            try:
                R = six_rotation(x[0], arg)
            except Unread as u:
                ctx.need(False, 'rotation of a six-vector (%s)' % u)
            ok = R == 'shared' or R == P
        ctx.require(ok, 'conversions share one convention', where(f),
                    'the rotation of a six-vector is another product than '
                    'that of three angles', 'from6r')


def six_rotation(t, arg):
    z = flat(t)
    if z[:2] in (('call', NS + 'EulerAnglesToRotationMatrix'),
                 ('call', NS + 'EulerAnglesToQuaternion')) or \
            z[:2] == ('call', 'toRotationMatrix') and \
            z[2][:2] == ('call', NS + 'EulerAnglesToQuaternion'):
        a = z[2] if z[1] != 'toRotationMatrix' else z[2][2]
        a = flat(a)
        if a == ('ld', ('[]', arg, blk(3, 0, 3, 1))):
            return 'shared'
        if a[0] == 'vec' and [x for x in a[1:]] == [
                ('ld', ('[]', arg, ('c', k))) for k in (3, 4, 5)]:
            return 'shared'
        return None
    return rotation(t, angles(arg, 3))


def interpolate(ctx):
    f, outs = run(ctx, 'InterpolateTransform')
    a, b = (('arg', f.params[k]['n'], k) for k in (0, 1))
    fac = ('ld', ('arg', f.params[2]['n'], 2))
    n = 0
    for o in outs:
        lo = any(c == T.cmp('<', fac, ('c', 0)) and not p
                 for c, p in o.st.pc.items())
        hi = any(c == T.cmp('<', ('c', 1), fac) and not p
                 for c, p in o.st.pc.items())
        if o.kind != 'ret':
            continue
        n += 1
        ctx.require(lo and hi, 'interpolation stays between its ends',
                    where(f), 'a factor outside [0, 1] is accepted', 'range')
        v = strip(o.val)
        d = cells(v, 4, 4)
        ctx.require(v[0] == 'rec' and v[1] == ('I',) and
                    not any(i == 3 for i, _ in d),
                    'the rest of a transform is the identity', where(f),
                    'the last row is not (0 0 0 1)', 'interp-i')
        tr = d.get((0, 3))
        tb = blk(0, 3, 3, 1)
        ok = tr is not None and all(d.get((i, 3)) == (tr[0], i, 0)
                                    for i in range(3))
        for k, src in ((0, a), (1, b)):
            got = T.renorm(T.subst(tr[0], {fac: ('c', k)})) if ok else None
            ctx.require(ok and coeff(got) == {('ld', ('[]', src, tb)): 1},
                        'interpolation meets both ends', where(f),
                        'at %d the translation is %s' %
                        (k, got and T.show(got)), 'end-%d' % k)
        r = d.get((0, 0))
        z = flat(r[0]) if r else None
        rb = blk(0, 0, 3, 3)
        ok = r is not None and all(d.get((i, j)) == (r[0], i, j)
                                   for i in range(3) for j in range(3))
        if ok:
            while z[0] == 'call' and z[1] in ('toRotationMatrix',
                                              'normalized'):
                z = z[2]
            ok = z[:2] == ('call', 'slerp') and len(z) == 5 and (
                quat(z[2]) == a and z[3] == fac and quat(z[4]) == b or
                quat(z[2]) == b and quat(z[4]) == a and
                z[3] == T.sub(('c', 1), fac))
        ctx.require(ok, 'interpolation meets both ends', where(f),
                    'the rotation is %s' % (z and T.show(z)), 'slerp')
    ctx.need(n, 'an interpolation')


def quat(t):
    t = flat(t)
    while t[0] == 'call' and t[1] in ('Quaternion', 'normalized', 'Matrix'):
        t = t[2]
    if t[:2] == ('call', NS + 'Rotation'):
        return t[2][1]
    if t[0] == 'ld' and t[1][0] == '[]' and t[1][2] == blk(0, 0, 3, 3):
        return t[1][1]
    return None


def coeff(t):
    """linear combination with products by constants multiplied out"""
    out = {}

    def go(t, k):
        if t[0] == 'lin':
            for x, y in t[1]:
                go(x, k * y)
            if t[2]:
                out[None] = out.get(None, 0) + k * t[2]
        elif t[0] == 'op' and t[1] == '*' and len(t) == 4 and \
                any(x[0] == 'c' for x in t[2:]):
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            go(x, k * c[1])
        elif t[0] == 'c':
            if t[1]:
                out[None] = out.get(None, 0) + k * t[1]
        else:
            out[t] = out.get(t, 0) + k
    go(t, 1)
    return {x: y for x, y in out.items() if abs(y) > 1e-9}
