"""SimpleTime arithmetic."""
from .. import terms as T
from ..paths import fld, ld, THIS
from ..table import bool_table, ret_paths, ev, Unknown
from ..terms import c, ZERO
from ..interp import bty, W32

SRCS = ['common/simple_time.cc']
EXPLAIN = '''
All operators and conversions of the time type are evaluated to closed terms
over the second and nanosecond parts (callees followed, 64-to-32-bit
narrowing kept visible).  Conversions are compared as terms with the exact
conversion; comparisons, sums, differences and quotients are compared with the
oracle on nanosecond counts for every combination of second and nanosecond
parts from the carry, borrow and equality boundaries.  32-bit products and sums
of time parts are rejected, and every writer of the equality range is required
to write one.
'''
ASSUME = ['times stay below 2^32 seconds', 'seconds given as floating point are '
          'rounded by the hardware, which is not modelled']
MIN_OBLIGATIONS = 15
Q = 'static_map::SimpleTime::'
G = 10 ** 9
SECS, NSECS = (0, 1, 2, 7), (0, 1, 2, 999999998, 999999999)


def check(ctx):
    p = ctx.prog
    I0 = ctx.interp()
    A = (ld(fld('secs')), ld(fld('nsecs')))
    rng = ld(fld('u_judge_range'))

    def arg(fn, k=0):
        loc = ('arg', fn.params[k]['n'], k)
        return (ld(('f', loc, 'secs')), ld(('f', loc, 'nsecs')),
                ld(('f', loc, 'u_judge_range')))

    def outs(name, nparams=None):
        fn = p.one(Q + name if '::' not in name else name, None if nparams is
                   None else (lambda f: len(f.params) == nparams))
        I = ctx.interp(narrow=True)
        r = I.run(fn)
        return fn, I, r

    def part(I, v, f):
        return I.proj(v, ('f', None, f))

    def bad_table(rule, fn, name, n, bad, key):
        ctx.count('value_combinations', n)
        if not bad:
            ctx.ok(rule, fn.where(), '%s: %d combinations agree' % (name, n))
            return
        env, want, got = bad[0]
        ctx.bad(rule, fn.where(), '%s with %s gives %s instead of %s' % (
            name, ', '.join('%s=%s' % (T.show(k), v) for k, v in env.items()),
            ' or '.join(str(g) for g in got) or 'nothing', want), key)

    ns = lambda s, n: s * G + n
    # --- conversion to and from nanoseconds
    fn, I, r = outs('ToNanoSec')
    bad_table('to-nanoseconds', fn, 'the nanosecond count', *bool_table(
        ret_paths(r), list(A), [SECS + (2 ** 32 - 1,), NSECS],
        lambda e: ns(e[A[0]], e[A[1]])), 'tons')
    fn, I, r = outs('FromNanoSec')
    t = ld(('arg', fn.params[0]['n'], 0))
    rp = [(g, (part(I, v, 'secs'), part(I, v, 'nsecs')), w)
          for g, v, w in ret_paths(r)]
    vals = [a * G + b for a in SECS + (4294967295,) for b in NSECS]
    bad_table('from-nanoseconds', fn, 'the time from a count', *bool_table(
        rp, [t], [vals], lambda e: divmod(e[t], G)), 'fromns')
    # --- constructors and constants
    for np_, want in ((0, (0, 0, 1)), (2, None)):
        fn, I, r = outs('SimpleTime', np_)
        for o in r:
            if o.kind != 'ret':
                continue
            got = tuple(I.load(o.st, fld(k)) for k in
                        ('secs', 'nsecs', 'u_judge_range'))
            exp = tuple(c(x) for x in want) if want else (
                ld(('arg', fn.params[0]['n'], 0)),
                ld(('arg', fn.params[1]['n'], 1)), c(1))
            ctx.require(got == exp, 'constructor', fn.where(),
                        'the parts of a new time are %s' %
                        ', '.join(T.show(x) for x in got), 'ctor%d' % np_)
    fn, I, r = outs('TimeMax')
    for o in r:
        if o.kind == 'ret':
            got = (T.num(part(I, o.val, 'secs')), T.num(part(I, o.val, 'nsecs')))
            ctx.require(got == (0xffffffff, 999999999), 'time-max', fn.where(),
                        'the largest time is %s' % (got,), 'max')
    # --- the equality range is one for every object
    n = 0
    for f in p.fns.values():
        if not f.file.startswith('common/simple_time'):
            continue
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'bin' and nd['op'].endswith('=') and \
                    nd['op'] not in ('==', '!=', '<=', '>='):
                a = f.nodes[nd['a']]
                if a['k'] == 'mem' and a['n'] == 'u_judge_range':
                    n += 1
                    rhs = f.nodes[nd['b']]
                    while rhs['k'] == 'cast':
                        rhs = f.nodes[rhs['e']]
                    if rhs['k'] == 'mem' and rhs['n'] == 'u_judge_range':
                        continue        # copied from another time
                    ctx.require(rhs.get('cv') == '1',
                                'equality-range', f.where(i),
                                'the equality range is set to one', 'range')
    ctx.count('writers_of_equality_range', n)
    # --- comparisons
    ops = {'operator<': lambda a, b: a < b, 'operator<=': lambda a, b: a <= b,
           'operator>': lambda a, b: a > b, 'operator>=': lambda a, b: a >= b,
           'operator==': lambda a, b: abs(a - b) <= 1,
           'operator!=': lambda a, b: abs(a - b) > 1}
    for name, f_ in ops.items():
        fn, I, r = outs(name)
        B = arg(fn)
        syms = [A[0], A[1], B[0], B[1], rng, B[2]]
        bad_table('comparison', fn, name, *bool_table(
            ret_paths(r), syms, [SECS, NSECS, SECS, NSECS, (1,), (1,)],
            lambda e: f_(ns(e[A[0]], e[A[1]]), ns(e[B[0]], e[B[1]]))),
            key=name)
    # --- sums and differences
    for name, f_ in (('operator+', lambda a, b: a + b),
                     ('operator-', lambda a, b: max(a - b, 0)),
                     ('operator+=', lambda a, b: a + b)):
        fn, I, r = outs(name)
        B = arg(fn)
        rp = []
        for o in r:
            if o.kind != 'ret':
                continue
            v = o.val
            if v[0] == '&':
                ctx.require(v[1] == THIS, 'assignment-returns-itself',
                            fn.where(), name + ' returns the object itself',
                            name + '/self')
                v = I.full(o.st, v[1])
            rp.append((list(o.st.pc.items()), (part(I, v, 'secs'),
                                               part(I, v, 'nsecs')),
                       fn.where()))
        syms = [A[0], A[1], B[0], B[1]]
        bad_table('arithmetic', fn, name, *bool_table(
            rp, syms, [SECS, NSECS, SECS, NSECS],
            lambda e: divmod(f_(ns(e[A[0]], e[A[1]]), ns(e[B[0]], e[B[1]])), G)),
            key=name)
    fn, I, r = outs('operator/=')
    d = ld(('arg', fn.params[0]['n'], 0))
    rp = [(list(o.st.pc.items()), (I.load(o.st, fld('secs')),
                                   I.load(o.st, fld('nsecs'))), fn.where())
          for o in r if o.kind == 'ret']
    bad_table('arithmetic', fn, 'operator/=', *bool_table(
        rp, [A[0], A[1], d], [SECS, NSECS, (-3, -1, 0, 1, 2, 3, 7)],
        lambda e: divmod(ns(e[A[0]], e[A[1]]) // abs(e[d]), G) if e[d] else
        (e[A[0]], e[A[1]])), key='operator/=')
    # --- point-cloud stamps
    fn, I, r = outs('static_map::ToPclTime')
    B = arg(fn)
    bad_table('pcl-stamp', fn, 'ToPclTime', *bool_table(
        ret_paths(r), [B[0], B[1]], [SECS, NSECS + (1000, 1999, 2000)],
        lambda e: ns(e[B[0]], e[B[1]]) // 1000), key='topcl')
    fn, I, r = outs('static_map::ToLocalTime')
    t = ld(('arg', fn.params[0]['n'], 0))
    rp = [(g, (part(I, v, 'secs'), part(I, v, 'nsecs')), w)
          for g, v, w in ret_paths(r)]
    bad_table('pcl-stamp', fn, 'ToLocalTime', *bool_table(
        rp, [t], [(0, 1, 999999, 1000000, 1000001, 5000000123456)],
        lambda e: divmod(e[t] * 1000, G)), key='fromcl')
    # --- floating-point seconds
    fn, I, r = outs('FromSec')
    t = ld(('arg', fn.params[0]['n'], 0))
    rp = [(g, (part(I, v, 'secs'), part(I, v, 'nsecs')), w)
          for g, v, w in ret_paths(r)]
    bad_table('from-seconds', fn, 'FromSec', *bool_table(
        rp, [t], [(-1.5, -0.25, 0, 0.5, 1, 2.25, 1000000.75)],
        lambda e: (int(e[t]), int((e[t] - int(e[t])) * G)) if e[t] >= 0
        else (0, 0)), key='fromsec')
    fn, I, r = outs('ToSec')
    bad_table('to-seconds', fn, 'ToSec', *bool_table(
        [(g, ('op', '*', v, c(1)), w) for g, v, w in ret_paths(r)], list(A),
        [SECS, (0, 500000000, 250000000)],
        lambda e: e[A[0]] + e[A[1]] * 1.e-9), key='tosec')
    # --- no 32-bit products or sums of time parts
    for f in p.fns.values():
        if not f.file.startswith('common/simple_time') or \
                f.n.startswith('TimeStampBinarySearch'):
            continue
        if not (f.q.startswith(Q) or f.n in ('ToPclTime', 'ToLocalTime')):
            continue
        ctx.analysed.add(f.q)
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'bin' and nd['op'] in ('*', '+', '-', '+=', '-=',
                                                 '*=') and \
                    'cv' not in nd and bty(f.node_ty(i)) in W32:
                ctx.bad('wide-arithmetic', f.where(i),
                        'a 32-bit %s on time parts can overflow in %s' % (
                            nd['op'], f.q), 'wide/' + f.n)
            elif nd['k'] == 'bin' and nd['op'] in ('*', '+', '-'):
                ctx.ok('wide-arithmetic', f.where(i), 'computed in %s' %
                       bty(f.node_ty(i)))
