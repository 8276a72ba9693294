"""Keep regions of the range, axis and box filters."""
from .. import lib_filters as F
from .. import terms as T
from ..paths import fld, ld
from ..table import table, show_env
from ..terms import c

SRCS = F.SRCS
EXPLAIN = '''
The guards under which each filter keeps or removes an arbitrary point are
collected from every path of Filter() (helper calls followed).  They are
compared with the documented closed region over every relative order of the
compared quantities (coordinate or distance against the limits): an order for
which the outcome differs, or for which the outcome depends on anything else,
is reported.  The compared distance has to be the root (or both sides squared)
of the sum of the squares of the three coordinates.
'''
ASSUME = ['no NaN coordinates or limits', 'limits are not negative for the '
          'squared form of the range comparison', 'rounding of the distance '
          'computation is not modelled']

PT = ('[]', F.IN, F.I_)
X, Y, Z = (ld(('f', PT, k)) for k in 'xyz')


def norm_canon():
    sq = T.add(T.add(T.mul(X, X), T.mul(Y, Y)), T.mul(Z, Z))
    r = ('r',)
    m = {('call', 'sqrt', sq): r, sq: ('op', '*', r, r),
         ('call', 'sqrt', ('call', 'sqn', ('vec', X, Y, Z))): r,
         ('call', 'sqn', ('vec', X, Y, Z)): ('op', '*', r, r)}
    return lambda t: T.subst(t, m)


def run(ctx, cls, syms, values, oracle, canon=None, what=''):
    fn, cases = F.analyse(ctx, cls, lambda *a: None)
    ctx.need(cases, 'no keep/remove case found in %s' % cls)
    n, bad = table(cases, syms, values, oracle, canon)
    ctx.count('orders_compared', n)
    ctx.count('guard_cases', len(cases))
    if not bad:
        ctx.ok('keep-region', fn.where(), '%s: %d orders of %s agree' % (
            cls, n, what))
    for env, want, got in bad[:1]:
        if len(got) > 1:
            ctx.bad('keep-region', list(got.values())[0],
                    '%s: for %s the point can be kept or removed, so the '
                    'decision depends on something else' % (cls, show_env(env)),
                    cls + '/depends')
        else:
            g = list(got)[0] if got else 'neither'
            ctx.bad('keep-region', list(got.values())[0] if got else fn.where(),
                    '%s: for %s the point is %s, documented is %s' % (
                        cls, show_env(env), g, want), cls + '/region')


def check(ctx):
    r = ('r',)
    lo, hi = ld(fld('min_range_')), ld(fld('max_range_'))
    v = [1, 2, 3, 4]
    run(ctx, 'Range', [r, lo, hi], [v] * 3,
        lambda e: 'in' if e[lo] <= e[r] <= e[hi] else 'out', norm_canon(),
        'distance and limits')
    mn, mx, ax = ld(fld('min_')), ld(fld('max_')), ld(fld('axis_index_'))
    big = 3.4028234663852886e+38
    v = [1, 2, 3]
    run(ctx, 'AxisRange', [X, Y, Z, mn, mx, ax],
        [v, v, v, v + [-big], v + [big], [0, 1, 2]],
        lambda e: 'in' if e[mn] <= (e[X], e[Y], e[Z])[e[ax]] <= e[mx]
        else 'out', None, 'coordinate, limits and axis')
    b = {k: (ld(fld('min_%s_' % k)), ld(fld('max_%s_' % k))) for k in 'xyz'}
    syms = [X, Y, Z] + [s for k in 'xyz' for s in b[k]]

    def box(e):
        if any(e[b[k][0]] >= e[b[k][1]] for k in 'xyz'):
            return None     # an invalid box is refused when it is built
        for k, p in zip('xyz', (X, Y, Z)):
            if not (e[b[k][0]] <= e[p] <= e[b[k][1]]):
                return 'in'
        return 'out'
    v = [1, 2, 3, 4]
    run(ctx, 'BoundingBoxRemoval', syms, [v] * 9, box, None,
        'coordinates and limits')
