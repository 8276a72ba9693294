"""What the back end hands to the solver over a history of submaps.

The history is composed from the extracted transfer of one insertion: the number
of submaps before it, the loop edges reported and the sensor data the submap
carries are given, everything else stays symbolic."""
import math
from . import terms as T, kmap
from .interp import Ev
from .num import Num, Mat, NoValue, rigid, rnd, same
from .paths import THIS, fld
from .terms import c, NULL

SRCS = ['back_end/isam_optimizer.cc']
ANGLE = 1.6
TF_ODOM = ('ld', ('arg', 'tf_odom', 0))
TF_GPS = ('ld', ('arg', 'tf_gps', 0))


def short(q):
    return str(q).split('::')[-1].split('<')[0]


def rec(b, **kw):
    return ('rec', b, tuple((('f', k), v) for k, v in sorted(kw.items())))


def frame(k):
    return ('ld', ('arg', 'submap%d' % k, 0))


def loop_t(k, j):
    return ('ld', ('arg', 'loop%d_%d' % (k, j), 0))


def frame_of(loc):
    """index of the submap an object location is"""
    while loc and loc[0] == '&':
        loc = loc[1]
    if loc and loc[0] == '*' and loc[1][0] == 'ld' and loc[1][1][0] == 'arg' and \
            str(loc[1][1][1]).startswith('submap'):
        return int(loc[1][1][1][6:])
    return None


class Step:
    """one insertion: loop edges [(a, b)], whether the detector accepted them,
    which data the submap carries, whether it has turned enough"""

    def __init__(self, edges=(), ok=True, odom=False, gps=False, turned=False):
        self.edges, self.ok = edges, ok
        self.odom, self.gps, self.turned = odom, gps, turned


class History:
    def __init__(self, ctx, opts, steps, final=True, max_unroll=8):
        self.ctx, self.p = ctx, ctx.prog
        self.opts, self.steps = opts, steps
        self.k = -1
        self.unknown = []
        self.I = I = ctx.interp(
            opaque=('LoopDetector::AddFrame', 'TransformToVector6',
                    'LoopDetector::SetTransformOdomToLidar',
                    'PrintTransform', 'ViewGraph::AddVertex',
                    'ViewGraph::AddEdge', 'ViewGraph::SaveImage'),
            unroll=max_unroll, model=self.model)
        I.given = self.given
        cls = 'IsamOptimizer'
        st = I.init_state()
        A = ('arg', 'options', 0)
        for n, v in opts.items():
            I.store(st, ('f', A, n), c(v), quiet=True)
            I.store(st, ('f', fld('options_'), n), c(v), quiet=True)
        ctor = [f for f in self.p.fns.values()
                if f.q.endswith('IsamOptimizer::IsamOptimizer') and
                len(f.params) == 2]
        ctx.need(len(ctor) == 1, 'the constructor of the back end')
        outs = I.run(ctor[0], this=THIS, state=st,
                     args=[('&', A), ('&', ('arg', 'settings', 0))])
        outs = [o for o in outs if o.kind == 'ret']
        ctx.need(len(outs) == 1, 'one way through the constructor')
        st = outs[0].st
        self.setup(I, st)
        for name, a in (('SetTransformOdomToLidar', TF_ODOM),
                        ('SetTrackingToGps', TF_GPS)):
            g = self.p.one('IsamOptimizer::' + name)
            I.outs = []
            os_ = [o for o in I.run(g, this=THIS, state=st,
                                    args=[('&', a[1])]) if o.kind == 'ret']
            ctx.need(len(os_) == 1, 'one way through ' + name)
            st = os_[0].st
        FIELDS.clear()
        for l, v in st.store.items():
            if v in (TF_ODOM, TF_GPS) and l[0] == 'f':
                FIELDS[l] = v
        self.f = self.p.one('IsamOptimizer::AddFrame')
        self.ends = [(st, [])]        # (state, [(step, events)])
        for k, s in enumerate(steps):
            self.k = k
            nxt = []
            for st, log in self.ends:
                st = st.copy()
                I.outs = []
                args = []
                for p in self.f.params:
                    if 'Submap' in self.f.ty(p['t']):
                        args.append(('&', ('arg', 'submap%d' % k, 0))
                                    if p.get('isref') else frame(k))
                    else:
                        args.append(('ld', ('arg', p['n'], k)))
                n0 = len(st_events(st))
                for o in I.run(self.f, this=THIS, args=args, state=st):
                    ev = st_events(o.st)[n0:]
                    nxt.append((o.st, log + [(o.kind, ev)], o.kind))
            self.bad_ends = [x for x in nxt if x[2] != 'ret']
            self.ends = [(a, b) for a, b, kd in nxt if kd == 'ret']
            ctx.need(len(self.ends) <= 4, 'a decided history (%d ways)' %
                     len(self.ends))
            if self.bad_ends or not self.ends:
                return
        if final:
            g = self.p.one('IsamOptimizer::RunFinalOptimazation')
            nxt = []
            for st, log in self.ends:
                I.outs = []
                st = st.copy()
                n0 = len(st_events(st))
                for o in I.run(g, this=THIS, state=st):
                    nxt.append((o.st, log + [(o.kind, st_events(o.st)[n0:])],
                                o.kind))
            self.bad_ends = [x for x in nxt if x[2] != 'ret']
            self.ends = [(a, b) for a, b, kd in nxt if kd == 'ret']

    def setup(self, I, st):
        r = self.p.record('back_end::IsamOptimizer')
        for x in r['fields']:
            if r['tu'].types[x['t']].replace('std::__cxx11::', '').startswith(
                    ('std::map<', 'const std::map<', 'map<')):
                kmap.empty(I, st, fld(x['n']))
        self.ld = None
        for x in r['fields']:
            if 'LoopDetector' in r['tu'].types[x['t']]:
                if 'Settings' not in r['tu'].types[x['t']]:
                    self.ld = x['n']
        self.ctx.need(self.ld, 'the loop detector of the back end')
        L = I.deref(I.load(st, fld(self.ld)))
        d = self.p.record('back_end::LoopDetector')
        self.frames = None
        for x in d['fields']:
            if 'Submap' in d['tu'].types[x['t']]:
                self.frames = ('f', L, x['n'])
        self.ctx.need(self.frames, 'the submap list of the loop detector')

    def read(self, log):
        """remembers which value is what getter of which submap"""
        self.gets = {}
        for kind, ev in log:
            for e in ev:
                if e.k == 'call' and e.res and frame_of(e.obj) is not None and \
                        not e.args:
                    self.gets[e.res] = (e.n, frame_of(e.obj))

    def is_get(self, t, k, name):
        for _ in range(8):
            if t in self.gets:
                return self.gets[t] == (name, k)
            if t[0] == 'obj' and len(t) == 4:
                t = t[3]
            elif t[0] in ('*', 'ld', '&') and isinstance(t[1], tuple):
                t = t[1]
            else:
                return False
        return False

    def given(self, a):
        s = self.steps[self.k] if 0 <= self.k < len(self.steps) else None
        t = a[1] if a[0] == '!' else a
        if t[0] == '==' and NULL in t[1:]:
            return False
        r = self.truth(t, s)
        if r is None:
            return None
        return (not r) if a[0] == '!' else r

    def truth(self, t, s):
        while t[0] in ('ld', '*') and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == 'call':
            n = short(t[1])
            if n in ('HasOdom', 'HasGps'):
                for j, x in enumerate(self.steps):
                    if T.show(t[2]) == T.show(('*', frame(j))):
                        return x.odom if n == 'HasOdom' else x.gps
            if n == 'valueExists':
                return True
            if n == 'exists':
                return True
        if t[0] == '<' and s:
            lo, hi = (2.5, None) if s.turned else (0.2, None)
            if t[1] == c(ANGLE):
                return ANGLE < lo
            if t[2] == c(ANGLE):
                return lo < ANGLE
        return None

    def model(self, I, fn, fr, i, n, st):
        r = kmap.model(I, fn, fr, i, n, st)
        if r is not None:
            return r
        f = n.get('fn') or {}
        q = f.get('q', '')
        if n['k'] == 'call' and q.endswith('LoopDetector::AddFrame'):
            k, s = self.k, self.steps[self.k]
            args = tuple(I.rvalue(fn, st, a) for a in n['a'])
            I.ev(st, Ev('call', fn, i, q=q, n='AddFrame', c=f.get('c'),
                        args=args, frame=fr))
            I.store(st, ('f', self.frames, '#size'), c(k + 1), quiet=True)
            for j in range(k + 1):
                I.store(st, ('[]', self.frames, c(j)), frame(j), quiet=True)
            ed = ('rec', ('cont', 'tbb::concurrent_vector', c(len(s.edges))),
                  tuple((('[]', c(j)), rec(
                      ('init', 'edge'),
                      close_pair_index=rec(('init', 'pair'), first=c(a),
                                           second=c(b)),
                      transform=loop_t(k, j)))
                      for j, (a, b) in enumerate(s.edges)))
            return I.set(st, i, rec(('init', 'result'),
                                    current_frame_index=c(k),
                                    close_succeed=c(bool(s.edges) and s.ok),
                                    edges=ed))
        if n['k'] == 'call' and n.get('obj') is not None and f.get('c', '') \
                .startswith('gtsam::') and f.get('n') in ('empty', 'size'):
            return None
        return None


def st_events(st):
    from .interp import Out
    return list(Out('ret', st, None, None).events())


# ------------------------------------------------------------ solver input
def symbol(t):
    """(letter, index) of a variable key term"""
    for _ in range(6):
        if t[0] == 'obj' and 'Symbol' in t[1] and len(t) >= 5:
            if t[3][0] == 'c' and t[4][0] == 'c':
                x = t[3][1]
                return (x if isinstance(x, str) else chr(x)), t[4][1]
            return None
        if t[0] == 'call' and short(t[1]) in ('operator unsigned long', 'key'):
            t = t[2]
        elif t[0] == 'call' and short(t[1]) in ('symbol', 'Symbol') and \
                len(t) >= 5 and t[3][0] == 'c' and t[4][0] == 'c':
            return chr(t[3][1]), t[4][1]
        elif t[0] in ('ld', '*', '&') and isinstance(t[1], tuple):
            t = t[1]
        else:
            return None
    return None


def symbols(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        s = symbol(t)
        if s:
            out.add(s)
            return out
        for x in t[1:]:
            if isinstance(x, tuple):
                symbols(x, out)
    return out


class GNum(Num):
    """values of solver expressions: variables are random poses"""

    def leafpose(self, s, vec=False):
        if vec:
            return Mat(3, 1, lambda i, j: rnd((self.seed, 'pt', s, i)))
        return rigid((self.seed, 'var', s))

    def _val(self, t):
        if t in self.over:
            return self.over[t]
        if t[0] == 'obj' and 'Expression<' in t[1] and len(t) >= 4:
            s = symbol(t[3])
            vec = 'Matrix<double, 3, 1>' in t[1] or 'Point3' in t[1]
            if s:
                return self.leafpose(s, vec)
            return self.val(t[3])
        if t[0] == 'obj' and t[1].endswith('Pose3'):
            if len(t) == 4:
                return self.val(t[3])
            if len(t) == 5:
                r, p = self.mat(self.val(t[3])), self.mat(self.val(t[4]))
                return Mat(4, 4, lambda i, j: (
                    (1.0 if j == 3 else 0.0) if i == 3 else
                    p(i, 0) if j == 3 else r(i, j)))
            if len(t) == 3:
                return Mat(4, 4, lambda i, j: 1.0 if i == j else 0.0)
        if t[0] == '&':
            return self.at(t[1])
        return super()._val(t)

    def call(self, t):
        n = short(t[1])
        a = [x for x in t[2:] if x is not None]
        if n == 'between' and len(a) >= 2:
            x, y = self.mat(self.val(a[-2])), self.mat(self.val(a[-1]))
            return self.prod(self.inverse(x), y)
        if n == 'compose' and len(a) >= 2:
            x, y = self.mat(self.val(a[-2])), self.mat(self.val(a[-1]))
            if x.r == 3 or y.r == 3:
                return Mat(3, 1, lambda i, j: x(i, 0) + y(i, 0))
            return self.prod(x, y)
        if n in ('transformFrom', 'transform_from') and len(a) >= 2:
            x, y = self.mat(self.val(a[0])), self.mat(self.val(a[1]))
            return Mat(3, 1, lambda i, j: sum(x(i, k) * y(k, 0)
                                              for k in range(3)) + x(i, 3))
        if n == 'RzRyRx' and len(a) >= 3:
            x, y, z = (self.num(v) for v in a[:3])
            return euler(x, y, z)
        if n == 'TransformToVector6':
            m = self.mat(self.val(a[-1]))
            e = angles(m)
            return Mat(6, 1, lambda i, j: m(i, 3) if i < 3 else e[i - 3])
        if n == 'at' and len(a) >= 2 and symbol(a[1]):
            return self.leafpose(symbol(a[1]))
        return super().call(t)


def euler(x, y, z):
    cx, sx, cy, sy, cz, sz = (math.cos(x), math.sin(x), math.cos(y), math.sin(y),
                              math.cos(z), math.sin(z))
    m = [[cy * cz, sx * sy * cz - cx * sz, cx * sy * cz + sx * sz],
         [cy * sz, sx * sy * sz + cx * cz, cx * sy * sz - sx * cz],
         [-sy, sx * cy, cx * cy]]
    return Mat(3, 3, lambda i, j: m[i][j])


def angles(m):
    sy = math.sqrt(m(0, 0) ** 2 + m(1, 0) ** 2)
    return (math.atan2(m(2, 1), m(2, 2)), math.atan2(-m(2, 0), sy),
            math.atan2(m(1, 0), m(0, 0)))


FIELDS = {}      # members holding the configured transforms


def nums():
    r = []
    for s in (1, 2):
        n = GNum(seed=s, rigid=True)
        for l, v in FIELDS.items():
            n.over[l] = n.mat(n.val(v))
        r.append(n)
    return r


def agree(a, b, r=4, k=4):
    """do two closed terms (or functions of the evaluator) always agree"""
    for n in nums():
        try:
            x = n.mat(a(n) if callable(a) else n.val(a))
            y = n.mat(b(n) if callable(b) else n.val(b))
            if not same(x, y, r, k, 1e-7):
                return False
        except NoValue:
            return False
    return True


class Factor:
    def __init__(self, e, noise, meas, expr, kind):
        self.e, self.noise, self.meas, self.expr, self.kind = \
            e, noise, meas, expr, kind
        self.pushed = 0
        self.cleared = False
        self.keys = symbols(expr) if expr is not None else set()

    def value(self, n):
        if self.kind == 'expr':
            return n.val(self.expr)
        ks = self.expr
        if len(ks) == 1:
            return n.leafpose(ks[0])
        return n.prod(n.inverse(n.leafpose(ks[0])), n.leafpose(ks[1]))


class Initial:
    def __init__(self, e, key, val):
        self.e, self.key, self.val = e, key, val
        self.pushed = 0
        self.cleared = False


class Solver:
    """factors and initial values on their way into the solver"""

    def __init__(self):
        self.graphs, self.values = {}, {}
        self.factors, self.inits = [], []
        self.solver_graphs = set()
        self.known = set()
        self.problems = []
        self.pushes = 0
        self.time = 0

    def feed(self, e):
        self.time += 1
        if e.k == 'write' and e.loc is not None:
            for d in (self.graphs, self.values):
                if e.loc in d:
                    self.drop(d, e.loc)
            return
        if e.k != 'call':
            return
        c_ = str(e.c or '') + ' ' + str(e.q or '')
        if e.x == 'ctor':
            return
        if e.n == 'addExpressionFactor' and len(e.args) >= 3:
            self.add(e, Factor(e, e.args[0], e.args[1], e.args[2], 'expr'))
        elif 'FactorGraph' in c_ and e.n in ('emplace_shared', 'add', 'push_back'):
            self.factor_object(e)
        elif 'gtsam::Values' in c_ and e.n in ('insert', 'update',
                                               'insert_or_assign'):
            k = symbol(e.args[0]) if e.args else None
            if len(e.args) == 2:
                x = Initial(e, k, e.args[1])
                self.inits.append(x)
                self.values.setdefault(e.obj, []).append(x)
        elif 'gtsam::Values' in c_ and e.n in ('clear', 'operator='):
            self.drop(self.values, e.obj)
        elif 'FactorGraph' in c_ and e.n in ('resize', 'erase', 'operator='):
            self.drop(self.graphs, e.obj)
        elif 'ISAM2' in c_ and e.n == 'update':
            self.push(e)

    def loc(self, v):
        return v[1] if v and v[0] == '&' else None

    def add(self, e, f):
        self.factors.append(f)
        self.graphs.setdefault(e.obj, []).append(f)

    def factor_object(self, e):
        a = list(e.args)
        if len(a) == 1 and a[0][0] in ('obj', '*', 'ld', 'heap'):
            t = a[0]
            while t[0] in ('*', 'ld') and isinstance(t[1], tuple):
                t = t[1]
            a = list(t[3:]) if t[0] == 'obj' else []
        ks, rest = [], []
        for x in a:
            s = symbol(x)
            if s and not rest:
                ks.append(s)
            else:
                rest.append(x)
        f = Factor(e, rest[1] if len(rest) > 1 else None,
                   rest[0] if rest else None, None, 'keys')
        f.expr = ks
        f.keys = set(ks)
        self.add(e, f)

    def drop(self, d, loc):
        for x in d.get(loc, []):
            x.cleared = True
        d[loc] = []

    def push(self, e):
        self.pushes += 1
        g = self.loc(e.argl[0]) if e.argl else None
        v = self.loc(e.argl[1]) if len(e.argl or ()) > 1 else None
        if len(e.args) > 2 and e.args[2][0] != 'cont' and \
                e.args[2] not in (('zero',),):
            self.problems.append((e, 'factors are removed from the solver'))
        for x in self.values.get(v, []):
            x.pushed += 1
            if x.key is not None:
                if x.pushed == 1 and x.key in self.known:
                    self.problems.append((
                        e, 'variable %s%d gets a second initial value' % x.key))
                self.known.add(x.key)
        if g is not None:
            self.solver_graphs.add(g)
        for x in self.graphs.get(g, []):
            x.pushed += 1
            for k in sorted(x.keys):
                if k not in self.known:
                    self.problems.append((
                        x.e, 'a constraint on variable %s%d reaches the solver '
                        'before the variable has a value' % k))

    def live(self):
        """factors that are meant for the solver"""
        return [f for f in self.factors if f.e.obj in self.solver_graphs or
                f.pushed or root(f.e.obj) == THIS]

    def live_inits(self):
        return [x for x in self.inits if x.pushed or root(x.e.obj) == THIS]


def root(l):
    while isinstance(l, tuple) and len(l) > 1 and l[0] in ('f', '[]', '*', 'ld',
                                                           '&', 'fld'):
        l = l[1]
    return l


BASE = dict(use_odom=False, use_gps=False, enable_extrinsic_calib=True,
            gps_factor_init_num=2, gps_factor_sample_step=1,
            gps_factor_init_angle_rad=ANGLE, output_graph_pic=False)


def histories():
    """the option and history combinations analysed"""
    S = Step
    loops = [S(), S(), S(edges=((0, 2),)), S(edges=((0, 3), (1, 3))),
             S(edges=((0, 4), (2, 4)), ok=False), S(edges=((3, 5), (0, 5)))]
    yield 'loops', {}, loops
    yield 'one submap', {}, [S()]
    for odom in (False, True):
        for gps in (False, True):
            for calib in (False, True):
                for step, init in ((1, 1), (2, 2), (3, 1)):
                    if not gps and (step, init) != (1, 1):
                        continue
                    o = dict(use_odom=odom, use_gps=gps,
                             enable_extrinsic_calib=calib,
                             gps_factor_init_num=init,
                             gps_factor_sample_step=step)
                    n = 'odom=%d gps=%d calib=%d step=%d init=%d' % (
                        odom, gps, calib, step, init)
                    yield n + ' full', o, [
                        S(odom=True, gps=True), S(gps=True),
                        S(odom=True, gps=True, turned=False),
                        S(odom=True, gps=True, turned=True, edges=((0, 3),
                                                                   (1, 3))),
                        S(gps=True, turned=True), S(odom=True, gps=True),
                        S(gps=False), S(odom=True, gps=True)]
                    yield n + ' sparse', o, [
                        S(gps=False, odom=False), S(odom=True),
                        S(gps=True), S(gps=True, turned=True, edges=((0, 3),)),
                        S(gps=True, odom=True, turned=True),
                        S(gps=True, turned=True)]
