"""The view graph: vertices, edges, bounds and output."""
import itertools
from .. import terms as T, kmap
from ..num import Num, NoValue, close
from ..paths import THIS, fld
from ..scen import taken, Undecided
from ..strs import parts
from ..terms import c

SRCS = ['back_end/view_graph.cc']
EXPLAIN = '''
The effect of adding one vertex or edge is extracted for every relation of the
arguments to the vertices already present (new or known, with and without edges)
and the whole graph before and after is compared: exactly the specified entry
changes.  The bounds after adding a vertex are compared with the position for
every relative order of the position and the old bounds.  The text and picture
output are followed for graphs with given vertices and edges and must mention
each of them exactly once.
'''
ASSUME = ['The graphs followed for the output have up to four vertices.']
MIN_OBLIGATIONS = 40


class View:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        r = ctx.prog.record('back_end::ViewGraph')
        ty = r['tu'].types
        self.map = None
        vecs = []
        for x in r['fields']:
            t = ty[x['t']]
            if t.startswith('std::map<'):
                self.map = fld(x['n'])
            elif 'Vector2' in t or 'Matrix<double, 2, 1' in t:
                vecs.append(x['n'])
        ctx.need(self.map, 'the vertex map of the view graph')
        g = ctx.prog.record('ViewGraph::GraphItem')
        self.pose = self.con = None
        for x in g['fields']:
            t = g['tu'].types[x['t']]
            if 'vector' in t:
                self.con = x['n']
            elif 'Matrix' in t:
                self.pose = x['n']
        ctx.need(self.pose and self.con, 'pose and edges of a vertex')
        self.vecs = vecs

    def run(self, name, g, args, given=None, bounds=None, unroll=6):
        I = self.ctx.interp(unroll=unroll, model=kmap.model)
        I.given = given
        st = I.init_state()
        kmap.empty(I, st, self.map)
        for k, es in g.items():
            kmap.add(I, st, self.map, k)
            v = self.item(k)
            st.store[('f', v, self.pose)] = P(k)
            C = ('f', v, self.con)
            st.store[('f', C, '#size')] = c(len(es))
            for j, (b, t) in enumerate(es):
                st.store[('f', ('[]', C, c(j)), 'first')] = c(b)
                st.store[('f', ('[]', C, c(j)), 'second')] = t
        f = self.p.one('ViewGraph::' + name)
        self.ctx.analysed.add(f.q)
        return f, I, I.run(f, this=THIS, args=args, state=st)

    def item(self, k):
        return ('f', kmap.elem(self.map, k), 'second')

    def read(self, I, st):
        r = {}
        for k in kmap.keys(st, self.map) or ():
            v = self.item(k)
            C = ('f', v, self.con)
            n = I.load(st, ('f', C, '#size'))
            es = []
            for j in range(n[1] if n[0] == 'c' else 0):
                e = ('[]', C, c(j))
                es.append((I.load(st, ('f', e, 'first')),
                           I.load(st, ('f', e, 'second'))))
            r[k] = (I.load(st, ('f', v, self.pose)), n, es)
        return r


def P(k):
    return ('ld', ('arg', 'pose%s' % k, 0))


def E(a, b):
    return ('ld', ('arg', 'edge%s_%s' % (a, b), 0))


def want(g):
    return {k: (P(k), c(len(es)), [(c(b), t) for b, t in es])
            for k, es in g.items()}


GRAPHS = [{}, {3: []}, {0: [(1, E(0, 1))], 1: []},
          {0: [(1, E(0, 1)), (4, E(0, 4))], 1: [(4, E(1, 4))], 4: []},
          {0: [(5, E(0, 5))], 5: [(6, E(5, 6)), (0, E(5, 0))], 6: []}]


def check(ctx):
    v = View(ctx)
    ctx.need(kmap.keys, 'maps')
    new = ('ld', ('arg', 'pose', 1))
    # vertices
    for g in GRAPHS:
        for k in sorted(set(list(g) + [2, 7])):
            f, I, outs = v.run('AddVertex', g, [c(k), ('&', ('arg', 'pose', 1))])
            exp = want(g)
            exp[k] = (new,) + (exp[k][1:] if k in exp else (c(0), []))
            for o in outs:
                if o.kind != 'ret':
                    ctx.bad('vertex', f.where(), 'adding a vertex ends in %s' %
                            o.kind, 'vertex/end')
                    continue
                got = v.read(I, o.st)
                ctx.require(got == exp, 'vertex', f.where(),
                            'adding vertex %d to %s: %s' % (
                                k, sorted(g), diff(got, exp)),
                            'vertex/%s' % ('known' if k in g else 'new'))
    # edges
    t = ('ld', ('arg', 't', 2))
    for g in GRAPHS[1:]:
        ks = sorted(g) + [9]
        for a, b in itertools.product(ks, ks):
            f, I, outs = v.run('AddEdge', g, [c(a), c(b), ('&', ('arg', 't', 2))])
            exp = want(g)
            if a in g and b in g:
                exp[a] = (exp[a][0], c(len(g[a]) + 1), exp[a][2] + [(c(b), t)])
            for o in outs:
                if o.kind != 'ret':
                    ctx.bad('edge', f.where(), 'adding an edge ends in %s' %
                            o.kind, 'edge/end')
                    continue
                got = v.read(I, o.st)
                ctx.require(got == exp, 'edge', f.where(),
                            'adding the edge %d -> %d to %s: %s' % (
                                a, b, sorted(g), diff(got, exp)),
                            'edge/%s%s' % (a in g, b in g))
    bounds(ctx, v)
    text(ctx, v)
    picture(ctx, v)


def diff(got, exp):
    if sorted(got) != sorted(exp):
        return 'vertices are %s, not %s' % (sorted(got), sorted(exp))
    for k in exp:
        if got[k][0] != exp[k][0]:
            return 'the pose of vertex %d is %s' % (k, T.show(got[k][0])[:80])
        if got[k] != exp[k]:
            return 'the edges of vertex %d are %s' % (
                k, [(T.show(a), T.show(b)[:40]) for a, b in got[k][2]])
    return 'as specified'


def bounds(ctx, v):
    """the bounds are the 2-vectors that follow the vertex positions"""
    f, I, outs = v.run('AddVertex', {}, [c(0), ('&', ('arg', 'pose', 1))])
    if len(v.vecs) != 2:
        return
    ctor = [g for g in v.p.fns.values()
            if g.q.endswith('ViewGraph::ViewGraph') and not g.params]
    ctx.need(ctor, 'the constructor of the view graph')
    J = ctx.interp()
    first = [o for o in J.run(ctor[0], this=THIS) if o.kind == 'ret']
    ctx.need(len(first) == 1, 'one way through the constructor')
    init = {}
    for n in v.vecs:
        for a in (0, 1):
            x = J.load(first[0].st, ('[]', fld(n), c(a)))
            try:
                init[n, a] = Num().num(x)
            except NoValue:
                init[n, a] = None
    lo = [n for n in v.vecs if init[n, 0] is not None and init[n, 0] > 1e300]
    hi = [n for n in v.vecs if n not in lo]
    ctx.require(len(lo) == 1 and len(hi) == 1, 'bounds-start', ctor[0].where(),
                'the lower bound starts above every position', 'bounds-start')
    if len(lo) != 1:
        return
    lo, hi = lo[0], hi[0]
    for a in (0, 1):
        # later additions: bounds already enclose something
        cases = [(1.0, 2.0, x) for x in (0.5, 1.0, 1.5, 2.0, 2.5)]
        cases += [(-2.0, -1.0, x) for x in (-3.0, -2.0, -1.5, -1.0, 5.0)]
        # first addition
        cases += [(init[lo, a], init[hi, a], x) for x in (-7.0, 0.0, 7.0)]
        for l, h, x in cases:
            over = {}
            for b in (0, 1):
                over[('[]', fld(lo), c(b))] = l if b == a else 0.0
                over[('[]', fld(hi), c(b))] = h if b == a else 9.0
                over[('[]', ('arg', 'pose', 1), ('pair', c(b), c(3)))] = \
                    x if b == a else 4.0
            n = Num(over=over)
            try:
                os_ = taken(outs, n)
            except Undecided as e:
                ctx.need(False, 'the order of position and bounds (%s)' % e)
            ctx.need(os_, 'a way to add a vertex')
            for o in os_:
                L = n.num(I.load(o.st, ('[]', fld(lo), c(a))))
                H = n.num(I.load(o.st, ('[]', fld(hi), c(a))))
                ctx.require(L <= x <= H and L <= l and H >= h, 'bounds',
                            f.where(), 'a vertex at %g with bounds %g..%g on '
                            'axis %d leaves bounds %g..%g' % (x, l, h, a, L, H),
                            'bounds')


def text(ctx, v):
    for g in GRAPHS[1:]:
        f, I, outs = v.run('SaveTextFile', g, None,
                           given=lambda a: 'is_open' in T.show(a) or None)
        n = 0
        for o in outs:
            if o.kind != 'ret':
                ctx.need(o.kind in ('throw', 'abort'), 'a followed text output')
                continue
            nums = []
            for e in o.events():
                if e.k == 'call' and e.n == 'operator<<' and e.args and \
                        e.obj and T.root(e.obj)[0] != 'g':
                    for x in e.args[-1:]:
                        nums += printed(x)
            exp = []
            for k in sorted(g):
                exp.append(k)
                exp += [b for b, t in g[k]]
            n += 1
            ctx.require(nums == exp, 'text', f.where(), 'the text output of a '
                        'graph with vertices and edges %s names %s' % (exp, nums),
                        'text')
        ctx.need(n, 'a way to write the text output')


def printed(t):
    """numbers in a printed text, in order"""
    import re
    r, buf = [], ''
    for kd, x in parts(t):
        if kd == 'lit':
            buf += x
        elif kd == 'var' and x[0] == 'c':
            buf += str(x[1])
        else:
            buf += '?'
    return [int(x) for x in re.findall(r'-?\d+', buf)]


def picture(ctx, v):
    for g in GRAPHS[2:]:
        f, I, outs = v.run('SaveImage', g, None)
        exp = sorted((a, b) for a in g for b, t in g[a])
        k = 0
        for o in outs:
            if o.kind != 'ret':
                ctx.need(o.kind in ('throw', 'abort'), 'a followed picture')
                continue
            k += 1
            lines = []
            for e in o.events():
                if e.k == 'call' and e.n == 'draw_line' and len(e.args) >= 4:
                    lines.append((ends(e.args[:4], g), e))
            got = sorted(x for x, e in lines if x)
            ctx.require(got == exp and len(lines) == len(exp), 'picture',
                        lines[0][1].where if lines else f.where(),
                        'the picture of a graph with edges %s shows %s' % (
                            exp, [x or '?' for x, e in lines]), 'picture')
        ctx.need(k, 'a way to draw the picture')


def ends(args, g):
    """the vertices whose positions a drawn line joins: each end must depend on
    exactly one vertex position, in both image coordinates"""
    r = []
    for x, y in (args[:2], args[2:]):
        who = set()
        for t, axis in ((x, 0), (y, 1)):
            s = {k for k in g if dep(t, k, axis)}
            if len(s) != 1 or any(dep(t, k, 1 - axis) for k in g):
                return None
            who |= s
        if len(who) != 1:
            return None
        r.append(who.pop())
    return tuple(r)


def dep(t, k, axis):
    """does t change with vertex k's position on the axis"""
    loc = ('arg', 'pose%s' % k, 0)
    cell = ('[]', loc, ('pair', c(axis), c(3)))
    try:
        a = Num(over={cell: 10.0, ('arg', 'resolution', 1): 0.05}).num(t)
        b = Num(over={cell: 250.0, ('arg', 'resolution', 1): 0.05}).num(t)
    except NoValue:
        return False
    return a != b
