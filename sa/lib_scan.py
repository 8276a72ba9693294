"""The scan matching loop, path by path."""
from . import terms as T
from .ir import Program
from .num import Num, NoValue, close, Mat
from .paths import THIS, fld, ld, truth_of
from .terms import c, NULL

OPAQUE = ('Instance', 'RotationMatrixToEulerAngles', 'CalculateNormals',
          'SimpleTimer', 'SetInnerCloud', 'GetNewCloud', 'PrintTransform',
          'AverageTransforms')
IPD = 'static_map::data::InnerPointCloudData'


def compensators(p):
    """functions that take a cloud, a motion and an output cloud"""
    r = []
    for f in p.fns.values():
        if len(f.params) != 3 or f.nocfg:
            continue
        t = [f.ty(x['t']) for x in f.params]
        if 'InnerCloudType' in t[0] and 'Matrix' in t[1] and \
                'InnerCloudType *' in t[2].replace('*const', '*'):
            r.append(f)
    return r


class Iter:
    """one way through the loop body"""

    def __init__(self, I, o, lev, evs, finished=True):
        self.I, self.o, self.evs, self.lev = I, o, evs, lev
        self.syms = dict(lev.val)           # loop variable -> value at the head
        self.new = next((e for e in evs if e.k == 'call' and
                         e.n == 'GetNewCloud'), None)
        self.src = None
        self.built = None
        if self.new is not None and self.new.res is not None:
            for e in evs:
                if e.k == 'call' and e.n == 'InnerPointCloudData' and \
                        e.args and e.args[0] == self.new.res:
                    self.built = e
                if e.k == 'new' and e.loc and self.built is not None and \
                        self.src is None:
                    self.src = e.loc
        self.align = [e for e in evs if e.k == 'call' and e.n == 'Align']

    def calls(self, *names):
        return [e for e in self.evs if e.k == 'call' and e.n in names]

    def cond(self, t):
        return truth_of(self.o.st.pc, t)

    def end(self, loc):
        return self.I.full(self.o.st, loc)

    def keyframes(self):
        """[(frame object, {setter: event}, event)] pushed on the frame list"""
        r = []
        for e in self.evs:
            if e.k == 'call' and e.n in ('push_back', 'emplace_back', 'grow_by') \
                    and e.obj and e.obj[0] == 'f' and e.obj[2] == 'frames_':
                v = e.args[0] if e.args else None
                if v and v[0] == '&':
                    s = {}
                    for x in self.evs:
                        if x.k == 'call' and x.obj == v[1]:
                            s[x.n] = x
                    r.append((v[1], s, e))
                else:
                    r.append((v, {}, e))
        return r


def analyse(ctx):
    # only this unit: calls into other classes stay visible as calls
    whole, p = ctx.prog, Program(['builder/map_builder.cc'])
    f = p.one('static_map::MapBuilder::ScanMatchProcessing')
    comp = compensators(p)
    ctx.prog = p
    I = ctx.interp(opaque=OPAQUE + tuple({x.n for x in comp}),
                   effects={}, unroll=4)
    ctx.prog = whole
    outs = I.run(f)
    loops = {}
    for o in outs:
        for e in o.events():
            if e.k == 'loop' and any(x.k == 'call' and x.n == 'GetNewCloud'
                                     for x in o.events()):
                loops.setdefault(id(e), e)
                break
    its = []
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if id(e) in loops:
                if o.kind == 'back' and o.x == e.x:
                    its.append(Iter(I, o, e, evs[k + 1:]))
                break
    ctx.need(its, 'the scan matching loop')
    return f, I, outs, its, comp
