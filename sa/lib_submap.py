"""Submaps, frames and matchers as objects with plain attributes."""
from . import terms as T
from .interp import Ev
from .num import Num, NoValue
from .terms import c

CLS = ('static_map::Submap', 'static_map::FrameBase', 'static_map::Frame')
MATCHER = 'static_map::registrator::Interface'
ATTR = {'GlobalPose': 'SetGlobalPose', 'LocalPose': 'SetLocalPose',
        'TransformToNext': 'SetTransformToNext',
        'TransformFromLast': 'SetTransformFromLast'}
SETS = {v: k for k, v in ATTR.items()}


class Objects:
    """model: getters read an attribute, setters write it, nothing else of the
    object changes"""

    def __init__(self, tasks=False, flag='GotMatchedToNext', more=(),
                 quiet=()):
        self.tasks, self.flag, self.more = tasks, flag, more
        self.quiet = quiet

    def obj(self, I, fn, st, n):
        if n.get('arrow'):
            v = I.ptr(fn, st, n['obj'])
            return canon(I.deref(v))
        return canon(I.lloc(fn, st, n['obj']))

    def __call__(self, I, fn, fr, i, n, st):
        f = n.get('fn') or {}
        q, nm, cls = f.get('q', ''), f.get('n', ''), f.get('c', '')
        if n['k'] == 'ctor' and cls.endswith(('MemoryManager', 'ThreadPool')):
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls, frame=fr,
                        args=tuple(I.rvalue(fn, st, a) for a in n['a'])))
            return I.set(st, i, I.fresh())
        if n['k'] != 'call':
            return None
        if nm == 'enqueue' and self.tasks:
            vs = tuple(I.rvalue(fn, st, a) for a in n['a'])
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls, frame=fr, args=vs))
            if len(vs) == 1 and vs[0][0] == 'lam':
                r = I.call_lambda(fn, fr, i, st, vs[0], [])
                if r is not None:
                    for s, _ in r:
                        I.ev(s, Ev('call', fn, i, q='task end', n='task end',
                                   args=vs, frame=fr))
                    return I.finish(fn, i, n, r)
            return I.set(st, i, I.fresh())
        if nm in self.quiet:
            I.ev(st, Ev('call', fn, i, q=q, n=nm, c=cls, frame=fr, args=tuple(
                I.rvalue(fn, st, a) for a in n['a'])))
            return I.set(st, i, ('void',))
        if q == 'static_map::common::NormalizeRotation':
            L = I.lloc(fn, st, n['a'][0])
            I.store(st, L, ('normalised', I.load(st, L)), quiet=True)
            return I.set(st, i, ('void',))
        if n.get('obj') is None:
            return None
        if cls in CLS or cls == MATCHER or cls in self.more:
            o = self.obj(I, fn, st, n)
            vs = tuple(I.rvalue(fn, st, a) for a in n['a'])
            e = Ev('call', fn, i, q=q, n=nm, c=cls, obj=o, args=vs, frame=fr)
            I.ev(st, e)
            if nm in SETS:
                I.store(st, ('f', o, '#' + SETS[nm]), vs[0], quiet=True)
                return I.set(st, i, ('void',))
            if nm == 'SetMatchedTransformedToNext':
                I.store(st, ('f', o, '#TransformToNext'), vs[0], quiet=True)
                return I.set(st, i, ('void',))
            if nm == 'Align' and len(n['a']) == 2:
                L = I.lloc(fn, st, n['a'][1])
                k = I.fresh()[1]
                I.store(st, L, ('aligned', c(k)), quiet=True)
                I.store(st, ('f', o, '#score'), ('scored', c(k)), quiet=True)
                e.res = ('res', I.fresh()[1], 'Align')
                return I.set(st, i, e.res)
            if nm == 'GetFitnessScore':
                return I.set(st, i, I.load(st, ('f', o, '#score')))
            if nm in ATTR:
                e.res = I.load(st, ('f', o, '#' + nm))
                return I.set(st, i, e.res)
            if nm == self.flag:
                return I.set(st, i, ('at', I.fresh()[1], ('f', o, '#flag')))
            if nm == 'GetFrames':
                return I.set(st, i, ('&', ('f', o, '#frames')))
            if nm == 'GetId':
                return I.set(st, i, ('ld', ('f', o, 'id_')))
            if f.get('ret') == 'void' or n.get('t') is None:
                return I.set(st, i, ('void',))
            return I.set(st, i, ('ld', ('f', o, '#' + nm)))
        return None


def canon(l):
    """without the detours of reading a pointer back"""
    if not isinstance(l, tuple):
        return l
    if l[0] in ('f', '[]', 'el') and isinstance(l[1], tuple):
        return (l[0], canon(l[1])) + l[2:]
    while l[0] == '*' and isinstance(l[1], tuple) and l[1][0] == 'ld' and \
            l[1][1][0] == '*':
        l = l[1][1]
    return l


def same(a, b, rigid=True, over=None):
    """equal as 4x4 transforms, whatever the symbols stand for"""
    try:
        for seed in (1, 2, 3):
            n = Num(over=dict(over or {}), seed=seed, rigid=rigid,
                    shapes={'inner': 4})
            x, y = n.mat(n.val(clean(a))), n.mat(n.val(clean(b)))
            if max(abs(x(r, q) - y(r, q)) for r in range(4)
                   for q in range(4)) > 1e-6:
                return False
        return True
    except NoValue:
        return clean(a) == clean(b)


def clean(t):
    """values read back through a reference to a temporary"""
    if not isinstance(t, tuple):
        return t
    t = tuple(clean(x) for x in t)
    if len(t) == 2 and t[0] == 'ld' and isinstance(t[1], tuple) and t[1] and \
            t[1][0] == '*' and isinstance(t[1][1], tuple) and t[1][1][0] in (
                'inv', 'mm', 'I', 'cell', 'call', 'ld', 'aligned', 'normalised'):
        return t[1][1]
    return t
