"""What start-up does with a configuration file whose entries are given."""
from . import terms as T
from .paths import fld

SRCS = ['builder/map_builder_options.cc', 'builder/map_builder.cc']
OPT = fld('options_')
ROOT = ('edward_liu', 'static_mapping')


def strip(t):
    while t[0] in ('ld', '*', '&') and isinstance(t[1], tuple):
        t = t[1]
    return t


def name(t):
    return str(t[1]).split('::')[-1] if t[0] == 'call' else None


def node(t):
    """the path of element names an XML node term stands for"""
    t = strip(t)
    if name(t) == 'child' and t[3][0] == 'c':
        p = node(t[2])
        return None if p is None else p + (t[3][1],)
    if name(t) in ('first_child', 'xml_node', 'internal_object'):
        return None
    if t[0] in ('hv', 'f', 'obj', 'arg', 'this'):
        return ()
    return None


def entry(t):
    """(element path, attribute) of an attribute term"""
    t = strip(t)
    if name(t) == 'attribute' and t[3][0] == 'c':
        p = node(t[2])
        return None if p is None else (p, t[3][1])
    return None


class Case:
    """a configuration file described by the entries it has"""

    def __init__(self, absent=(), only=None, sections_absent=(), source='file',
                 slash=False):
        self.absent = set(absent)
        self.only = only
        self.gone = set(sections_absent)
        self.source = source
        self.slash = slash
        self.asked = {}           # entries looked at
        self.nodes = {}
        self.unknown = []

    def has_node(self, p):
        self.nodes[p] = True
        if any(p[:len(g)] == g for g in self.gone):
            return False
        if p and p[-1] in ('registrator_options', 'inner_filters', 'filters'):
            return False
        if self.only is not None:
            q = self.only[0]
            return q[:len(p)] == p
        return True

    def has(self, e):
        self.asked[e] = True
        if not self.has_node(e[0]):
            return False
        if self.only is not None:
            return e == self.only
        return e not in self.absent

    def __call__(self, a):
        if a[0] == 'call':
            n = name(a)
            if n == 'empty':
                p = node(a[2])
                if p is not None:
                    return not self.has_node(p) if p else self.source != 'file'
            if n == 'good':
                return self.source != 'nofile'
            if n == 'CreateDir':
                return True
            if n == 'operator bool' and 'load_file' in repr(a):
                return self.source == 'file'
            if n == 'operator bool':
                return self.thing(a[2])
            return None
        if a[0] == '==':
            x, y = a[1], a[2]
            if x == ('c', None):
                v = self.thing(strip(y)[2]) if strip(y)[0] == 'call' and \
                    len(strip(y)) > 2 and 'xml_' in str(strip(y)[1]) else None
                if v is not None:
                    return not v
                if 'config_file_name' in repr(y):
                    return self.source == 'null'
            if x == ('c', 0) and 'config_file_name' in repr(y):
                return self.source == 'noname'
            for u, w in ((x, y), (y, x)):
                if u == ('c', 47) and w[0] != 'c':
                    if isinstance(self.slash, bool):
                        return self.slash
                    return any(t[0] == 'c' and t[1] in self.slash
                               for t in T.walk(w))
        return None

    def thing(self, t):
        e = entry(t)
        if e:
            return self.has(e)
        p = node(t)
        if p is not None and p:
            return self.has_node(p)
        return None


def run(ctx, case, inside=False, state=None, **kw):
    def model(I, fn, frame, i, n, st):
        f = n.get('fn') or {}
        if not inside and n['k'] == 'call' and f.get('n') == 'InitialiseInside':
            return I.set(st, i, ('c', 0))
        if n['k'] == 'call' and str(f.get('q')).endswith(
                'Factory::InitFromXmlNode'):
            return I.set(st, i, ('void',))
        return None
    I = ctx.interp(opaque=('CreateDir', 'CreateMatcher'), max_states=400,
                   model=model, **kw)
    I.given = case
    f = ctx.prog.one('static_map::MapBuilder::Initialise')
    if inside:
        ctx.prog.one('static_map::MapBuilder::InitialiseInside')
    return I, f, I.run(f, state=state)


def settings(I, st):
    """leaf settings that were written: location -> value"""
    out = {}
    for l, v in st.store.items():
        if l != OPT and T.is_prefix(OPT, l) and not any(
                m != l and T.is_prefix(l, m) for m in st.store):
            if v != ('ld', l):
                out[l] = v
    return out


def names_of(loc):
    r = []
    while loc != OPT:
        r.append(loc[2])
        loc = loc[1]
    return tuple(reversed(r))
