"""Text-valued terms as sequences of literal and printed parts."""
from . import terms as T


def parts(t):
    """[('lit', text) | ('var', term) | ('text', term)]; adjacent literals are
    joined"""
    out = []

    def go(t):
        if t[0] == 'c' and isinstance(t[1], str):
            out.append(('lit', t[1]))
        elif t[0] == 'c':
            out.append(('lit', str(t[1])))
        elif t[0] == 'call' and t[1] == 'concat':
            for x in t[2:]:
                go(x)
        elif t[0] == 'call' and t[1] == 'to_string':
            out.append(('var', t[2]))
        elif t[0] == 'call' and t[1] == 'stream.str':
            stream(t[2])
        elif t[0] == 'op' and t[1].startswith('narrow'):
            out.append(('text', t))
        else:
            out.append(('text', t))

    def stream(t):
        if t[0] == 'call' and t[1] == 'stream<<':
            stream(t[2])
            x = t[3]
            if x[0] == 'c' or x[0] == 'call' and x[1] in (
                    'concat', 'to_string', 'stream.str'):
                go(x)
            else:
                out.append(('var', x))
        elif t[0] == 'obj':
            for x in t[3:]:
                go(x)
        else:
            out.append(('text', t))
    go(t)
    r = []
    for p in out:
        if p[0] == 'lit' and r and r[-1][0] == 'lit':
            r[-1] = ('lit', r[-1][1] + p[1])
        elif p != ('lit', ''):
            r.append(p)
    return r


def vars_of(ps):
    return [p[1] for p in ps if p[0] == 'var']


def injective(ps, want):
    """the printed integers in want are all recoverable from the text: each is
    printed, and two neighbouring printed parts are separated by a literal
    that no integer contains"""
    if [v for v in vars_of(ps) if v in want] == [] or \
            any(w not in vars_of(ps) for w in want):
        return 'a part of the identifier is missing'
    for a, b in zip(ps, ps[1:]):
        if a[0] == 'var' and b[0] == 'var':
            return 'two parts are printed without a separator'
        if a[0] == 'lit' and b[0] == 'var' and a != ps[0] and (
                not a[1].strip('0123456789')):
            return 'two parts are separated by digits only'
    return None


def show(ps):
    return ''.join(p[1] if p[0] == 'lit' else '<%s>' % T.show(p[1]) for p in ps)
