"""Configuration entries."""
import glob
import os
import xml.etree.ElementTree as ET
from .. import terms as T
from .. import lib_config as C
from .. import extract
from ..ir import base
from ..terms import c
from . import p13

SRCS = C.SRCS + [s for s in p13.SRCS if s not in C.SRCS]
EXPLAIN = '''
The reader is analysed as a function from a set of present entries to the
settings.  For a file with every entry the origin of each setting is read off
(element path, attribute, conversion) and compared with the section and name of
the setting and with its type.  Then each entry in turn is taken away, is the
only one present, and each section is taken away: exactly the settings belonging
to what is missing must keep their defaults.  All entries of the shipped
configuration files must be among those the reader asks for.
'''
ASSUME = ['attributes are looked up by name as pugixml documents',
          'where a setting has the name of the entry it is taken to be the '
          'documented one; a setting with another name is accepted for any '
          'entry of its section']
MIN_OBLIGATIONS = 300
READ = {'bool': ('as_bool',), 'int': ('as_int',), 'int32_t': ('as_int',),
        'float': ('as_float', 'as_double'), 'double': ('as_double',)}


def check(ctx):
    case = C.Case(slash=True)
    I, f, outs = C.run(ctx, case)
    rets = [o for o in outs if o.kind == 'ret']
    ctx.need(rets, 'a start-up that succeeds')
    full = common(ctx, I, f, rets)
    where = {}
    for o in rets:
        for e in o.events():
            if e.k == 'write' and T.is_prefix(C.OPT, e.loc):
                where[e.loc] = e.where
    origin = {}
    for l, v in sorted(full.items(), key=repr):
        one(ctx, l, v, where.get(l, f.where()), origin)
    ctx.need(len(origin) > 40, 'entries of the configuration')
    for e, ls in origin.items():
        ctx.require(len(ls) == 1, 'own', where[ls[0]], 'entry %s of %s writes '
                    'several settings: %s' % (e[1], '/'.join(e[0]),
                                              ', '.join(T.show(x) for x in ls)),
                    'own')
    read = {e for e in case.asked}
    for e in read - set(origin):
        if e[0][-1:] == ('registrator_options',):
            continue
        ctx.bad('effect', f.where(), 'entry %s of %s is looked up but sets '
                'nothing' % (e[1], '/'.join(e[0])), 'effect')
    sections = {e[0] for e in origin}
    for e, ls in sorted(origin.items()):
        absent(ctx, C.Case(absent=[e], slash=True), full, set(ls),
               'without entry %s of %s' % (e[1], '/'.join(e[0])), where)
        only(ctx, C.Case(only=e, slash=True), full, set(ls), 'with only entry '
             '%s of %s' % (e[1], '/'.join(e[0])), where)
    for s in sorted(sections | {s[:-1] for s in sections if len(s) > 3}):
        ls = {l for e, x in origin.items() if e[0][:len(s)] == s for l in x}
        absent(ctx, C.Case(sections_absent=[s], slash=True), full, ls,
               'without section %s' % '/'.join(s), where)
    matcher(ctx)
    shipped(ctx, set(origin), case)
    ctx.count('entries', len(origin))


def common(ctx, I, f, rets):
    r = [C.settings(I, o.st) for o in rets]
    for x in r[1:]:
        ctx.require(x == r[0], 'settings', f.where(), 'the settings read depend '
                    'on more than the entries', 'depends')
    return r[0]


def member_types(ctx, loc):
    """(type of the setting, members next to it)"""
    p = ctx.prog
    rec = p.record('static_map::MapBuilderOptions')
    names = C.names_of(loc)
    for i, n in enumerate(names):
        ft = {x['n']: (rec['tu'].types[x['t']], rec) for x in rec['fields']}
        if n not in ft:
            return None, ()
        t = ft[n][0]
        if i == len(names) - 1:
            return t, set(ft)
        q = base(t)
        if q not in p.records:
            cand = [r for k, r in p.records.items() if any(
                x['n'] == names[i + 1] for x in r['fields']) and
                q.split('(')[0].rstrip(':') in k]
            if len(cand) != 1:
                return None, ()
            rec = cand[0]
        else:
            rec = p.records[q]
    return None, ()


def one(ctx, l, v, where, origin):
    """where one setting comes from"""
    es = {C.entry(t) for t in T.walk(v) if C.name(t) == 'attribute'} - {None}
    nm = C.names_of(l)
    show = '.'.join(nm)
    if nm[-1] in ('inner_filters_node', 'registrator_options_node'):
        return
    if not ctx.require(len(es) == 1, 'origin', where, 'setting %s is read from '
                       '%d entries' % (show, len(es)), 'origin'):
        return
    e = es.pop()
    origin.setdefault(e, []).append(l)
    ctx.require(e[0][:2] == C.ROOT, 'section', where, 'setting %s is read '
                'outside the mapping section' % show, 'root')
    sec = e[0][2:]
    for i, n in enumerate(sec):
        around = member_types(ctx, nested(nm[:i + 1]))[1] if i < len(nm) else ()
        if n in around:
            ctx.require(nm[i] == n, 'section', where, 'setting %s is read from '
                        'section %s' % (show, '/'.join(sec)), 'section')
    ctx.require(len(sec) == len(nm) - 1, 'section', where, 'setting %s is read '
                'from section %s' % (show, '/'.join(sec)), 'section/depth')
    t, around = member_types(ctx, l)
    if e[1] in around:
        ctx.require(nm[-1] == e[1], 'name', where, 'setting %s is read from '
                    'entry %s' % (show, e[1]), 'name')
    conv = [C.name(x) for x in T.walk(v) if C.name(x) in (
        'as_bool', 'as_int', 'as_float', 'as_double', 'as_string', 'as_uint',
        'value', 'as_llong', 'as_ullong')]
    if t is None:
        return
    t = t.replace('const ', '')
    if 'string' in t:
        ok = conv and conv[0] in ('as_string', 'value')
    elif t in READ:
        ok = len(conv) == 1 and conv[0] in READ[t]
    else:
        ok = len(conv) == 1 and conv[0] == 'as_int'       # enumerations
    ctx.require(ok, 'type', where, 'setting %s of type %s is read with %s' % (
        show, t, conv), 'type')
    if t in READ or 'string' not in t:
        pure = strip_conv(v)
        ctx.require(C.name(pure) in ('as_bool', 'as_int', 'as_float',
                                     'as_double'), 'value', where, 'setting %s '
                    'is not the value of its entry but %s' % (
                        show, T.show(v)[:60]), 'value')


def strip_conv(v):
    while v[0] in ('fl', 'op', 'ite') and len(v) > 1:
        if v[0] == 'ite':
            return v
        v = v[-1] if v[0] == 'op' else v[1]
        if not isinstance(v, tuple):
            break
    return v


def nested(nm):
    l = C.OPT
    for n in nm:
        l = ('f', l, n)
    return l


def absent(ctx, case, full, ls, what, where):
    I, f, outs = C.run(ctx, case)
    for o in outs:
        if o.kind != 'ret':
            continue
        got = C.settings(I, o.st)
        for l in full:
            if l in ls:
                ctx.require(l not in got or not from_file(got[l]), 'default',
                            where.get(l, f.where()), '%s: setting %s does not '
                            'keep its default' % (what, T.show(l)), 'default')
            elif got.get(l) != full[l]:
                ctx.bad('other', where.get(l, f.where()), '%s: setting %s '
                        'changes' % (what, T.show(l)), 'other')
        ctx.ok('other', f.where(), what)


def from_file(v):
    return any(C.name(t) == 'attribute' for t in T.walk(v))


def only(ctx, case, full, ls, what, where):
    I, f, outs = C.run(ctx, case)
    for o in outs:
        if o.kind != 'ret':
            continue
        got = C.settings(I, o.st)
        for l, v in got.items():
            if l in ls:
                ctx.require(v == full[l], 'only', where.get(l, f.where()),
                            '%s: setting %s has another value than with all '
                            'entries' % (what, T.show(l)), 'only')
            elif from_file(v):
                ctx.bad('only', where.get(l, f.where()), '%s: setting %s '
                        'changes' % (what, T.show(l)), 'only/other')
        for l in ls:
            if l not in got:
                ctx.bad('only', where.get(l, f.where()), '%s: setting %s keeps '
                        'its default' % (what, T.show(l)), 'only/lost')


def matcher(ctx):
    """the options of a matcher are those of its own type"""
    case = C.Case(slash=True)
    hn = case.has_node
    case.has_node = lambda p: True if p and p[-1] in (
        'registrator_options', 'inner_filters') else hn(p)
    I, f, outs = C.run(ctx, case)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        for e in o.events():
            if e.k != 'write' or e.loc[0] != 'f' or \
                    not T.is_prefix(C.OPT, e.loc):
                continue
            nm = C.names_of(e.loc)
            if nm[-1] == 'inner_filters_node':
                n += 1
                p = C.node(e.val)
                ctx.require(p is not None and p[2:] == nm[:-1] + (
                    'inner_filters',), 'matcher', e.where, '%s is set to %s' % (
                        '.'.join(nm), p), 'matcher/filters')
            if nm[-1] != 'registrator_options_node':
                continue
            n += 1
            ty = ('f', e.loc[1], 'type')
            tv = o.st.store.get(ty)
            ok = False
            for a, pol in o.st.pc.items():
                if pol and a[0] == '==' and tv in a[1:]:
                    other = [x for x in a[1:] if x != tv]
                    if other and C.name(other[0]) == 'as_int':
                        at = C.strip(other[0][2])
                        if C.name(at) == 'attribute' and at[3] == c('type') \
                                and T.has(e.val, C.strip(at[2])):
                            ok = True
            ctx.require(ok, 'matcher', e.where, '%s is taken from options that '
                        'are not for the chosen type' % '.'.join(nm),
                        'matcher/type')
    ctx.need(n, 'options of the matchers')


def shipped(ctx, known, case):
    params = {}
    tab = p13.names(ctx)
    for q in ctx.prog.derived(p13.NS + 'Interface'):
        if q.startswith(p13.NS) and q != p13.NS + 'Factory' and q in tab:
            params[tab[q]] = p13.parameters(ctx, q)
    n = 0
    for fn in sorted(glob.glob(os.path.join(extract.REPO, 'config', '*.xml'))):
        rel = os.path.relpath(fn, extract.REPO)

        def walk(el, path):
            nonlocal n
            if el.tag == 'filter':
                nm = el.get('name')
                n += 1
                if ctx.require(nm in params, 'shipped', rel, 'filter %s is not '
                               'known' % nm, 'shipped/filter'):
                    for q in el.findall('param'):
                        n += 1
                        ctx.require(q.get('name') in params[nm] and
                                    q.get('type') in ('0', '1'), 'shipped', rel,
                                    'parameter %s of filter %s is not known' % (
                                        q.get('name'), nm), 'shipped/param')
                return
            if el.tag in ('registrator_options', 'param'):
                return
            for k in el.keys():
                n += 1
                ctx.require((path, k) in known, 'shipped', rel, 'entry %s of '
                            '%s is not read' % (k, '/'.join(path)),
                            'shipped/entry')
            for ch in el:
                if isinstance(ch.tag, str):
                    walk(ch, path + (ch.tag,))
        r = ET.parse(fn).getroot()
        walk(r, (r.tag,))
    ctx.need(n, 'shipped configuration files')
    ctx.count('shipped entries', n)
