"""Filter chains."""
import re
from .. import terms as T
from ..paths import THIS, fld, ld
from ..ir import base
from ..terms import c, NULL

NAMES = ['axis_range', 'bounding_box', 'ground_removal', 'ground_removal2',
         'random_sample', 'range', 'range_image', 'statistic_removal',
         'voxel_grid']
SRCS = ['pre_processors/filter_factory.cc', 'pre_processors/filter_interface.cc',
        'builder/submap.cc', 'builder/map_builder.cc',
        'builder/data/data_collector.cc'] + \
    ['pre_processors/filter_%s.cc' % n for n in NAMES]
EXPLAIN = '''
The constructors of all filters, the registration of the factory and the table
of names are evaluated to tables: parameter name -> member and storage type,
filter name -> class created, class -> name.  They are compared with each other
and with the types of the members.  One iteration of reading a parameter and of
reading a filter is followed on every path.  The chain is followed for chains of
up to three filters, with every filter either passing points on or removing all
of them, and the origin of the final points and time stamp is read off.  Every
place in the program that configures a filter by text or by parameter name is
compared with the tables.
'''
ASSUME = ['XML is read by pugixml as documented',
          'the input of a chain is not empty',
          'each filter writes its output cloud, with the stamp of its input '
          '(decided here for the stamp, P11 for the points)']
MIN_OBLIGATIONS = 80
NS = 'static_map::pre_processers::filter::'
KIND = {0: ('int', 'int32_t'), 1: ('float',)}


def check(ctx):
    p = ctx.prog
    tab = names(ctx)
    classes = sorted(q for q in p.derived(NS + 'Interface')
                     if q.startswith(NS) and q != NS + 'Factory')
    ctx.need(len(classes) >= 9, 'the filter classes')
    params = {q: parameters(ctx, q) for q in classes}
    registration(ctx, tab)
    for q in classes:
        instance(ctx, q)
        stamp(ctx, q)
    read_param(ctx, p.one(NS + 'Interface::InitFromXmlNode'))
    read_filters(ctx, p.one(NS + 'Factory::InitFromXmlNode'))
    for n in range(4):
        for empties in range(n + 1):
            chain(ctx, p.one(NS + 'Factory::Filter'), n,
                  empties if empties < n else None)
    uses(ctx, params, tab)


# ------------------------------------------------------------------ tables
def names(ctx):
    """class -> reported name, from the initialiser of the table"""
    g = ctx.prog.globals.get(NS + 'kFilterNameMap')
    ctx.need(g, 'the table of filter names')
    nodes, ty = g['nodes'], g['tu'].types
    tab = {}

    def under(i, k):
        n = nodes[i]
        if n['k'] == k:
            yield n
        for x in (n.get('a') or []) + [n[y] for y in ('e', 'obj', 'b')
                                       if isinstance(n.get(y), int)]:
            yield from under(x, k)
    for i, n in enumerate(nodes):
        if n['k'] == 'ctor' and (n.get('fn') or {}).get('n') == 'pair' or \
                n['k'] == 'init' and len(n.get('a', [])) == 2:
            t = [x for x in under(i, 'typeid')]
            s = [x for x in under(i, 'str')]
            if len(t) == 1 and len(s) == 1 and 'at' in t[0]:
                tab[base(ty[t[0]['at']])] = s[0]['v']
    ctx.need(tab, 'entries of the table of filter names')
    return tab


def parameters(ctx, q):
    """name -> member of the filter, from its constructor"""
    p = ctx.prog
    cls = q.split('::')[-1]
    fs = [f for f in p.find(q + '::' + cls) if not f.params and not f.nocfg]
    ctx.need(len(fs) == 1, 'the constructor of ' + q)
    f = fs[0]
    I = ctx.interp()
    I.this_class = q
    rec = p.records[q]
    ft = {}
    todo = [rec]
    while todo:
        r = todo.pop()
        for x in r['fields']:
            ft.setdefault(x['n'], r['tu'].types[x['t']])
        todo += [p.records[b] for b in p.bases(r) if b in p.records]
    out = {}
    for o in I.run(f):
        if o.kind != 'ret':
            ctx.bad('params', f.where(), 'constructing %s fails' % q, 'ctor')
            continue
        seen = {}
        for e in o.events():
            if e.k != 'call' or e.obj != fld('name_to_param_') or \
                    e.n not in ('emplace', 'insert', 'operator[]'):
                continue
            m = re.search(r"'strlit', '([^']*)'|'c', '([^']*)'", repr(e.args))
            name = m and (m.group(1) or m.group(2))
            sub = {}
            for t in T.walk(('x',) + tuple(e.args)):
                if t[0] == 'rec':
                    for sel, v in t[2]:
                        sub[sel[1]] = v
            if name is None or 'target' not in sub or 'type' not in sub:
                ctx.need(False, 'the parameter registered at ' + e.where)
            tgt, kind = sub['target'], T.num(sub['type'])
            mem = tgt[1][2] if tgt[0] == '&' and tgt[1][0] == 'f' and \
                tgt[1][1] == THIS else None
            if not ctx.require(mem in ft, 'params', e.where, '%s: parameter '
                               '"%s" does not write a setting of the filter' % (
                                   q, name), 'param/target'):
                continue
            ctx.require(ft[mem] in KIND.get(kind, ()), 'params', e.where, '%s: '
                        'parameter "%s" writes a member of type %s with another '
                        'storage type' % (q, name, ft[mem]), 'param/type')
            ctx.require(name not in seen, 'params', e.where, '%s: parameter '
                        '"%s" is registered twice' % (q, name), 'param/twice')
            ctx.require(mem not in seen.values(), 'params', e.where, '%s: two '
                        'parameters write %s' % (q, mem), 'param/shared')
            if name + '_' in ft:
                ctx.require(mem == name + '_', 'params', e.where, '%s: '
                            'parameter "%s" writes %s' % (q, name, mem),
                            'param/setting')
            seen[name] = mem
        out = seen
        for m, t in ft.items():
            if t in ('float', 'int', 'int32_t') and m.endswith('_'):
                v = I.load(o.st, fld(m))
                if m in seen.values():
                    ctx.require(v != ('ld', fld(m)), 'params', f.where(),
                                '%s: %s has no default' % (q, m), 'param/init')
    return out


def registration(ctx, tab):
    p = ctx.prog
    f = p.one(NS + 'Factory::RegisterSupportedFilters')
    I = ctx.interp()
    for o in I.run(f):
        reg = {}
        for e in o.events():
            if e.k == 'call' and e.obj == fld('supported_filters_') and \
                    e.n in ('emplace', 'insert', 'operator[]'):
                m = re.search(r"'strlit', '([^']*)'|'c', '([^']*)'", repr(e.args))
                name = m and (m.group(1) or m.group(2))
                cl = [base(t[2]) for t in T.walk(('x',) + tuple(e.args))
                      if t[0] == 'heap']
                if e.n == 'operator[]':
                    cl = [base(t[2]) for w in o.events() if w.k == 'write' and
                          T.is_prefix(e.obj, w.loc) and T.has(w.loc, e.args[0])
                          for t in T.walk(w.val) if t[0] == 'heap']
                ctx.need(name and len(cl) == 1, 'the filter registered at ' +
                         e.where)
                cl = cl[0]
                ctx.require(name not in reg, 'names', e.where, 'two filters '
                            'are registered as "%s"' % name, 'name/twice')
                ctx.require(cl == NS + name, 'names', e.where, '"%s" creates %s'
                            % (name, cl), 'name/class')
                ctx.require(tab.get(cl) == name, 'names', e.where, '%s is '
                            'registered as "%s" but reports "%s", so its '
                            'parameters are not read' % (cl, name, tab.get(cl)),
                            'name/report')
                reg[name] = cl
        for q in p.derived(NS + 'Interface'):
            if q.startswith(NS) and q != NS + 'Factory':
                ctx.require(q in reg.values(), 'names', f.where(), '%s cannot '
                            'be created by name' % q, 'name/missing')


def instance(ctx, q):
    f = ctx.prog.one(q + '::CreateNewInstance')
    I = ctx.interp()
    I.this_class = q
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        ok = o.val[0] == '&' and o.val[1][0] == 'heap' and \
            base(o.val[1][2]) == q
        ctx.require(ok, 'create', f.where(), '%s creates %s instead of a new '
                    'object of its own class' % (f.q, T.show(o.val)[:60]),
                    'create')


def stamp(ctx, q):
    """the output of each filter has the stamp of its input"""
    f = ctx.prog.one(q + '::Filter')
    a = ('arg', f.params[0]['n'], 0)
    out = ('*', ld(a))
    inp = ('*', ld(fld('inner_cloud_')))
    fns = [g.n for g in ctx.prog.fns.values()
           if g.q.startswith(q + '::') and g.n not in (
               'Filter', 'FilterPrepare')]
    I = ctx.interp(opaque=tuple(fns) + ('enqueue', 'ThreadPool'))
    I.this_class = q
    n = 0
    for o in I.run(f):
        if o.kind != 'ret':
            continue
        if o.st.pc.get(T.cmp('==', NULL, ld(fld('inner_cloud_')))) or \
                o.st.pc.get(T.cmp('==', NULL, ld(a))):
            continue
        n += 1
        v = I.full(o.st, fld('stamp', out))
        ctx.require(v == ld(fld('stamp', inp)), 'stamp', f.where(), '%s: the '
                    'output has the time stamp %s' % (f.q, T.show(v)[:60]),
                    'filter/stamp')
    ctx.need(n, 'paths of ' + f.q)


# ----------------------------------------------------------------- reading
def read_param(ctx, f):
    I = ctx.interp()
    n = {0: 0, 1: 0}
    for o in I.run(f):
        if o.kind != 'back':
            continue
        es = last_iter(o, f)
        w = [e for e in es if e.k == 'write' and
             T.has(e.loc, fld('name_to_param_'))]
        where = es[0].where if es else f.where()
        if not ctx.require(len(w) == 1, 'read', where, '%s: a parameter is '
                           'accepted without being stored' % f.q, 'read/store'):
            continue
        w = w[0]
        attr = lambda s: [t for t in T.walk(w.loc) if t == c(s)]
        ctx.require(attr('name'), 'read', w.where, '%s: the setting is not '
                    'chosen by the name of the parameter' % f.q, 'read/name')
        txt = {str(t[1]).split('::')[-1] for t in T.walk(w.val)
               if t[0] == 'call'}
        kind = None
        for t, pol in o.st.pc.items():
            if pol and t[0] == '==' and 'type' in repr(t) and \
                    any(x == c('type') for x in T.walk(t)):
                kind = [T.num(x) for x in t[1:] if T.num(x) is not None]
                kind = kind and kind[0]
        if kind is None:
            ctx.bad('read', w.where, '%s: a parameter without a known type is '
                    'accepted' % f.q, 'read/type')
            continue
        n[kind] = n.get(kind, 0) + 1
        if kind == 1:
            ctx.require(txt & {'as_float', 'as_double'}, 'read', w.where,
                        '%s: a decimal parameter is not read as a decimal '
                        'number' % f.q, 'read/float')
        else:
            ctx.require(kind == 0 and txt & {'as_int', 'as_llong', 'as_float',
                                             'as_double'}, 'read', w.where,
                        '%s: a parameter of type %s is accepted' % (f.q, kind),
                        'read/int')
    ctx.need(n[0] and n[1], 'both parameter types are read')


def last_iter(o, f):
    es = []
    for e in o.events():
        if e.k == 'loop' and e.fn == f:
            es = []
        else:
            es.append(e)
    return es


def read_filters(ctx, f):
    I = ctx.interp(opaque=('InitFromXmlNode', 'CreateNewInstance'))
    fl = fld('filters_')
    done = 0
    for o in I.run(f):
        if o.kind != 'back':
            continue
        es = last_iter(o, f)
        adds = [e for e in es if e.k == 'call' and e.obj == fl and e.n in (
            'push_back', 'emplace_back', 'insert', 'emplace')]
        other = [e for e in es if e.k == 'call' and e.obj == fl and e.n in (
            'clear', 'erase', 'pop_back', 'swap', 'resize')]
        ctx.require(not other, 'order', f.where(), '%s: filters read before '
                    'are changed' % f.q, 'order/keep')
        back = [e for e in es if e.k == 'call' and e.n in (
            'previous_sibling', 'last_child')]
        ctx.require(not back, 'order', f.where(), '%s does not read the filters '
                    'in file order' % f.q, 'order/dir')
        news = [e for e in es if e.k == 'call' and e.n == 'CreateNewInstance']
        if not adds:
            unknown = any(pol and t[0] == '==' and has_find(t)
                          for t, pol in o.st.pc.items()) or any(
                pol and t[0] == '==' and any(x[0] == 'call' and x[1] == 'count'
                                             for x in T.walk(t))
                for t, pol in o.st.pc.items())
            ctx.require(unknown, 'order', f.where(), '%s: a supported filter is '
                        'left out' % f.q, 'order/skip')
            continue
        done += 1
        ctx.require(len(adds) == 1 and adds[0].n in (
            'push_back', 'emplace_back'), 'order', f.where(), '%s: a filter is '
            'not added once at the end' % f.q, 'order/end')
        ok = len(news) == 1 and adds[0].args[0] == news[0].res
        ctx.require(ok, 'order', adds[0].where, '%s: the filter added is not a '
                    'new one' % f.q, 'order/new')
        if not ok:
            continue
        t = news[0].obj
        ctx.require(T.has(t, fld('supported_filters_')) and T.has(
            t, c('name')), 'order', news[0].where, '%s: the filter is not '
            'chosen by its name in the file' % f.q, 'order/name')
        init = [e for e in es if e.k == 'call' and e.n == 'InitFromXmlNode' and
                e.obj == ('*', news[0].res)]
        ctx.require(len(init) == 1, 'order', f.where(), '%s: the parameters of '
                    'the filter are not read' % f.q, 'order/init')
    ctx.need(done, 'an iteration that adds a filter')


def has_find(t):
    return any(x[0] == 'find' or x[0] == 'call' and x[1] == 'find'
               for x in T.walk(t))


# ------------------------------------------------------------------- chain
def chain(ctx, f, n, empties):
    bad = []

    def model(I, fn, frame, i, nd, st):
        cal = nd.get('fn') or {}
        if nd['k'] != 'call' or nd.get('obj') is None or cal.get('n') not in (
                'SetInputCloud', 'Filter'):
            return None
        if nd.get('arrow'):
            obj = I.deref(I.ptr(fn, st, nd['obj']))
        else:
            obj = I.lloc(fn, st, nd['obj'])
        if obj == THIS:
            return None
        a = I.rvalue(fn, st, nd['a'][0])
        if cal['n'] == 'SetInputCloud':
            I.store(st, ('f', obj, '#in'), a, quiet=True)
            return I.set(st, i, ('void',))
        k = number(obj)
        inp = I.load(st, ('f', obj, '#in'))
        if k is None or inp is None or inp[0] not in ('&', 'ld') or \
                a[0] not in ('&', 'ld'):
            bad.append((fn.where(i), 'filter %s is applied to %s' % (
                T.show(obj)[:40], T.show(inp)[:40])))
            return I.set(st, i, ('void',))
        src = inp[1] if inp[0] == '&' else ('*', inp)
        dst = a[1] if a[0] == '&' else ('*', a)
        if src == dst:
            bad.append((fn.where(i), 'a filter reads the cloud it writes'))
        size = T.num(I.load(st, ('f', fld('points', src), '#size')))
        order.append((k, size))
        if size is None:
            bad.append((fn.where(i), 'a filter is applied to an unknown cloud'))
        if size == 0:
            return I.set(st, i, ('void',))     # does nothing
        v = I.full(st, ('[]', fld('points', src), c(0)))
        sm = I.full(st, fld('stamp', src))
        pts = fld('points', dst)
        for l in [l for l in st.store if T.is_prefix(pts, l) and l != pts]:
            del st.store[l]
        I.store(st, ('f', pts, '#size'), c(0 if k == empties else 1),
                quiet=True)
        if k != empties:
            I.store(st, ('[]', pts, c(0)), ('flt', c(k), v), quiet=True)
        I.store(st, fld('stamp', dst), sm, quiet=True)
        return I.set(st, i, ('void',))

    order = []
    I = ctx.interp(unroll=8, model=model)
    I.this_class = NS + 'Factory'
    st = I.init_state()
    inp, out, slot = ('cloud', 'in'), ('cloud', 'out'), ('slot',)
    I.store(st, ('f', fld('filters_'), '#size'), c(n), quiet=True)
    for k in range(n):
        I.store(st, ('[]', fld('filters_'), c(k)), ('&', ('filter', k)),
                quiet=True)
    I.store(st, fld('inner_cloud_'), ('&', inp), quiet=True)
    I.store(st, ('f', fld('points', inp), '#size'), c(1), quiet=True)
    I.store(st, ('f', fld('points', out), '#size'), c(2), quiet=True)
    I.store(st, slot, ('&', out), quiet=True)
    what = 'a chain of %d filters%s' % (n, '' if empties is None else
                                        ' of which number %d removes all points'
                                        % (empties + 1))
    outs = [o for o in I.run(f, args=[('&', slot)], state=st)]
    rets = [o for o in outs if o.kind == 'ret']
    for w, m in dict.fromkeys(bad):
        ctx.bad('chain', w, '%s: in %s %s' % (f.q, what, m), 'chain/use')
    if not ctx.require(rets and len(rets) == len(outs), 'chain', f.where(),
                       '%s: %s does not return' % (f.q, what), 'chain/ret'):
        return
    for o in rets:
        size = T.num(I.load(o.st, ('f', fld('points', out), '#size')))
        want = 1 if empties is None else 0
        ctx.require(size == want, 'chain', f.where(), '%s: the output of %s has '
                    '%s points instead of %d' % (f.q, what, size, want),
                    'chain/size')
        if want:
            v = I.full(o.st, ('[]', fld('points', out), c(0)))
            w = ld(('[]', fld('points', inp), c(0)))
            for k in range(n):
                w = ('flt', c(k), w)
            ctx.require(v == w, 'chain', f.where(), '%s: the points of %s went '
                        'through %s' % (f.q, what, T.show(v)[:100]),
                        'chain/order')
        v = I.full(o.st, fld('stamp', out))
        ctx.require(v == ld(fld('stamp', inp)), 'chain', f.where(), '%s: the '
                    'output of %s does not have the time stamp of the input' % (
                        f.q, what), 'chain/stamp')
        for e in o.events():
            if e.k == 'write' and T.is_prefix(inp, e.loc):
                ctx.bad('chain', e.where, '%s: %s changes its input' % (
                    f.q, what), 'chain/input')
    ctx.count('chains', 1)


def number(obj):
    if obj[0] == 'filter':
        return obj[1]
    return None


# -------------------------------------------------------------------- uses
def uses(ctx, params, tab):
    """filters configured inside the program"""
    p = ctx.prog
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if '/test/' in f.file:
            continue
        for i, nd in f.calls():
            fn = nd.get('fn') or {}
            if nd.get('obj') is None or fn.get('n') not in (
                    'SetValue', 'InitFromXmlText'):
                continue
            x = nd['obj']
            while f.nodes[x]['k'] == 'cast':
                x = f.nodes[x]['e']
            q = base(f.node_ty(x).replace('const ', '').rstrip('&* '))
            if q not in params:
                continue
            lits = texts(p, f, nd['a'][0], set())
            if fn['n'] == 'SetValue':
                for s in lits:
                    n += 1
                    ctx.require(s in params[q], 'configured', f.where(i), '%s '
                                'sets "%s", which %s does not have' % (
                                    f.q, s, q), 'use/value')
                continue
            txt = ' '.join(lits)
            nm = re.search(r'<filter[^>]*name="([^"]*)"', txt)
            if nm:
                n += 1
                ctx.require(nm.group(1) == tab.get(q), 'configured', f.where(i),
                            '%s configures %s under the name "%s", so the '
                            'parameters are ignored' % (f.q, q, nm.group(1)),
                            'use/name')
            for m in re.finditer(r'<param([^>]*)>', txt):
                s = re.search(r'name="([^"]*)"', m.group(1))
                if s:
                    n += 1
                    ctx.require(s.group(1) in params[q], 'configured',
                                f.where(i), '%s sets "%s", which %s does not '
                                'have' % (f.q, s.group(1), q), 'use/param')
    ctx.need(n, 'filters configured inside the program')


def texts(p, f, i, seen):
    """string literals a text expression is made of, in order"""
    if (f.id, i) in seen:
        return []
    seen.add((f.id, i))
    n = f.nodes[i]
    if n['k'] == 'str':
        return [n['v']]
    out = []
    if n['k'] == 'ref':
        for d in f.nodes:
            if d['k'] == 'decl':
                for v in d['v']:
                    if v.get('d') == n.get('d') and isinstance(
                            v.get('e'), int):
                        out += texts(p, f, v['e'], seen)
        return out
    if n['k'] in ('call', 'ctor'):
        g = p.fns.get((n.get('fn') or {}).get('u'))
        if g is not None and not g.q.startswith('std::'):
            out += [x['v'] for x in g.nodes if x['k'] == 'str']
    kids = []
    if isinstance(n.get('obj'), int):
        kids.append(n['obj'])
    kids += [x for x in n.get('a') or [] if isinstance(x, int)]
    for k in ('e', 'b', 'l', 'r', 'x', 'lhs', 'rhs'):
        if k != 'l' and isinstance(n.get(k), int):
            kids.append(n[k])
    for k in kids:
        out += texts(p, f, k, seen)
    return out
