"""P25: registration methods: creation, options, score and transform."""
from .. import terms as T
from ..ir import base

SRCS = ['registrators/interface.cc', 'registrators/ndt.cc',
        'registrators/ndt_gicp.cc', 'registrators/icp_fast.cc',
        'registrators/icp_pointmatcher.cc']
MIN_OBLIGATIONS = 60
TECH = ('path-sensitive dataflow over the matcher factory, constructors and '
        'alignments; provenance of clouds, transform and score')
EXPLAIN = (
    'The factory is analysed for every value of the matcher type: each path '
    'that returns a matcher must return a new object whose constructor '
    'leaves the requested type in it, every concrete matcher must be '
    'reachable, configuration is applied before the final initialisation '
    'and all other types give no matcher. Each registered option must point '
    'at a distinct member whose type is the registered one, and reading a '
    'parameter stores the value of that type through that pointer or stops '
    'for an unknown name. On every path of every alignment that reports '
    'success the transform and a score of the form exp(-distance) were '
    'written by this call, both obtained from the matcher that was aligned '
    'last with the source and target clouds in their roles, starting from '
    'the guess. With a missing cloud every path must report failure.')
ASSUME = [
    'the matchers of the point cloud libraries return a distance (zero for '
    'a perfect match) as fitness and the transform from source to target',
    'the middle factors of the iterative matcher (its accumulated steps) '
    'are not interpreted',
]
NS = 'static_map::registrator::'
THIS = ('this',)
NULL = ('c', None)
CTYPE = {0: ('int',), 1: ('float',), 2: ('bool',)}


def outside(f):
    return not f.file.startswith('registrators/') or 'pclomp' in f.file


def light(f):
    """helpers followed inside an alignment"""
    if outside(f):
        return False
    if f.cls and f.cls.startswith(NS):
        return True
    return not f.nocfg and len(f.nodes) < 400 and not f.analyse()[4]


def strip(t):
    while isinstance(t, tuple) and len(t) == 2 and t[0] == 'ld' and \
            isinstance(t[1], tuple) and t[1][0] == '*':
        t = t[1][1]
    return t


def factors(t):
    t = strip(t)
    if isinstance(t, tuple) and t and t[0] == 'mm':
        out = []
        for x in t[1:]:
            out += factors(x)
        return out
    return [t]


def is_inv(a, b):
    """a == inverse of b"""
    if a[0] in ('inv',) and strip(a[1]) == b:
        return True
    if T.inv(b) == a:
        return True
    return a[0] in ('call', 'op') and 'inv' in str(a[1]) and \
        strip(a[-1]) == b


def falling(v):
    """v is exp(-d): one for d = 0 and falling with d; returns d"""
    v = strip(v)
    if v[0] == 'call' and v[1] in ('exp', 'std::exp'):
        d = v[2]
    elif v[0] == 'op' and v[1] == 'exp':
        d = v[2]
    else:
        return None
    d = strip(d)
    if d[0] == 'lin' and d[2] == 0 and len(d[1]) == 1 and d[1][0][1] < 0:
        return d[1][0][0]
    return None


def matchers(ctx):
    p = ctx.prog
    out = []
    for r in p.records.values():
        if r['q'].startswith(NS) and any(
                base(b) == NS + 'Interface' for b in p.bases(r)):
            out.append(r)
    ctx.need(len(out) >= 4, 'concrete matchers')
    return sorted(out, key=lambda r: r['q'])


def built(ctx, r):
    """members after construction: (interpreter, outs, fn)"""
    fs = [f for f in ctx.prog.fns.values() if f.kind == 'ctor' and
          f.cls == r['q'] and not f.nocfg and
          not (len(f.params) == 1 and base(
              f.ty(f.params[0]['t']).rstrip('& ')) == r['q'])]
    ctx.need(bool(fs), 'constructor of %s' % r['q'])
    res = []
    for f in fs:
        I = ctx.interp(inline=lambda g: not outside(g), depth=4)
        res.append((I, I.run(f), f))
    return res


def check(ctx):
    p = ctx.prog
    enum = p.enums[NS + 'Type']
    vals = {x[0]: int(x[1]) for x in enum['vals']}
    ms = matchers(ctx)
    own = {}
    for r in ms:
        for I, outs, f in built(ctx, r):
            ctx.analysed.add(f.q)
            for o in outs:
                if o.kind != 'ret':
                    continue
                own.setdefault(r['q'], set()).add(
                    I.load(o.st, ('f', THIS, 'type_')))
            options(ctx, r, I, outs, f)
    factory(ctx, vals, ms, own)
    stores(ctx)
    for r in ms:
        align(ctx, r)


def options(ctx, r, I, outs, f):
    for o in outs:
        if o.kind != 'ret':
            continue
        reg = {}
        where = {}
        for e in o.events():
            if e.k != 'write' or e.loc[0] != 'f' or e.loc[2] not in (
                    'data_type', 'data_ptr') or e.loc[1][0] != '[]':
                continue
            reg.setdefault(e.loc[1][2], {})[e.loc[2]] = e.val
            where[e.loc[1][2]] = e.where
        used = {}
        for k, d in sorted(reg.items(), key=str):
            name = T.show(k)
            t, ptr = d.get('data_type'), d.get('data_ptr')
            ft = None
            if ptr is not None and ptr[0] == '&':
                ft = field_type(ctx, r, ptr[1])
            key = '%s:%s' % (r['q'].split('::')[-1], name)
            ctx.require(
                t is not None and ft is not None and t[0] == 'c' and
                ft in CTYPE.get(int(t[1]), ()), 'option.type', where[k],
                'option %s of %s is registered as kind %s but stored in a '
                '%s' % (name, r['q'], T.show(t) if t else None, ft),
                'optype:' + key)
            ctx.require(ptr not in used, 'option.distinct', where[k],
                        'options %s and %s of %s share a value' % (
                            name, used.get(ptr), r['q']), 'optshare:' + key)
            used[ptr] = name
        break


def field_type(ctx, r, loc):
    path = []
    while loc[0] == 'f':
        path.append(loc[2])
        loc = loc[1]
    if loc != THIS:
        return None
    cur = r
    t = None
    for n in reversed(path):
        if cur is None:
            return None
        x = [x for x in cur['fields'] if x['n'] == n]
        if not x:
            return None
        t = cur['tu'].types[x[0]['t']]
        cur = ctx.prog.records.get(t)
        if cur is None:
            c = [q for q in ctx.prog.records.values() if q['q'] == base(t) or
                 q['q'] == t]
            cur = c[0] if c else None
    return t


def factory(ctx, vals, ms, own):
    p = ctx.prog
    f = p.one(NS + 'CreateMatcher')
    ctx.analysed.add(f.q)
    names = {r['q'] for r in ms} | {NS + 'Interface'}
    I = ctx.interp(inline=lambda g: not outside(g) and g.cls not in names,
                   depth=4)
    outs = I.run(f)
    made = {}
    for name, v in sorted(vals.items(), key=lambda x: x[1]):
        tv = ('fld', ('ld', ('arg', 'options', 0)), ('f', 'type'))
        alts = (('ld', ('f', ('arg', 'options', 0), 'type')), tv)
        got = []
        for o in outs:
            if o.kind not in ('ret',):
                continue
            ok = True
            for x, pol in o.st.pc.items():
                y = ev(x, alts, v)
                if y is not None and y != pol:
                    ok = False
            if ok:
                got.append(o)
        classes = set()
        for o in got:
            cls, evs = product(I, o)
            classes.add(cls)
            if cls is not None:
                sequence(ctx, o, cls, evs, name)
        made[name] = classes
        real = classes - {None}
        key = 'type:' + name
        expect = {q for q, ts in own.items() if ts == {('c', v)}}
        if expect:
            ctx.require(classes == expect, 'factory.type', f.where(),
                        'type %s creates %s instead of %s' % (
                            name, sorted(map(str, classes)), sorted(expect)),
                        key)
        else:
            ctx.require(not real, 'factory.none', f.where(),
                        'type %s without a matcher of its own creates %s' % (
                            name, sorted(real)), key)
    for q, ts in sorted(own.items()):
        ctx.require(len(ts) == 1 and list(ts)[0][0] == 'c' and
                    int(list(ts)[0][1]) in vals.values(), 'matcher.type',
                    q, '%s reports type %s' % (q, [T.show(t) for t in ts]),
                    'own:' + q)
        ctx.require(any(q in c for c in made.values()), 'factory.reach',
                    f.where(), '%s cannot be created' % q, 'reach:' + q)


def ev(x, alts, v):
    if x[0] == '==':
        a, b = x[1], x[2]
        if a in alts:
            a, b = b, a
        if b in alts and a[0] == 'c':
            return int(a[1]) == v
    if x[0] == '<':
        a, b = x[1], x[2]
        if a in alts and b[0] == 'c':
            return v < b[1]
        if b in alts and a[0] == 'c':
            return a[1] < v
    return None


def product(I, o):
    """class created for the returned matcher (None: no matcher)"""
    v = o.val
    evs = o.events()
    if v is None or v == NULL:
        return None, evs
    if v[0] == '&' and v[1][0] == 'heap':
        return v[1][2], evs
    if v[0] in ('rec', 'obj', 'uninit'):
        return None, evs
    return T.show(v), evs


def sequence(ctx, o, cls, evs, name):
    pos = {}
    for i, e in enumerate(evs):
        if e.k in ('call', 'callin', 'enter') and e.n in (
                'InitWithXml', 'InitWithOptions'):
            pos.setdefault(e.n, []).append((i, e))
    f = ctx.prog.one(NS + 'CreateMatcher')
    given = None
    for x, pol in o.st.pc.items():
        s = T.show(x, -6)
        if 'registrator_options_node' in s and 'empty' in s:
            given = not pol
    xml = pos.get('InitWithXml', [])
    opt = pos.get('InitWithOptions', [])
    ctx.require(len(opt) == 1, 'factory.init', f.where(),
                'a matcher of type %s is initialised %d times' % (
                    name, len(opt)), 'init:' + name)
    if given is False:
        return
    ctx.require(len(xml) == 1 and (not opt or xml[0][0] < opt[0][0]) and
                'registrator_options_node' in T.show(
                    xml[0][1].args[0], -6), 'factory.options', f.where(),
                'the options of a matcher of type %s are not read before it '
                'is initialised' % name, 'xml:' + name)


def stores(ctx):
    p = ctx.prog
    f = p.one(NS + 'Interface::InitWithXml')
    ctx.analysed.add(f.q)
    I = ctx.interp(inline=lambda g: not outside(g), depth=4)
    outs = I.run(f)
    seen = set()
    for o in outs:
        kind = None
        known = None
        for x, pol in o.st.pc.items():
            s = T.show(x, -8)
            if x[0] == '==' and s.endswith('.data_type') and \
                    x[1][0] == 'c':
                if pol:
                    kind = int(x[1][1])
                    at = x[2]
            if 'count(inner_options_' in s or 'find(inner_options_' in s:
                known = pol
        ws = [e for e in o.events() if e.k == 'write' and
              T.root(e.loc) == THIS or (e.k == 'write' and
                                        e.loc[0] == '*')]
        if kind is None:
            for e in ws:
                if e.loc[0] == '*':
                    ctx.bad('param.kind', e.where, 'a parameter is stored '
                            'without regard to its kind', 'param.kind')
            continue
        seen.add(kind)
        want = {0: 'as_int', 1: 'as_float', 2: 'as_bool'}[kind]
        hits = [e for e in ws if e.loc[0] == '*']
        ok = len(hits) == 1
        if ok:
            e = hits[0]
            ok = e.loc[1] == ('ld', at[1][:2] + ('data_ptr',)) or \
                T.show(e.loc, -8).replace('.data_ptr', '') == \
                '*' + T.show(at, -8).replace('.data_type', '')
            v = T.show(e.val, -8)
            ok = ok and v.startswith(want + '(') and 'text(' in v
        ctx.require(ok, 'param.store', f.where(),
                    'a parameter of kind %d is stored as %s' % (
                        kind, [T.show(e.val, -8)[:80] for e in hits]),
                    'param:%d' % kind)
    ctx.require(seen == {0, 1, 2}, 'param.kinds', f.where(),
                'parameter kinds stored: %s' % sorted(seen), 'param.kinds')
    # unknown names
    bad = False
    for o in outs:
        if o.kind not in ('ret', 'back'):
            continue
        for x, pol in o.st.pc.items():
            t = T.show(x, -8)
            n = 'count(inner_options_'
            if n in t and ((t.startswith('0 < ') and not pol) or
                           (t.startswith('0 == ') and pol)):
                bad = True
    ctx.require(not bad, 'param.unknown', f.where(),
                'a parameter with an unknown name is passed over',
                'param.unknown')


SOURCE = {'source_cloud_': 'source', 'target_cloud_': 'target',
          'reading_cloud_': 'source', 'reference_cloud_': 'target'}


def origin(t, tags):
    """roles of the clouds a term comes from"""
    out = set()
    for x in T.walk(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and \
                x[2] in SOURCE:
            out.add(SOURCE[x[2]])
        if x in tags:
            out |= tags[x]
    return out


def align(ctx, r):
    p = ctx.prog
    short = r['q'].split('::')[-1]
    f = p.one(r['q'] + '::Align')
    ctx.analysed.add(f.q)
    I = ctx.interp(inline=light, depth=4)
    outs = I.run(f)
    good = 0
    res = [('arg', x['n'], i) for i, x in enumerate(f.params)]
    ctx.need(len(res) == 2, 'alignment signature')
    guess, result = ('ld', res[0]), res[1]
    for o in outs:
        if o.kind != 'ret':
            continue
        if o.val == ('c', False):
            continue
        good += 1
        evs = o.events()
        wr = [e for e in evs if e.k == 'write' and e.loc == result]
        sc = [e for e in evs if e.k == 'write' and
              e.loc == ('f', THIS, 'final_score_')]
        where = f.where()
        ctx.require(bool(wr), 'success.transform', where,
                    '%s reports success without a transform' % short,
                    'transform:' + short)
        ctx.require(bool(sc), 'success.score', where,
                    '%s reports success without a score' % short,
                    'score:' + short)
        if not wr or not sc:
            continue
        score = I.load(o.st, ('f', THIS, 'final_score_'))
        d = falling(score)
        ctx.require(d is not None, 'score.scale', sc[-1].where,
                    '%s reports the score %s' % (short,
                                                 T.show(score, -5)[:120]),
                    'scale:' + short)
        trans = I.load(o.st, result)
        provenance(ctx, short, f, evs, score, trans, guess, wr[-1], sc[-1])
    ctx.need(good > 0, 'successful alignment of %s' % short)
    missing(ctx, r, f, short)


def provenance(ctx, short, f, evs, score, trans, guess, wr, sc):
    tags = {}
    inputs = {}
    used = {}
    last = None
    for i, e in enumerate(evs):
        if e.k not in ('call', 'callin'):
            continue
        obj = e.obj
        if e.n == 'ToPclPointCloud' and len(e.args) == 2:
            t = origin(e.args[0], tags)
            a = e.argl[1]
            if a and a[0] == '&':
                tags[a[1]] = t
        elif e.n in ('setInputCloud',):
            used[obj] = origin(e.argl[0], tags)
        elif e.n == 'filter' and e.argl and e.argl[0][0] == '&':
            tags[e.argl[0][1]] = used.get(obj, set())
        elif e.n in ('setInputSource', 'setInputTarget') and obj:
            inputs.setdefault(obj, {})[e.n[8:].lower()] = \
                origin(e.argl[0], tags)
        elif e.n == 'align' and obj is not None:
            last = (i, e)
            for role in ('source', 'target'):
                got = inputs.get(obj, {}).get(role)
                ctx.require(got == {role}, 'cloud.role', e.where,
                            '%s aligns with %s as %s' % (
                                short, sorted(got) if got else 'nothing',
                                role), 'role:%s:%s' % (short, role))
            a = e.args[1] if len(e.args) > 1 else None
            okg = a is not None and (
                strip(a) == guess or T.occurs(guess, a) or any(
                    isinstance(x, tuple) and x[:1] == ('res',) and
                    'getFinalTransformation' in str(x[2])
                    for x in T.walk(a)))
            ctx.require(okg, 'align.guess', e.where,
                        '%s does not start from the guess' % short,
                        'guess:' + short)
        elif e.n == 'compute' and len(e.args) == 3 and \
                'ICP' in (e.q or ''):
            got = [origin(a, tags) | origin(b, tags)
                   for a, b in zip(e.args[:2], e.argl[:2])]
            ctx.require(got == [{'source'}, {'target'}], 'cloud.role',
                        e.where, '%s aligns %s' % (short, got),
                        'role:' + short)
            ctx.require(T.occurs(guess, e.args[2]), 'align.guess', e.where,
                        '%s does not start from the guess' % short,
                        'guess:' + short)
            ctx.require(strip(trans) == e.res or T.occurs(e.res, trans),
                        'success.found', wr.where,
                        '%s does not return the transform it found' % short,
                        'found:' + short)
    if last is not None:
        i, e = last
        obj = e.obj
        fin = [x for j, x in enumerate(evs) if j > i and x.k == 'call' and
               x.obj == obj]
        tr = [x.res for x in fin if x.n == 'getFinalTransformation']
        fs = [x.res for x in fin if x.n == 'getFitnessScore']
        ctx.require(any(T.occurs(x, trans) for x in tr), 'success.found',
                    wr.where, '%s does not return the transform of its last '
                    'alignment' % short, 'found:' + short)
        ctx.require(any(T.occurs(x, score) for x in fs), 'success.fitness',
                    sc.where, '%s does not return the fitness of its last '
                    'alignment' % short, 'fitness:' + short)
        return
    fs = factors(trans)
    if len(fs) >= 3:
        # own iteration: T * steps * T^-1 * guess
        ctx.require(fs[-1] == guess, 'align.guess', wr.where,
                    '%s does not start from the guess' % short,
                    'guess:' + short)
        ctx.require(is_inv(fs[-2], fs[0]), 'align.frame', wr.where,
                    '%s does not undo its change of frame' % short,
                    'frame:' + short)
        ap = [e for e in evs if e.k == 'call' and e.n == 'ApplyTransform']
        first = ap[0] if ap else None
        ctx.require(first is not None and
                    factors(first.args[0]) == fs[-2:], 'align.start',
                    first.where if first else wr.where,
                    '%s does not move the source by the guess' % short,
                    'start:' + short)


def missing(ctx, r, f, short):
    names = [x['n'] for x in r['fields'] if x['n'] in SOURCE]
    for b in ctx.prog.bases(r):
        br = [x for x in ctx.prog.records.values() if x['q'] == base(b)]
        names += [x['n'] for q in br for x in q['fields']
                  if x['n'] in SOURCE]
    inner = any(x['n'] == 'inner_' for x in r['fields'])
    if inner:
        I = ctx.interp(inline=light, depth=4)
        for o in I.run(f):
            if o.kind != 'ret' or o.val == ('c', False):
                continue
            for n in ('reading_cloud_', 'reference_cloud_'):
                ok = False
                for c, pol in o.st.pc.items():
                    t = T.show(c, -8)
                    if n not in t or t.count('getNbPoints') != 1 or \
                            'obj(' in t:
                        continue
                    ok = ok or (t.startswith('0 == ') and not pol) or \
                        (t.startswith('0 < ') and pol)
                ctx.require(ok, 'missing.cloud', f.where(),
                            '%s reports success without points in its %s' % (
                                short, SOURCE[n]), 'missing:%s:%s' % (
                                    short, n))
        return
    for n in sorted(set(names)):
        I = ctx.interp(inline=light, depth=4)
        st = I.init_state()
        I.store(st, ('f', THIS, n), NULL, quiet=True)
        outs = I.run(f, state=st)
        rets = [o for o in outs if o.kind == 'ret']
        ok = bool(rets) and all(o.kind == 'ret' and o.val == ('c', False)
                                for o in outs)
        ctx.require(ok, 'missing.cloud', f.where(),
                    '%s goes on without a %s cloud' % (short, SOURCE[n]),
                    'missing:%s:%s' % (short, n))
