"""Points leave memory only when a copy exists on disk."""
from .. import terms as T
from ..paths import THIS, fld, ld, truth_of, exits, sweeps, iterations
from ..interp import Budget
from ..table import ev, Unknown
from ..terms import c, NULL

SRCS = ['builder/submap.cc', 'builder/frame.cc', 'builder/frame_base.cc',
        'builder/memory_manager.cc', 'builder/data/cloud_types.cc',
        'builder/map_builder.cc', 'builder/trajectory.cc']
EXPLAIN = '''
Typestate of one cloud (resident, saved, released).  Every call that releases
points is found in all translation units; on every path to it the same cloud
object must have been saved before, with disk saving known to be on, or the
path must have read the flag that says so.  The flag may become true only after
the save.  If a function releases on behalf of its callers, the obligation moves
to every caller with the function followed.  The final output pass is the one
exception: there nothing may ask for a cloud after its release.  The save and
reload functions are followed path by path: the file remembered is the file
written, reload opens that file, an unopened or unread file cannot return, and
the resident flag changes together with the points.  The idle clock is compared
with the specification for every relative order of its inputs and must be
decided while no reader is inside.
'''
ASSUME = ['a write that the stream reports as good is readable later']
MIN_OBLIGATIONS = 14
C = 'static_map::data::InnerPointCloudData'
OPQ = ('SaveToFile', 'CloudInMemory', 'Clear', 'Empty', 'CalculateNormals',
       'GenerateMapPackage', 'ToPclPointCloud', 'InsertPointCloud',
       'OutputToPointCloud', 'savePCDFileBinaryCompressed', 'InitFromXmlText',
       'Filter', 'SetInputCloud', 'Initialise', 'ApplyTransformToOutput',
       'SetInnerCloud')
FINAL = 'static_map::MapBuilder::SaveMaps'


def is_rel(e):
    return e.k == 'call' and e.n == 'Clear' and (e.q or '').startswith(C + '::')


def star(t):
    """with every loop counter made anonymous"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'iv':
        return ('iv*',)
    return tuple(star(x) for x in t)


def disk_on(pc, owner):
    """some option called enable_disk_saving is known to be set"""
    for a, v in pc.items():
        if a[0] == 'ld' and a[1][0] == 'f' and a[1][2] == 'enable_disk_saving':
            return v
    return None


def flag_on(pc):
    for a, v in pc.items():
        if a[0] == 'ld' and a[1] == fld('got_matched_transform_to_next_'):
            return v
    return None


def release_ok(I, outs, o, evs, k, saves_always):
    e = evs[k]
    X = e.obj
    if disk_on(o.st.pc, X) is not True:
        return 'with disk saving switched off or unknown'
    for j in range(k - 1, -1, -1):
        s = evs[j]
        if s.k == 'call' and s.n == 'SaveToFile' and star(s.obj) == star(X):
            if s.obj != X:
                # another loop: it must have covered the whole container
                lev = None
                for x in evs[:j]:
                    if x.k == 'loop':
                        lev = x
                if lev is None or any(x.k == 'loopexit' and x.x == lev.x
                                      for x in evs[:j]):
                    continue
            if not saves_always and truth_of(o.st.pc, s.res) is not True:
                return 'whether or not the save at %s succeeded' % s.where
            return None
    # saved in an earlier, completed loop over the same container
    for j in range(k - 1, -1, -1):
        if evs[j].k == 'loop' and any(x.k == 'loopexit' and x.x == evs[j].x
                                      for x in evs[j:k]):
            for bo, es in iterations(outs).get(id(evs[j]), []):
                for s in es:
                    if s.k == 'call' and s.n == 'SaveToFile' and \
                            star(s.obj) == star(X):
                        iv = [t for t in T.walk(s.obj) if t[0] == 'iv'
                              and t[1] == evs[j].x]
                        sz = [t for x in es if x.k == 'cond'
                              for t in T.walk(x.val) if t[0] == 'ld' and
                              t[1][0] == 'f' and t[1][2] == '#size']
                        if iv and sz:
                            why, early = sweeps(outs, evs[j], iv[0], sz[:1])
                            if not why and not any(x[0].kind == 'ret'
                                                   for x in early):
                                return None
    if X == ('*', ld(fld('inner_cloud_'))) and flag_on(o.st.pc) is True:
        return None
    return 'before it was written to disk'


def releases(ctx, p, fn, saves_always):
    """problems of the releases in fn (callees followed)"""
    I = ctx.interp(opaque=OPQ)
    outs = I.run(fn)
    res, n = {}, 0
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if is_rel(e):
                n += 1
                # only the outermost call counts for outs seen twice
                why = release_ok(I, outs, o, evs, k, saves_always)
                if why:
                    res[(e.where, why)] = (o, e)
    return res, n


def final_ok(ctx, p, fn):
    I = ctx.interp(opaque=OPQ + ('Cloud',))
    outs = I.run(fn)
    n = 0
    for o in outs:
        gone = {}
        for e in o.events():
            if is_rel(e):
                n += 1
                gone[owner(e.obj)] = e
            if e.k == 'call' and e.n == 'Cloud' and e.obj is not None and \
                    e.obj in gone:
                return 'asks at %s for a cloud released at %s' % (
                    e.where, gone[e.obj].where), n
            if e.k == 'iterend':
                pass
    # what a release touches belongs to the submap of the current round
    for o in outs:
        loops = []
        for e in o.events():
            if e.k == 'loop':
                loops.append(e.x)
            if e.k == 'loopexit' and e.x in loops:
                loops = loops[:loops.index(e.x)]
            if is_rel(e):
                ivs = [t for t in T.walk(e.obj) if t[0] == 'iv']
                if not ivs or loops and ivs[0][1] not in loops:
                    return 'releases a cloud that is not of the submap in ' \
                        'turn at ' + e.where, n
    return None, n


def owner(X):
    """the frame or submap whose inner_cloud_ X is"""
    if X[0] == '*' and X[1][0] == 'ld' and X[1][1][0] == 'f':
        return X[1][1][1]
    return X


def callers(p, fn):
    out = []
    for g in p.fns.values():
        if g.id == fn.id or not g.file:
            continue
        for i, n in g.calls():
            if n.get('fn') and n['fn'].get('u') == fn.id:
                out.append(g)
                break
    return out


def check(ctx):
    p = ctx.prog
    # --- save
    fn = p.one(C + '::SaveToFile')
    I = ctx.interp(opaque=('Serialize',))
    saves_always = True
    n = 0
    for o in I.run(fn):
        if o.kind != 'ret':
            continue
        ser = [e for e in o.events() if e.k == 'call' and e.n == 'Serialize']
        if o.val != c(True):
            saves_always = False
            if truth_of({}, o.val) is False or o.val == c(False):
                continue
        n += 1
        ok = ser and ser[-1].obj == ('*', ld(fld('inner_cloud_')))
        ctx.require(ok, 'save-writes-points', fn.where(), 'a successful save '
                    'wrote the resident points', 'save/points')
        name = I.load(o.st, fld('filename_'))
        st = I.load(o.st, ser[-1].args[0][1]) if ok and \
            ser[-1].args[0][0] == '&' else None
        op = [e for e in o.events() if e.k == 'call' and (
            e.n in ('basic_fstream', 'open', 'basic_ofstream'))]
        ctx.require(ok and op and op[-1].args and op[-1].args[0] == name,
                    'save-remembers-file', fn.where(), 'the remembered name is '
                    'that of the file written: %s' % T.show(name), 'save/name')
    ctx.need(n, 'no successful path of SaveToFile')
    # --- who else changes the remembered name
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.cls != C or f.nocfg or not any(
                nd['k'] == 'mem' and nd.get('n') == 'filename_'
                for nd in f.nodes):
            continue
        I = ctx.interp(opaque=('Serialize', 'Deserialize', 'EigenPointCloud'))
        for o in I.run(f):
            w = [e for e in o.events() if e.k == 'write' and
                 e.loc == fld('filename_')]
            if w and o.kind == 'ret':
                ctx.require(any(e.k == 'call' and e.n == 'Serialize'
                                for e in o.events()), 'save-remembers-file',
                            w[-1].where, 'the remembered name changes only with '
                            'a save', 'name/writer')
    # --- reload
    fn = p.one(C + '::CloudInMemory')
    I = ctx.interp(opaque=('Deserialize', 'EigenPointCloud'))
    n = 0
    flag = ld(fld('is_cloud_in_memory_'))
    for o in I.run(fn):
        if o.kind != 'ret':
            continue
        was = truth_of(o.st.pc, flag)
        v = o.val
        v = truth_of(o.st.pc, v) if v[0] != 'c' else bool(v[1])
        if was is True:
            ctx.require(v is True, 'reload', fn.where(), 'a resident cloud is '
                        'reported as resident', 'reload/resident')
            continue
        if v is False:
            ctx.ok('reload', fn.where(), 'a reload that fails says so')
            continue
        n += 1
        d = [e for e in o.events() if e.k == 'call' and e.n == 'Deserialize']
        ok = d and truth_of(o.st.pc, T.cmp('<', d[-1].res, c(0))) is False
        ctx.require(ok, 'reload', fn.where(), 'a reload returns only after a '
                    'successful read', 'reload/read')
        if not d:
            continue
        op = [e for e in o.events() if e.k == 'call' and e.n in (
            'basic_fstream', 'open', 'basic_ifstream')]
        isop = [e for e in o.events() if e.k == 'call' and e.n in (
            'is_open', 'operator!', 'operator bool', 'good', 'fail')]
        ctx.require(op and op[-1].args[0] == ld(fld('filename_')), 'reload',
                    fn.where(), 'the file read is the one remembered',
                    'reload/file')
        opened = any(truth_of(o.st.pc, e.res) is (e.n not in (
            'operator!', 'fail')) for e in isop) or ok
        ctx.require(opened, 'reload', fn.where(), 'the file is known to be '
                    'open', 'reload/open')
        got = I.load(o.st, fld('inner_cloud_'))
        ctx.require(got == ('&', d[-1].obj), 'reload', fn.where(), 'the points '
                    'installed are the points read', 'reload/install')
        ctx.require(I.load(o.st, fld('is_cloud_in_memory_')) == c(True),
                    'reload', fn.where(), 'the cloud is marked resident',
                    'reload/flag')
    ctx.need(n, 'no path of CloudInMemory reloads')
    # --- release
    fn = p.one(C + '::Clear')
    I = ctx.interp()
    for o in I.run(fn):
        if o.kind != 'ret':
            continue
        a = I.load(o.st, fld('inner_cloud_')) != ld(fld('inner_cloud_')) or \
            any(e.k == 'call' and e.n == 'clear' for e in o.events())
        b = I.load(o.st, fld('is_cloud_in_memory_'))
        was = truth_of(o.st.pc, flag)
        ctx.require(not a or b == c(False), 'release-marks', fn.where(),
                    'released points are marked as not resident' if a else
                    'nothing released', 'clear/flag')
        ctx.require(a or b != c(False) or was is False, 'release-marks',
                    fn.where(), 'the mark goes with the points', 'clear/points')
    # --- install marks resident
    fn = p.one(C + '::SetInnerCloudImpl')
    I = ctx.interp(opaque=('EigenPointCloud',))
    a0 = ld(('arg', fn.params[0]['n'], 0))
    for o in I.run(fn):
        if o.kind == 'ret':
            ctx.require(I.load(o.st, fld('is_cloud_in_memory_')) == c(True) and
                        T.occurs(('arg', fn.params[0]['n'], 0),
                                 I.load(o.st, fld('inner_cloud_'))),
                        'install-marks', fn.where(), 'a cloud that is set is '
                        'resident', 'install')
    # --- handing out
    n = 0
    for q in ('static_map::Submap::Cloud', 'static_map::Frame::Cloud'):
        fn = p.one(q)
        I = ctx.interp(opaque=('CloudInMemory',))
        for o in I.run(fn):
            if o.kind != 'ret':
                continue
            n += 1
            m = [e for e in o.events() if e.k == 'call' and
                 e.n == 'CloudInMemory' and
                 e.obj == ('*', ld(fld('inner_cloud_')))]
            ctx.require(m and truth_of(o.st.pc, m[-1].res) is True and
                        o.val == ld(fld('inner_cloud_')), 'handed-out-resident',
                        fn.where(), '%s hands out its own cloud after it was '
                        'made resident' % q, q + '/resident')
            if q.endswith('Submap::Cloud'):
                t = I.load(o.st, fld('cloud_inactive_time_'))
                w = [e for e in o.events() if e.k == 'astore' and
                     e.loc == fld('cloud_inactive_time_')]
                ctx.require(t == c(0) and w and
                            any(x[0] == fld('mutex_') for x in w[-1].locks),
                            'idle-clock', fn.where(), 'an access restarts the '
                            'idle clock inside the lock', 'access/clock')
    # --- idle clock
    fn = p.one('static_map::Submap::UpdateInactiveTime')
    I = ctx.interp(opaque=OPQ)
    outs = [o for o in I.run(fn) if o.kind == 'ret']
    disk = ld(('f', fld('options_'), 'enable_disk_saving'))
    mt = ld(fld('got_matched_transform_to_next_'))
    delay = ld(('f', fld('options_'), 'disk_saving_delay'))
    idle = ld(fld('cloud_inactive_time_'))
    dt = ld(('arg', fn.params[0]['n'], 0))
    cases = 0
    bad = None
    for d in (0, 1):
        for m in (0, 1):
            for lim in (0, 1, 2, 5):
                for t in (0, 1, 2, 5, 6):
                    for s in (1, 2):
                        env = {disk: d, mt: m, delay: lim, idle: t, dt: s}
                        cases += 1
                        for o in outs:
                            try:
                                if any(bool(ev(a, env)) != v
                                       for a, v in o.st.pc.items()
                                       if a != ('==', NULL,
                                                ld(fld('inner_cloud_')))):
                                    continue
                            except Unknown:
                                continue
                            rel = any(is_rel(e) for e in o.events())
                            if rel and not (d and m and t + s > lim):
                                bad = bad or 'releases'
                                benv = env
                            if not rel and d and m:
                                try:
                                    nt = ev(I.load(o.st, idle[1]), env)
                                except Unknown:
                                    nt = None
                                if nt != t + s and not bad:
                                    bad = 'does not advance the clock'
                                    benv = env
                            if not rel and d and m and t + s > lim and not bad:
                                bad = 'keeps a cloud idle for longer'
                                benv = env
    ctx.count('idle_combinations', cases)
    ctx.require(not bad, 'idle-clock', fn.where(), 'idle release: %d '
                'combinations' % cases if not bad else '%s with %s' % (
                    bad, ', '.join('%s=%s' % (T.show(k), v)
                                   for k, v in benv.items())), 'idle/table')
    for o in outs:
        evs = o.events()
        for k, e in enumerate(evs):
            if is_rel(e):
                l = [x for x in evs[:k] if x.k == 'aload' and
                     x.loc == fld('cloud_inactive_time_')]
                ok = l and any(x[0] == fld('mutex_') and x[1] == 'x'
                               for x in l[-1].locks)
                ctx.require(ok, 'idle-clock', e.where, 'the decision to release '
                            'is taken with all readers out' if ok else 'an '
                            'access may come between the decision and the '
                            'release', 'idle/lock')
    # --- the clock runs at the speed of the wait
    fn = p.one('static_map::MemoryManager::Processing')
    I = ctx.interp(opaque=('UpdateInactiveTime', 'Sleep', 'FromSec'))
    steps, sleeps, cover = set(), set(), 0
    outs = I.run(fn)
    for o in outs:
        for e in o.events():
            if e.k == 'call' and e.n == 'UpdateInactiveTime':
                steps.add(e.args[0])
                cover += 1
            if e.k == 'call' and e.n == 'FromSec':
                sleeps.add(T.num(e.args[0]))
    ctx.need(steps, 'the memory manager does not update submaps')
    ctx.require(len(steps) == 1 and {T.num(x) for x in steps} == sleeps,
                'clock-speed', fn.where(), 'each round adds %s s and waits %s s'
                % (sorted(map(T.show, steps)), sorted(sleeps)), 'speed')
    tried = set()
    for o in outs:
        for e in o.events():
            if e.k != 'loop' or id(e) in tried:
                continue
            tried.add(id(e))
            for bo, es in iterations(outs).get(id(e), []):
                u = [x for x in es if x.k == 'call' and
                     x.n == 'UpdateInactiveTime']
                if not u or any(x.k == 'loop' for x in es):
                    continue
                iv = [t for t in T.walk(u[0].obj) if t[0] == 'iv' and
                      t[1] == e.x]
                sz = [t for x in es if x.k == 'cond' for t in T.walk(x.val)
                      if t[0] == 'ld' and t[1][0] == 'f' and t[1][2] == '#size']
                why = 'not indexed' if not iv or not sz else \
                    sweeps(outs, e, iv[0], sz[:1])[0]
                ctx.require(not why, 'clock-all', e.where, 'every submap is '
                            'told the time%s' % (': ' + why if why else ''),
                            'all')
    # --- the flag that allows the idle release
    fl = fld('got_matched_transform_to_next_')
    nset = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.cls != 'static_map::Submap' or f.nocfg or f.kind in ('ctor',
                                                                   'dtor'):
            continue
        if not any(nd['k'] == 'mem' and nd.get('n') ==
                   'got_matched_transform_to_next_' for nd in f.nodes):
            continue
        I = ctx.interp(opaque=OPQ)
        for o in I.run(f):
            if o.kind not in ('ret', 'back'):
                continue
            evs = o.events()
            for k, e in enumerate(evs):
                if e.k == 'astore' and e.loc == fl and e.val == c(True):
                    nset += 1
                    d = disk_on(o.st.pc, None)
                    s = [x for x in evs[:k] if x.k == 'call' and
                         x.n == 'SaveToFile' and
                         x.obj == ('*', ld(fld('inner_cloud_'))) and
                         (saves_always or truth_of(o.st.pc, x.res) is True)]
                    ctx.require(d is False or s, 'flag-after-save', e.where,
                                'a submap becomes releasable only after it was '
                                'saved', 'flag')
    ctx.need(nset, 'the submap never becomes releasable')
    # --- every release
    work, done, total, last = [], set(), 0, {}
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.nocfg or not f.file or f.cls == C:
            continue
        if any(n.get('fn') and n['fn'].get('q') == C + '::Clear'
               for _, n in f.calls()):
            work.append(f)
    ctx.need(work, 'no release of points found')
    while work:
        f = work.pop(0)
        if f.id in done:
            continue
        done.add(f.id)
        if f.q == FINAL:
            why, n = final_ok(ctx, p, f)
            total += n
            ctx.require(not why, 'release-site', f.where(), 'the final output '
                        '%s' % (why or 'releases each submap after its last '
                                'use'), 'final')
            continue
        try:
            bad, n = releases(ctx, p, f, saves_always)
        except Budget:
            # the callee's release stays unproved
            for (w, why), (o, e) in sorted(last.get(f.id, {}).items(),
                                           key=lambda x: x[0]):
                ctx.bad('release-site', w, '%s releases points %s' % (f.q, why),
                        f.n + '/release')
            continue
        total += n
        if not bad:
            ctx.ok('release-site', f.where(), '%s releases only saved points'
                   % f.q)
            continue
        cs = callers(p, f)
        if not cs:
            for (w, why), (o, e) in sorted(bad.items(), key=lambda x: x[0]):
                ctx.bad('release-site', w, '%s releases points %s' % (f.q, why),
                        f.n + '/release')
        else:
            ctx.count('obligations_moved_to_callers')
            work += cs
            for g in cs:
                last[g.id] = bad
    ctx.count('release_events', total)
