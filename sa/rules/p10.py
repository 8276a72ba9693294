"""Validation of the configuration."""
from .. import terms as T
from .. import lib_config as C
from ..num import Num
from ..scen import Undecided
from ..strs import parts
from ..terms import c

SRCS = C.SRCS
EXPLAIN = '''
Start-up is followed from the reading of the file to the last thread that is
started, for a file that sets everything, a file that sets nothing and every way
of ending up with the built-in defaults (whose values are propagated from the
constructor).  The path conditions are evaluated for a valid set of values and
for values at and beyond each limit: valid ones must reach the end, invalid ones
must stop the program before the data collector or a thread exists.
'''
ASSUME = ['a failed CHECK stops the program',
          'creating a matcher yields nothing exactly when it is not supported']
MIN_OBLIGATIONS = 25
VALID = {
    'back_end_options.loop_detector_setting.use_gps': 0,
    'back_end_options.loop_detector_setting.use_descriptor': 1,
    'front_end_options.accumulate_cloud_num': 1,
    'output_mrvm_settings.hit_prob': 0.5078125,
    'output_mrvm_settings.miss_prob': 0.4921875,
    'output_mrvm_settings.max_point_num_in_cell': 1,
    'front_end_options.imu_options.enabled': 1,
    'front_end_options.imu_options.frequency': 1.0,
    'matcher': 1,
}
OK = [
    ('the least valid values', {}),
    ('loop detection by GPS only', {
        'back_end_options.loop_detector_setting.use_gps': 1,
        'back_end_options.loop_detector_setting.use_descriptor': 0}),
    ('loop detection by both methods', {
        'back_end_options.loop_detector_setting.use_gps': 1}),
    ('no IMU and no IMU rate', {
        'front_end_options.imu_options.enabled': 0,
        'front_end_options.imu_options.frequency': 0.0}),
    ('many clouds per scan', {'front_end_options.accumulate_cloud_num': 200}),
    ('large cells', {'output_mrvm_settings.max_point_num_in_cell': 50}),
    ('sure hits and misses', {'output_mrvm_settings.hit_prob': 0.9375,
                              'output_mrvm_settings.miss_prob': 0.0625}),
]
NOT = [
    ('no loop detection', {
        'back_end_options.loop_detector_setting.use_descriptor': 0}),
    ('zero clouds per scan', {'front_end_options.accumulate_cloud_num': 0}),
    ('a negative number of clouds per scan', {
        'front_end_options.accumulate_cloud_num': -3}),
    ('a hit probability of one half', {'output_mrvm_settings.hit_prob': 0.5}),
    ('a hit probability below one half', {
        'output_mrvm_settings.hit_prob': 0.25}),
    ('a miss probability of one half', {'output_mrvm_settings.miss_prob': 0.5}),
    ('a miss probability above one half', {
        'output_mrvm_settings.miss_prob': 0.75}),
    ('zero points per cell', {'output_mrvm_settings.max_point_num_in_cell': 0}),
    ('a negative number of points per cell', {
        'output_mrvm_settings.max_point_num_in_cell': -1}),
    ('no matcher', {'matcher': 0}),
    ('an IMU without rate', {'front_end_options.imu_options.frequency': 0.0}),
    ('an IMU with a negative rate', {
        'front_end_options.imu_options.frequency': -5.0}),
]
STARTS = ('std::thread', 'static_map::data::DataCollector')


def starts(o):
    """the first event that starts work"""
    for e in o.events():
        vs = [x for x in (e.val, e.res) if isinstance(x, tuple)] + [
            a for a in (e.args or ()) if isinstance(a, tuple)]
        if e.k in ('write', 'call', 'new') and any(
                t[0] == 'heap' and any(s in str(t[2]) for s in STARTS)
                for v in vs for t in T.walk(v)):
            return e
        if e.k == 'call' and e.n in ('thread', 'DataCollector') and e.c and \
                any(s in e.c for s in STARTS):
            return e
    return None


def setting(I, o, nm):
    l = C.OPT
    for n in nm.split('.'):
        l = ('f', l, n)
    return I.load(o.st, l)


def check(ctx):
    p = ctx.prog
    # the defaults
    I0 = ctx.interp()
    cs = [f for f in p.find('static_map::MapBuilder::MapBuilder')
          if not f.params]
    ctx.need(len(cs) == 1, 'the constructor of the builder')
    base = [o for o in I0.run(cs[0]) if o.kind == 'ret']
    ctx.need(len(base) == 1, 'one path of the constructor')
    base = base[0].st
    for what, case in (('a file with every entry', C.Case()),
                       ('a file with one trailing slash',
                        C.Case(slash={'export_file_path'})),
                       ('a file with another trailing slash',
                        C.Case(slash={'map_package_path'}))):
        whole(ctx, base, what, case)
    for src in ('null', 'noname', 'nofile', 'badfile'):
        defaults(ctx, base, 'start-up with %s' % {
            'null': 'no file name', 'noname': 'an empty file name',
            'nofile': 'a missing file', 'badfile': 'an unreadable file'}[src],
            C.Case(source=src))
    defaults(ctx, base, 'a file of another kind', C.Case(only=((), '')))
    defaults(ctx, base, 'a file without entries', C.Case(only=(C.ROOT, '')))


def run(ctx, base, case):
    st = base.copy()
    st.trace = None
    r = ctx.prog.record('static_map::MapBuilder')
    atom = {('f', ('this',), x['n']) for x in r['fields']
            if 'atomic' in r['tu'].types[x['t']]}
    return C.run(ctx, case, inside=True, state=st,
                 volatile=lambda l: l in atom)


def whole(ctx, base, what, case):
    I, f, outs = run(ctx, base, case)
    ends = [o for o in outs if o.kind in ('ret', 'abort', 'throw', 'back')]
    ctx.need(any(o.kind == 'ret' for o in ends), 'a start-up that succeeds')
    good = [o for o in ends if o.kind == 'ret'][0]
    terms = {nm: setting(I, good, nm) for nm in VALID if nm != 'matcher'}
    m = [e.res for e in good.events() if e.k == 'call' and
         e.n == 'CreateMatcher']
    ctx.need(m, 'the creation of the scan matcher')
    for label, ch, ok in [x + (True,) for x in OK] + [x + (False,) for x in NOT]:
        vals = dict(VALID, **ch)
        over = {terms[nm]: v for nm, v in vals.items() if nm != 'matcher'}
        for t in list(over):
            if t[0] == 'fl' or t[0] == 'op':
                over[t[-1]] = over[t]
        for r in m:
            over[T.cmp('==', c(None), r)] = not vals['matcher']
        verdict(ctx, I, f, ends, over, '%s: %s' % (what, label), ok)
    # the directories
    for o in ends:
        if o.kind != 'ret':
            continue
        first = starts(o)
        for nm in ('export_file_path', 'map_package_path'):
            v = setting(I, o, 'whole_options.' + nm)
            ps = parts(v)
            if case.slash and nm in case.slash:
                ctx.require(ps and ps[-1][0] == 'text' or ps[-1][1].endswith(
                    '/'), 'directory', f.where(), 'the %s that ends in a '
                    'separator is changed to %s' % (nm, T.show(v)[-60:]),
                    'dir/kept')
                continue
            ctx.require(ps and ps[-1][0] == 'lit' and ps[-1][1].endswith('/'),
                        'directory', f.where(), 'the %s does not end in a '
                        'separator: %s' % (nm, T.show(v)[-60:]), 'dir/slash')
            made = [e for e in o.events() if e.k == 'call' and e.n == 'CreateDir'
                    and any(t[0] == 'c' and t[1] == nm
                            for a in e.args for t in T.walk(a))]
            ctx.require(made and (first is None or o.events().index(made[0]) <
                                  o.events().index(first)), 'directory',
                        f.where(), 'the %s is not created before work starts' %
                        nm, 'dir/create')
        break
    if case.slash:
        return
    # a directory that cannot be created
    for nm in ('export_file_path', 'map_package_path'):
        k = C.Case()
        k2 = lambda a, k=k, nm=nm: (False if a[0] == 'call' and
                                    C.name(a) == 'CreateDir' and any(
                                        t == c(nm) for t in T.walk(a))
                                    else k(a))
        k2.slash = False
        I, f, outs = run(ctx, base, k2)
        ctx.require(all(o.kind != 'ret' and starts(o) is None for o in outs),
                    'directory', f.where(), 'start-up continues when the %s '
                    'cannot be created' % nm, 'dir/fail')


def verdict(ctx, I, f, ends, over, what, ok):
    num = Num(over=over, seed=3)

    def holds(a):
        if a in over:
            return bool(over[a])
        return bool(num.num(a))
    sel = []
    for o in ends:
        t = True
        for a, pol in o.st.pc.items():
            if not any(x in over for x in T.walk(a)):
                continue          # other threads, printing
            try:
                if holds(a) != bool(pol):
                    t = False
                    break
            except Exception as e:
                raise Undecided('%s: %s' % (T.show(a)[:80], e))
        if t:
            sel.append(o)
    if ok:
        ctx.require(any(o.kind == 'ret' for o in sel) and not any(
            o.kind in ('abort', 'throw') for o in sel), 'valid', f.where(),
            '%s: a valid configuration is refused' % what, 'valid')
        return
    w = [o for o in sel if o.kind in ('ret', 'back')]
    st = [e for e in map(starts, sel) if e]
    ctx.require(sel and not w, 'invalid', f.where(), '%s: start-up continues' %
                what, 'invalid')
    ctx.require(not st, 'invalid', st[0].where if st else f.where(), '%s: work '
                'is started before the configuration is refused' % what,
                'invalid/late')


def defaults(ctx, base, what, case):
    I, f, outs = run(ctx, base, case)
    n = 0
    for o in outs:
        if o.kind not in ('ret', 'abort', 'throw', 'back'):
            continue
        n += 1
        if o.kind != 'ret' and starts(o) is None:
            ctx.ok('defaults', f.where(), what)
            continue
        # it goes on: the built-in values must be valid
        v = {nm: T.num(setting(I, o, nm)) for nm in VALID if nm != 'matcher'}
        v = {k.split('.')[-1]: x for k, x in v.items()}
        good = None not in v.values() and (v['use_gps'] or
                                           v['use_descriptor']) and \
            v['accumulate_cloud_num'] >= 1 and v['hit_prob'] > 0.5 and \
            v['miss_prob'] < 0.5 and v['max_point_num_in_cell'] >= 1 and \
            (not v['enabled'] or v['frequency'] > 0)
        ctx.require(good, 'defaults', f.where(), '%s continues with built-in '
                    'values that are not valid' % what, 'defaults')
        for nm in ('export_file_path', 'map_package_path'):
            s = setting(I, o, 'whole_options.' + nm)
            ctx.require(s[0] == 'c' and str(s[1]).endswith('/') or
                        (parts(s) or [(0, '')])[-1][1:] and
                        str((parts(s) or [(0, '')])[-1][1]).endswith('/'),
                        'defaults', f.where(), '%s: %s does not end in a '
                        'separator' % (what, nm), 'defaults/dir')
    ctx.need(n, 'paths of ' + what)
