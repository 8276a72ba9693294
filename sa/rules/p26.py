"""P26: messages of the robot middleware keep their fields."""
from .. import terms as T

SRCS = ['ros_node/msg_conversion.cc']
MIN_OBLIGATIONS = 150
TECH = ('path-sensitive dataflow over the message conversions: the origin of '
        'every field of the result')
EXPLAIN = (
    'The conversions are analysed against the field layout of the middleware '
    'messages. For every path, and for every field, array element, vector '
    'component and quaternion component of the returned message that has a '
    'counterpart in the message given, the value must be that counterpart '
    'itself, and the time stamp must be made of its whole seconds and '
    'nanoseconds in this order. The declared types of the fields must hold '
    'every value of the counterpart.')
ASSUME = ['the layout of the middleware messages is the one in the stub '
          'headers, which name the fields the published definitions have',
          'a time stamp made of seconds and nanoseconds keeps both (decided '
          'separately)']
D = 'static_map::data::'
SEQ, VEC, QUAT = 'xyzw', 'xyz', 'wxyz'


def header():
    return [('header.seq', 'header.seq'),
            ('header.frame_id', 'header.frame_id'),
            ('header.stamp', 'header.stamp!')]


def vec(a, b=None):
    return [('%s[%d]' % (a, k), '%s.%s' % (b or a, x))
            for k, x in enumerate(VEC)]


def quat(a, b=None):
    return [("%s['%s']" % (a, x), '%s.%s' % (b or a, x)) for x in QUAT]


def arr(a, n):
    return [('%s[%d]' % (a, k), '%s[%d]' % (a, k)) for k in range(n)]


def same(*names):
    return [(n, n) for n in names]


MSGS = {
    'ToLocalImu': header() + quat('orientation') +
    arr('orientation_covariance', 9) + vec('angular_velocity') +
    arr('angular_velocity_covariance', 9) + vec('linear_acceleration') +
    arr('linear_acceleration_covariance', 9),
    'ToLocalOdom': header() + same('child_frame_id') +
    vec('pose.pose.position') + quat('pose.pose.orientation') +
    arr('pose.covariance', 36) + vec('twist.twist.linear') +
    vec('twist.twist.angular') + arr('twist.covariance', 36),
    'ToLocalNavSatMsg': header() + same('status.status', 'status.service') +
    same('latitude', 'altitude', 'position_covariance_type') +
    [('longtitude', 'longitude')] + arr('position_covariance', 9),
}
TYPES = {
    'Header': {'seq': 'unsigned int', 'frame_id': 'std::'},
    'NavSatFixMsg': {'latitude': 'double', 'longtitude': 'double',
                     'altitude': 'double'},
}
BITS = {'unsigned int': 32, 'uint32_t': 32, 'int': 31, 'unsigned long': 64,
        'uint64_t': 64, 'signed char': 7, 'int8_t': 7, 'short': 15,
        'int16_t': 15, 'long': 63, 'int64_t': 63, 'int32_t': 31,
        'unsigned short': 16, 'uint16_t': 16, 'unsigned char': 8,
        'uint8_t': 8}
WIDE = {('Header', 'seq'): (32, False), ('NavSatStatus', 'status'): (7, True),
        ('NavSatStatus', 'service'): (16, False),
        ('NavSatFixMsg', 'position_covariance_type'): (8, False)}


def keys(path):
    """'a.b[3]' -> access keys"""
    out = []
    for part in path.split('.'):
        name, _, idx = part.partition('[')
        out.append(('f', name))
        if idx:
            idx = idx[:-1]
            out.append(('[]', ('c', int(idx) if idx.isdigit()
                               else idx.strip("'"))))
    return out


def get(v, path):
    for k in keys(path):
        if isinstance(v, tuple) and v and v[0] == 'rec':
            d = dict(v[2])
            v = d[k] if k in d else part(v[1], k) or ('fld', v[1], k)
        elif isinstance(v, tuple) and v[0] == 'ld':
            l = v[1]
            v = ('ld', (k[0], l, k[1]))
        else:
            v = part(v, k) or ('fld', v, k)
    return v


def part(v, k):
    """component k of a vector or quaternion made of its components"""
    if v[0] == 'vec' and k[0] == '[]' and isinstance(k[1][1], int) and \
            k[1][1] < len(v) - 1:
        return v[1 + k[1][1]]
    for i in (1, 2):
        if v[0] in ('call', 'Quaternion', 'obj') and len(v) == i + 4 and \
                str(v[i - 1]).endswith('Quaternion') and \
                k[1][1] in tuple(QUAT):
            return v[i + QUAT.index(k[1][1])]
    return None


def copied(o):
    """arrays copied as a whole: (keys of destination, source, length)"""
    out = []
    for e in o.events():
        if e.k != 'call' or not e.args:
            continue
        a = e.args
        if e.n == 'copy_n' and len(a) == 3:
            src, n, dst = a
            n = n[1] if n[0] == 'c' else None
        elif e.n == 'copy' and len(a) == 3:
            src, end, dst = a
            n = None
            if end[0] == 'lin' and dict(end[1]) == {src: 1}:
                n = end[2]
            elif end[0] == 'it' and T.show(end[2]).endswith('#size'):
                n = 1 << 30
        elif e.n == 'memcpy' and len(a) == 3:
            dst, src, n = a
            n = n[1] // 8 if n[0] == 'c' else None
        else:
            continue
        loc = src[1] if src[0] in ('&', 'it') else None
        to = dst[1] if dst[0] in ('&', 'it') else None
        if loc is None or to is None or n is None:
            continue
        ks = []
        while to[0] in ('f', '[]'):
            ks.insert(0, (to[0], to[2]))
            to = to[1]
        out.append((ks, loc, n))
    return out


def whole(cs, dst, want):
    ks = keys(dst)
    if ks[-1][0] != '[]' or want[1][0] != '[]' or \
            want[1][2] != ks[-1][1]:
        return False
    return any(k == ks[:-1] and l == want[1][1] and ks[-1][1][1] < n
               for k, l, n in cs)


def source(arg, path):
    l = arg
    for k in keys(path):
        l = (k[0], l, k[1])
    return ('ld', l)


def stamp(v, arg):
    want = [source(arg, 'header.stamp.sec'), source(arg, 'header.stamp.nsec')]
    if v[0] == 'obj' and str(v[1]).endswith('SimpleTime'):
        return list(v[3:]) == want
    if v[0] == 'rec':
        d = dict(v[2])
        return [d.get(('f', 'secs')), d.get(('f', 'nsecs'))] == want
    return False


def check(ctx):
    p = ctx.prog
    for name, table in MSGS.items():
        f = p.one('static_map_ros::' + name)
        I = ctx.interp(depth=6, unroll=64, inline=lambda g: not g.nocfg and (
            g.file.startswith('ros_node/') or
            g.file.startswith('builder/data/data_types')))
        ctx.analysed.add(f.q)
        arg = ('arg', f.params[0]['n'], 0)
        outs = [o for o in I.run(f) if o.kind == 'ret']
        ctx.need(outs, 'a path that converts (%s)' % name)
        ctx.count('paths', len(outs))
        for o in outs:
            cs = copied(o)
            for dst, src in table:
                v = get(o.val, dst)
                if src.endswith('!'):
                    ctx.require(stamp(v, arg), 'the time stamp keeps seconds '
                                'and nanoseconds', f.q, 'the stamp is %s' %
                                T.show(v), name + '.' + dst)
                    continue
                ctx.require(v == source(arg, src) or
                            whole(cs, dst, source(arg, src)),
                            'every field has the value of its counterpart',
                            f.q, '%s is %s, not %s of the message' %
                            (dst, T.show(v, -2)[:80], src), name + '.' + dst)
    for (rec, fld), (bits, signed) in WIDE.items():
        r = record(p, rec)
        t = next((p_type(r, x) for x in r['fields'] if x['n'] == fld), '')
        b = BITS.get(t)
        ctx.require(b is not None and b >= bits and
                    not (signed and t.startswith('u')),
                    'a field holds every value of its counterpart',
                    '%s:%d' % (r['file'], r['line']),
                    '%s.%s has type %s' % (rec, fld, t), rec + '.' + fld)
    for rec, d in TYPES.items():
        r = record(p, rec)
        for x in r['fields']:
            if x['n'] in d:
                t = p_type(r, x)
                ctx.require(d[x['n']] in t,
                            'a field holds every value of its counterpart',
                            '%s:%d' % (r['file'], r['line']),
                            '%s.%s has type %s' % (rec, x['n'], t),
                            rec + '.' + x['n'])


def record(p, rec):
    return p.record('data::NavSatFixMsg::' + rec if rec == 'NavSatStatus'
                    else 'data::' + rec)


def p_type(r, x):
    return r['tu'].types[x['t']]
